"""Chemical mechanisms: strategies that draw one, its text in KPP form, and what the text means.

The reference never parses text: the generator knows the reactions it wrote down.

A mechanism (JSON):
  {"species": [name, ...],
   "reactions": [{"lhs": [[coef_text, species_no], ...], "hv": bool, "rhs": [[coef_text, species_no], ...],
                  "rate": rate_text_or_ast}, ...],
   "layout": {...}}
"""
from hypothesis import strategies as st

EXCLUDED = ("AIR", "H2O", "O2")
# Names from shipped mechanisms, chosen so that names are prefixes of one another, end in digits, and start with
# letters that could be misread next to a number (D, E).
NAMES = ["O3", "O", "O1D", "NO", "NO2", "NO3", "N2O5", "OH", "HO2", "H2O2", "CO", "SO2", "SO3", "SA", "NA", "HNO3", "HONO",
         "HO2NO2", "CH4", "CH3O2", "CH3OOH", "CH3O", "HCHO", "CL", "APINENE", "C96O2", "C960", "C9", "C96", "C96OOH",
         "NC101CO", "C107O2", "C109O2", "PINONIC", "ETHENO3O2", "EMALANHYO2", "DECO2", "DECANE", "E2NE", "D1OX", "BUT2OLO2",
         "ISOPOOH", "H2", "CH3CO3", "PAN", "GLYOX", "MGLYOX", "J4X", "EXPO2", "LOGX", "TEMPO", "RO2X", "MACR", "MVK", "N2", "M", "N", "E2HEX", "D2", "HV2", "HVO3", "CHVO", "EO2", "D1", "E", "E1", "D", "hvx", "O2X", "AIRX", "XH2O", "MO2", "H2O3", "OHV", "INIT", "Y", "R"]
SPECIAL = ["AIR", "H2O", "O2"]


def names(min_size=1, max_size=12, special=True, extra=(), required=()):
    up = st.from_regex(r"[A-Z][A-Z0-9]{0,9}", fullmatch=True)
    low = st.from_regex(r"[A-Za-z][A-Za-z0-9_]{0,9}", fullmatch=True)
    fresh = st.one_of(up, up, low).filter(lambda s: s.upper() not in ("HV",) + EXCLUDED)
    pool = st.sampled_from(NAMES + list(extra))
    opts = [pool, pool, fresh] + ([st.sampled_from(SPECIAL)] if special else [])
    lst = st.lists(st.one_of(*opts), min_size=min_size, max_size=max_size, unique_by=str.upper)
    if required:
        return lst.map(lambda l: list(required) + [x for x in l if x not in required])
    return lst


COEF_INT = ["2", "3", "2.0", "4", "1", "1.0", "5"]
COEF_FRAC = ["0.5", "1.5", "0.25", ".5", "0.125", "2.5", "0.65", "10.75", "0.333", "0.0625", "0.99", "1.01", "0.995", "0.12345", "1.333333"]
COEF_WIDE = st.one_of(st.sampled_from(["10", "12", "25", "100", "100.5", "10.0", "0.05", "0.002", "007.5"]),
                      st.integers(6, 120).map(str),
                      st.tuples(st.integers(0, 30), st.integers(1, 9999)).map(lambda t: "%d.%04d" % t),
                      st.tuples(st.integers(0, 12), st.integers(1, 99)).map(lambda t: "%d.%02d" % t),
                      st.tuples(st.integers(0, 9), st.integers(1, 9999999)).map(lambda t: "%d.%07d" % t),
                      st.sampled_from(["0.30000000000000004", "0.7999999999999999", "1.1000000000000001", "0.1234567890123456"]))


def coef(kind):
    """kind: 'one' (never a coefficient), 'int' (positive integers), 'any', 'wide' (large and long ones as well)."""
    if kind == "one":
        return st.just("")
    if kind == "int2":
        return st.sampled_from(["", "", "", "2"])
    if kind == "small":
        return st.sampled_from(["", "", "", "2", "0.5", "2.0"])
    if kind == "int":
        return st.one_of(st.just(""), st.just(""), st.sampled_from(COEF_INT))
    some = [st.just(""), st.sampled_from(COEF_INT), st.sampled_from(COEF_FRAC)]
    return st.one_of(*some, *([COEF_WIDE] if kind == "wide" else []))


def side(n, kind, lo, hi):
    return st.lists(st.tuples(coef(kind), st.integers(0, n - 1)).map(list), min_size=lo, max_size=hi)


@st.composite
def reactions(draw, n, rate, max_reactions=12, min_reactions=1, lhs_kind="int", rhs_kind="any", max_lhs=3, max_rhs=4):
    out = []
    m = draw(st.integers(min_reactions, max_reactions))
    for _ in range(m):
        many = draw(st.integers(0, 11))  # now and then more terms on one side than mechanisms usually have
        lhs = side(n, "one" if lhs_kind == "one" else "int2" if lhs_kind == "int" else "small", 4, 6) if many == 0 else side(n, lhs_kind, 1, max_lhs)
        rhs = side(n, rhs_kind, 5, 16) if many == 1 else side(n, rhs_kind, 0, max_rhs)
        out.append({"lhs": draw(lhs), "hv": draw(st.booleans()) if draw(st.integers(0, 5)) == 0 else False, "rhs": draw(rhs), "rate": draw(rate)})
    if draw(st.integers(0, 4)) == 0:  # the same reaction again, as parallel channels are written; with its own rate or the same
        again = dict(draw(st.sampled_from(out)))
        if draw(st.booleans()):
            again["rate"] = draw(rate)
        out.insert(draw(st.integers(0, len(out))), again)
    return out


LAYOUT = st.fixed_dictionaries({
    "label": st.sampled_from(["{%d.}", "{%d}", "{%d.} "]),
    "sp": st.sampled_from([" ", "", "  ", "\t", " \t "]),
    "wrap": st.sampled_from([0, 0, 3, 7, 1]),      # break the line after every wrap-th token, 0: one line
    "nl": st.sampled_from(["\n", "", "\n\n"]),     # between equations
    "end": st.sampled_from([" ;", ";", "\t;", " \n;"]),
    "head": st.sampled_from(["", "", "* made for a test\n", "#EQUATIONS\n\n"]),
    "tail": st.sampled_from(["", "\n", "\n\n \n"]),
    "rate_sp": st.sampled_from(["", " ", "\t", "\n ", " \n"]),
    "hv": st.sampled_from(["last", "last", "first", "second"]),
})
PLAIN = {"label": "{%d.}", "sp": " ", "wrap": 0, "nl": "\n", "end": " \t;", "head": "", "tail": "\n", "rate_sp": ""}


def render(mech, rate_text=str, layout=None):
    lay = layout or mech.get("layout") or PLAIN
    names_ = mech["species"]
    out = [lay["head"]]
    count = 0
    for i, r in enumerate(mech["reactions"]):
        toks = []
        lhs = [c + names_[s] for c, s in r["lhs"]]
        if r["hv"]:
            lhs.insert({"first": 0, "second": 1}.get(lay.get("hv"), len(lhs)), "hv")
        for k, t in enumerate(lhs):
            toks += (["+"] if k else []) + [t]
        toks.append("=")
        for k, (c, s) in enumerate(r["rhs"]):
            toks += (["+"] if k else []) + [c + names_[s]]
        toks.append(":")
        line = lay["label"] % (i + 1) + " "
        for t in toks:
            line += t + lay["sp"]
            count += 1
            if lay["wrap"] and count % lay["wrap"] == 0:
                line += "\n "
        rate = rate_text(r["rate"])
        if lay["rate_sp"]:
            for op in "*/":
                rate = rate.replace("**", "\0").replace(op, lay["rate_sp"] + op + lay["rate_sp"]).replace("\0", "**")
        out.append(line + rate + lay["end"] + lay["nl"])
    return "".join(out) + lay["tail"]


def value(c):
    return 1.0 if c == "" else float(c)


def meaning(mech):
    """Per reaction: ({species: total reactant coefficient}, {species: total product coefficient})."""
    res = []
    for r in mech["reactions"]:
        lhs, rhs = {}, {}
        for c, s in r["lhs"]:
            lhs[s] = lhs.get(s, 0.0) + value(c)
        for c, s in r["rhs"]:
            rhs[s] = rhs.get(s, 0.0) + value(c)
        res.append((lhs, rhs))
    return res


def used_species(mech):
    """Species numbers that appear, in order of first appearance in the text."""
    seen = []
    for r in mech["reactions"]:
        for _, s in r["lhs"] + r["rhs"]:
            if s not in seen:
                seen.append(s)
    return seen


def mechanism(rate, names_kw=None, layout=True, **kw):
    @st.composite
    def f(draw):
        sp = draw(names(**(names_kw or {})))
        m = {"species": sp, "reactions": draw(reactions(len(sp), rate, **kw)),
             "layout": draw(LAYOUT) if layout else PLAIN}
        return m
    return f()


@st.composite
def large(draw, rate, max_species=400, max_reactions=500, min_reactions=20, hub=False, **kw):
    """A mechanism of many species and reactions in few words: templates whose species move on from one reaction to the next."""
    n = draw(st.one_of(st.integers(100, max_species), st.integers(9, max_species)))
    t = draw(st.integers(1, 6))
    return {"n": n, "k": draw(st.one_of(st.integers(max(100, min_reactions), max_reactions), st.integers(min_reactions, max_reactions))), "stride": draw(st.integers(1, 7)),
            "hub": draw(st.integers(0, n - 1) if hub else st.one_of(st.none(), st.integers(0, n - 1))), "side": draw(st.sampled_from(["lhs", "lhs", "rhs", "both"])), "stem": draw(st.sampled_from(["S", "C9", "X1D", "R_"])),
            "templates": draw(reactions(min(n, 60), rate, max_reactions=t, min_reactions=t, **kw))}


def expand(c):
    n, ts = c["n"], c["templates"]
    out = []
    for e in range(c["k"]):
        t = ts[e % len(ts)]
        shift = (e * c["stride"]) % n
        move = lambda side_: [[q, (s + shift) % n] for q, s in side_]  # noqa: E731
        lhs, rhs = move(t["lhs"]), move(t["rhs"])
        if c["hub"] is not None:  # one species that takes part in very many reactions
            left = len(lhs) > 1 and c.get("side") != "rhs"
            if left:
                lhs[0][1] = c["hub"]
            if rhs and (not left or c.get("side") == "both"):
                rhs[-1][1] = c["hub"]
        out.append({"lhs": lhs, "hv": t["hv"], "rhs": rhs, "rate": t["rate"]})
    return {"species": ["%s%dA" % (c["stem"], i) for i in range(n)], "reactions": out, "layout": PLAIN}


def cycle(v, n, grow=1e-4):
    """n values from a few, no two of them the same."""
    return [v[i % len(v)] * (1 + grow * (i // len(v))) for i in range(n)]
