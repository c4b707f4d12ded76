"""Shared strategies of the checks on generated chemistry."""
from hypothesis import strategies as st

from pbx import mech as M, shipped

TRIVIAL_RATE = st.sampled_from(["1.0D-12", "KDEC", "J(4)"])


def mech(lhs="any", rhs="wide", **kw):
    kw.setdefault("max_reactions", 14)
    return M.mechanism(TRIVIAL_RATE, layout=False, lhs_kind=lhs, rhs_kind=rhs, **kw)


def values(n, lo=-3, hi=12, zero=True):
    """n positive numbers over many magnitudes, now and then exactly zero or one."""
    pos = st.tuples(st.floats(1, 9.99), st.integers(lo, hi)).map(lambda t: round(t[0], 3) * 10.0 ** t[1])
    return st.lists(st.one_of(pos, pos, pos, st.sampled_from([0.0, 1.0] if zero else [1.0])), min_size=n, max_size=n)


@st.composite
def mech_state(draw, lhs="any", rhs="wide", zero=True, rvals=True, lo=-3, hi=12, **kw):
    m = draw(shipped.mechanism(25, layout=False) if draw(st.integers(0, 7)) == 0 else mech(lhs, rhs, **kw))
    n = len(m["species"])
    c = {"mech": m, "y": draw(values(n, lo, hi, zero))}
    if rvals:
        c["r"] = draw(values(len(m["reactions"]), -6, 9))
    return c


def label(ctx, m):
    rs = m["reactions"]
    f = {
        "repeated reactant": any(len({s for _, s in r["lhs"]}) < len(r["lhs"]) for r in rs),
        "repeated product": any(len({s for _, s in r["rhs"]}) < len(r["rhs"]) for r in rs),
        "integer coefficient": any(c and float(c) == int(float(c)) and float(c) != 1 for r in rs for c, _ in r["lhs"] + r["rhs"]),
        "fractional reactant": any(c and float(c) != int(float(c)) for r in rs for c, _ in r["lhs"]),
        "fractional product": any(c and float(c) != int(float(c)) for r in rs for c, _ in r["rhs"]),
        "both sides": any({s for _, s in r["lhs"]} & {s for _, s in r["rhs"]} for r in rs),
        "bath gas": any(m["species"][s] in M.EXCLUDED for s in M.used_species(m)),
        "hv": any(r["hv"] for r in rs),
        "no products": any(not r["rhs"] for r in rs),
        "three reactants": any(len({s for _, s in r["lhs"]}) >= 3 for r in rs),
    }
    for k, v in f.items():
        ctx.label(k, v)
    return f


def vec(ref, m, vals):
    """Values by species number -> values by the parser's index."""
    out = [0.0] * ref.n_sp
    for s, c in ref.col.items():
        out[c] = vals[s]
    return out


@st.composite
def large_state(draw, lhs="any", rhs="wide", zero=True, lo=-3, hi=12, **kw):
    c = {"large": draw(M.large(TRIVIAL_RATE, lhs_kind=lhs, rhs_kind=rhs, **kw)), "y": draw(values(5, lo, hi, zero)), "r": draw(values(5, -6, 9))}
    return c


def whole(c):
    """The case with its mechanism written out."""
    if "large" not in c:
        return c
    m = M.expand(c["large"])
    return {"mech": m, "y": M.cycle(c["y"], len(m["species"])), "r": M.cycle(c["r"], len(m["reactions"]))}
