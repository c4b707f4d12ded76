"""P01: extract_mechanism returns exactly the mechanism the equation file states."""
import re

from hypothesis import strategies as st

from pbx import gen, mech as M, rates as R, shipped
from pbx.core import Part, fail

RULE = ("a mechanism is drawn as data (species, coefficients, reactions, rate trees, text layout), written as a KPP file and "
        "parsed; a second part draws equations of the shipped mechanisms instead; non-trivial: at least two reactions and at least one of: a coefficient other than 1, a species repeated on "
        "one side, a name ending in a digit behind a coefficient, hv, no products, an equation over several lines")
ASSUMPTIONS = ["names are letters, digits and underscores, start with a letter and differ in more than case; coefficients are written directly before the name",
               "equations are numbered consecutively from 1"]


def run(case, ctx):
    m = M.expand(case) if "templates" in case else case
    text = M.render(m, R.text)
    with ctx.scratch():
        p = gen.Parsed(text)
    want = M.meaning(m)
    if p.n_eq != len(want):
        fail("the file has %d equations, max_equations is %r\n%s", len(want), p.n_eq, text)
    names = [m["species"][s] for s in M.used_species(m)]
    got = list(p.species_dict.values())
    if sorted(got) != sorted(names):
        fail("species in the file: %s, parsed: %s\n%s", sorted(names), sorted(got), text)
    n = len(names)
    if sorted(p.species_dict.keys()) != list(range(n)) or dict(p.index) != {v: k for k, v in p.species_dict.items()}:
        fail("species_dict %s and species_dict2array %s are not inverse numberings 0..%d", dict(p.species_dict), dict(p.index), n - 1)
    for side, d, which in (("reactants", p.loss_dict, 0), ("products", p.gain_dict, 1)):
        have = {}
        for sp, eqs in d.items():
            for e, c in eqs.items():
                have[(e, sp)] = float(c)
        need = {(e, m["species"][s]): c for e, w in enumerate(want) for s, c in w[which].items()}
        if set(have) != set(need) or any(abs(have[k] - need[k]) > 1e-12 * need[k] for k in need):
            bad = [(k, need.get(k), have.get(k)) for k in sorted(set(have) | set(need)) if need.get(k) != have.get(k)]
            fail("%s: (equation, species), coefficient in the file, parsed: %s\n%s", side, bad[:6], text)
    for e, w in enumerate(want):
        listed = {}
        for k, sp in p.rate_dict_reactants[e].items():
            listed[sp] = listed.get(sp, 0.0) + float(p.stoich_dict[e][k])
        need = {m["species"][s]: c for s, c in w[0].items()}
        if set(listed) - {"hv"} != set(need) or any(abs(listed[s] - c) > 1e-12 * c for s, c in need.items()):
            fail("equation %d: reactants with coefficients %s, rate_dict_reactants with stoich_dict says %s\n%s", e + 1, need, listed, text)
        t = re.sub(r"\s", "", R.text(m["reactions"][e]["rate"]))
        if p.rate_dict[e] != t:
            fail("equation %d: rate in the file %r, parsed %r", e + 1, t, p.rate_dict[e])
    if set(p.rate_dict) != set(range(len(want))):
        fail("rate_dict has keys %s for %d equations", sorted(p.rate_dict), len(want))
    rs = m["reactions"]
    coef = any(c for r in rs for c, _ in r["lhs"] + r["rhs"])
    rep = any(len({s for _, s in side_}) < len(side_) for r in rs for side_ in (r["lhs"], r["rhs"]))
    digits = any(c and m["species"][s][-1].isdigit() for r in rs for c, s in r["lhs"] + r["rhs"])
    hv = any(r["hv"] for r in rs)
    none = any(not r["rhs"] for r in rs)
    both = any({s for _, s in r["lhs"]} & {s for _, s in r["rhs"]} for r in rs)
    wrap = bool(m["layout"]["wrap"])
    for k, v in (("coefficient", coef), ("repeated species", rep), ("coefficient before a name with digits", digits), ("hv", hv),
                 ("no products", none), ("several lines", wrap), ("species on both sides", both)):
        ctx.label(k, v)
    ctx.nontrivial = len(rs) >= 2 and (coef or rep or digits or hv or none or wrap)


def strategy():
    return M.mechanism(R.rate(), lhs_kind="wide", rhs_kind="wide")


PARTS = [Part("parse", strategy, run, quick=4000, thorough=200000, budget=(60, 600)),
         Part("large", lambda: M.large(R.rate(), lhs_kind="wide", rhs_kind="wide", max_species=1200, max_reactions=1500), run, quick=120, thorough=4000, budget=(40, 200)),
         Part("shipped", lambda: shipped.mechanism(60), run, quick=400, thorough=20000, budget=(40, 200))]
