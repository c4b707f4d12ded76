"""P02: rewriting a mechanism without changing its reactions changes no tendency."""
import numpy as np
from hypothesis import strategies as st

from checks import chem
from pbx import gen, mech as M, rates as R, shipped
from pbx.core import Part
from pbx.ref import Ref, close

RULE = ("a mechanism and a rewriting of it (order of equations and of terms, spelling of coefficients, repetition for an integer coefficient or the reverse, "
        "layout) are drawn as data; both go through parsing, conversion, generation and evaluation, and the tendencies are compared by species name; "
        "non-trivial: the mechanism has two or more reactions and the rewriting changes the text")
SPELL = {1.0: ["", "1", "1.0"], 2.0: ["2", "2.0"], 3.0: ["3", "3.0"], 0.5: ["0.5", ".5", "0.50"], 1.5: ["1.5", "1.50"]}


@st.composite
def rewritten_side(draw, side):
    out = []
    for c, s in side:
        v = M.value(c)
        k = draw(st.integers(0, 3))
        if v in (2.0, 3.0) and k == 0:
            out += [["", s]] * int(v)
        elif v in SPELL and k <= 2:
            out.append([draw(st.sampled_from(SPELL[v])), s])
        else:
            out.append([c, s])
    # the reverse: merge equal unit terms
    if draw(st.booleans()):
        unit = [s for c, s in out if M.value(c) == 1.0]
        for s in set(unit):
            n = unit.count(s)
            if n in (2, 3):
                out = [t for t in out if not (t[1] == s and M.value(t[0]) == 1.0)] + [[str(n), s]]
    return draw(st.permutations(out))


@st.composite
def case_(draw):
    if draw(st.integers(0, 5)) == 0:
        m = draw(shipped.mechanism(20))
    else:
        m = draw(M.mechanism(R.rate(), lhs_kind="any", rhs_kind="any", max_reactions=10))
    order = draw(st.permutations(range(len(m["reactions"]))))
    rs = []
    for i in order:
        r = m["reactions"][i]
        rs.append({"lhs": [list(t) for t in draw(rewritten_side(r["lhs"]))], "rhs": [list(t) for t in draw(rewritten_side(r["rhs"]))],
                   "hv": r["hv"], "rate": r["rate"]})
    n = len(m["species"])
    return {"a": m, "b": {"species": m["species"], "reactions": rs, "layout": draw(M.LAYOUT)}, "env": draw(R.ENV),
            "y": draw(chem.values(n, -3, 4))}


def tendency(m, case, fortran):
    p = gen.Parsed(M.render(m, R.text))
    ref = Ref(m, p)
    e = case["env"]
    y = np.array(chem.vec(ref, m, case["y"]))
    args = (e["ttime"], e["ro2"], e["h2o"], e["temp"])
    if fortran:
        k = gen.fortran_rates(p)(*args)
        r = k * gen.fortran_reactants(p)(y)
        t = gen.fortran_dydt(p)(r)
    else:
        k = gen.numba_rates(p)(*args)
        with np.errstate(all="ignore"):
            r = k * gen.numba_reactants(p)(y)
        t = gen.numba_dydt(p)(r)
    with np.errstate(all="ignore"):
        _, mag = ref.dydt(r)
    return ({ref.name[i]: t[i] for i in range(ref.n_sp)}, {ref.name[i]: mag[i] for i in range(ref.n_sp)})


def run(case, ctx, fortran):
    with ctx.scratch():
        ta, mag = tendency(case["a"], case, fortran)
    with ctx.scratch():
        tb, magb = tendency(case["b"], case, fortran)
    ta_text, tb_text = M.render(case["a"], R.text), M.render(case["b"], R.text)
    names = sorted(ta)
    m = np.array([mag[n] for n in names])
    if not np.isfinite(m).all() or (m > 1e290).any():
        ctx.label("overflow skipped")
        return
    # A fractional power is evaluated from a decimal text: the same decimal value, so only the sums differ in rounding.
    close([tb.get(n, np.nan) for n in names], [ta[n] for n in names], m + np.array([magb.get(n, 0) for n in names]), 2e-5 if fortran else 1e-9,
          "tendency after rewriting", lambda i: names[i], ta_text + "rewritten:\n" + tb_text + str(case["env"]))
    ctx.nontrivial = len(case["a"]["reactions"]) >= 2 and ta_text != tb_text
    ctx.label("species numbered differently", list(M.used_species(case["a"])) != list(M.used_species(case["b"])))
    chem.label(ctx, case["a"])


PARTS = [Part("python", lambda: case_(), lambda c, x: run(c, x, False), quick=1200, thorough=60000, budget=(70, 500)),
         Part("fortran", lambda: case_(), lambda c, x: run(c, x, True), quick=80, thorough=3000, budget=(60, 300))]
