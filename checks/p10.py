"""P10: conserved sums and quasi-positivity."""
import numpy as np
from hypothesis import strategies as st

from checks import chem
from pbx import gen, mech as M, rates as R
from pbx.core import Part, fail
from pbx.ref import Ref

RULE = ("species get weights 1, 2 or 4 and every reaction is drawn with products that carry exactly the weight of its reactants; rates, reactant products and "
        "tendencies of the generated code are composed at a drawn state with some species absent; the weighted sum of the tendencies must vanish within rounding and "
        "no absent species may fall; non-trivial: at least two reactions have products and the total turnover is not zero")
ASSUMPTIONS = ["no bath gas (AIR, H2O, O2) takes part: those are held constant by design"]


@st.composite
def case_(draw):
    sp = draw(M.names(min_size=2, special=False))
    n = len(sp)
    w = draw(st.lists(st.sampled_from([1, 2, 4]), min_size=n, max_size=n))
    rs = []
    for _ in range(draw(st.integers(1, 10))):
        lhs = [[c, s] for c, s in draw(M.side(n, "any", 1, 3)) if c not in ("0.65",)] or [["", 0]]
        total = sum(M.value(c) * w[s] for c, s in lhs)
        prods = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4))
        f = 1.0
        rhs = []
        for i, s in enumerate(prods):
            share = f if i == len(prods) - 1 else f * draw(st.sampled_from([0.5, 0.5, 0.99, 0.01, 0.3, 0.875]))
            f -= share
            c = share * total / w[s]
            rhs.append(["" if c == 1 else np.format_float_positional(c, trim="0") if draw(st.booleans()) or c != int(c) else str(int(c)), s])
        rs.append({"lhs": lhs, "rhs": [list(t) for t in draw(st.permutations(rhs))], "hv": draw(st.integers(0, 6)) == 0, "rate": draw(R.rate(fns=()))})
    return {"mech": {"species": sp, "reactions": rs, "layout": M.PLAIN}, "w": w, "env": draw(R.ENV), "y": draw(chem.values(n, -3, 4))}


def run(case, ctx, fortran):
    m = case["mech"]
    text = M.render(m, R.text)
    with ctx.scratch():
        p = gen.Parsed(text)
        ref = Ref(m, p)
        y = np.array(chem.vec(ref, m, case["y"]))
        w = np.array(chem.vec(ref, m, case["w"]))
        e = case["env"]
        args = (e["ttime"], e["ro2"], e["h2o"], e["temp"])
        with np.errstate(all="ignore"):
            k = (gen.fortran_rates if fortran else gen.numba_rates)(p)(*args)
            r = k * (gen.fortran_reactants if fortran else gen.numba_reactants)(p)(y)
            t = (gen.fortran_dydt if fortran else gen.numba_dydt)(p)(r)
    if not np.isfinite(r).all() or (r > 1e280).any():
        if np.isfinite(ref.reactants(y)).all() and not np.isfinite(k).all():
            fail("rate coefficients %s at %s\n%s", list(k), e, text)
        ctx.label("overflow skipped")
        return
    _, mag = ref.dydt(r)
    total = float(w @ mag)
    drift = float(w @ t)
    if not abs(drift) <= (1e-6 if fortran else 1e-11) * total:
        fail("the conserved sum changes at %r per second against a turnover of %r\nweights %s\n%s", drift, total,
             {ref.name[i]: w[i] for i in range(ref.n_sp)}, text)
    for i in np.flatnonzero(y == 0):
        if t[i] < 0:
            fail("%s is absent and has tendency %r at %s\n%s", ref.name[i], float(t[i]), dict(zip(map(ref.name.get, range(ref.n_sp)), y)), text)
    ctx.label("absent species", bool((y == 0).any()))
    ctx.label("no turnover", total == 0)
    chem.label(ctx, m)
    ctx.nontrivial = total > 0 and len(m["reactions"]) >= 2


PARTS = [Part("python", lambda: case_(), lambda c, x: run(c, x, False), quick=1500, thorough=80000, budget=(70, 500)),
         Part("fortran", lambda: case_(), lambda c, x: run(c, x, True), quick=120, thorough=4000, budget=(60, 350))]
