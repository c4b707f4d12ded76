"""P09: the Jacobian is the derivative of the tendencies."""
import numpy as np

from checks import chem
from pbx import gen, mech as M
from pbx.core import Part
from pbx.ref import Ref, close

RULE = ("a mechanism, a positive state and rate coefficients are drawn as data; the generated Jacobian is compared with the exact derivative of the "
        "mechanism's tendencies; non-trivial: a reaction has a repeated reactant, a reactant coefficient other than 1, a species on both sides, "
        "a product coefficient other than 1 or three reactants")
ASSUMPTIONS = ["states are positive: with a fractional order the derivative at zero does not exist"]


def check(case, ctx, make, what, rel=1e-11):
    case = chem.whole(case)
    m = case["mech"]
    text = M.render(m)
    with ctx.scratch():
        p = gen.Parsed(text)
        ref = Ref(m, p)
        y = np.array(chem.vec(ref, m, case["y"]))
        r = np.array(case["r"])
        want, mag = ref.jacobian(r, y)
        # The order of generation is the scripts': tendencies first, then the Jacobian.
        f = make(p)
        close(f(r, y), want, mag, rel, what, lambda i: ref.name[i], text + "y=%s r=%s" % (dict((ref.name[i], y[i]) for i in range(ref.n_sp)), list(r)))
    fl = chem.label(ctx, m)
    ctx.nontrivial = any(fl[k] for k in ("repeated reactant", "integer coefficient", "fractional reactant", "fractional product", "both sides", "three reactants"))


def st_():
    return chem.mech_state(zero=False, lo=-2, hi=6)


PARTS = [
    Part("python", st_, lambda c, x: check(c, x, gen.numba_jacobian, "Python Jacobian"), quick=2500, thorough=120000, budget=(60, 350)),
    Part("fortran", st_, lambda c, x: check(c, x, gen.fortran_jacobian, "Fortran Jacobian", rel=2e-5), quick=400, thorough=12000, budget=(70, 300)),
    Part("jit", st_, lambda c, x: check(c, x, lambda p: gen.numba_jacobian(p, True), "compiled Python Jacobian"), quick=40, thorough=400, budget=(60, 120)),
    Part("large", lambda: chem.large_state(zero=False, lo=-2, hi=6, max_species=150, max_reactions=200), lambda c, x: check(c, x, gen.numba_jacobian, "Python Jacobian"), quick=240, thorough=6000, budget=(60, 300)),
    Part("large fortran", lambda: chem.large_state(zero=False, lo=-2, hi=6, max_species=150, max_reactions=200), lambda c, x: check(c, x, gen.fortran_jacobian, "Fortran Jacobian", rel=2e-5), quick=64, thorough=1200, budget=(60, 250)),
]
