"""P08: tendencies."""
import numpy as np

from checks import chem
from pbx import gen, mech as M
from pbx.core import Part, sut
from pbx.ref import Ref, close

RULE = ("a mechanism and a vector of reaction rates are drawn as data, written, parsed and passed to the writers; the generated code is evaluated; "
        "non-trivial: a repeated species, a coefficient other than 1, a species on both sides or a bath gas occurs")


def check(case, ctx, make, what, arrays=False, rel=1e-11):
    case = chem.whole(case)
    m = case["mech"]
    text = M.render(m)
    with ctx.scratch():
        p = gen.Parsed(text)
        ref = Ref(m, p)
        r = np.array(case["r"])
        want, mag = ref.dydt(r)
        f = make(p)
        name = lambda i: ref.name[i]  # noqa: E731
        close(f(r), want, mag, rel, what, name, text + str(list(r)))
        if arrays:
            with sut("loading the saved loss/gain matrix"):
                z = np.load("loss_gain_%s.npz" % p.filename)
                from scipy.sparse import csr_matrix
                a = csr_matrix((z["data"], z["indices"], z["indptr"]), shape=tuple(z["shape"])).toarray()
            w = (ref.G - ref.L).T
            w[ref.held, :] = 0
            close(a, w, (ref.G + ref.L).T, 1e-12, "saved sparse loss/gain matrix", str, text)
    fl = chem.label(ctx, m)
    ctx.nontrivial = any(fl[k] for k in ("repeated reactant", "repeated product", "integer coefficient", "fractional product", "both sides", "bath gas"))


FAST = ["-O0"] + [f for f in gen.FFLAGS if f not in ("-O1", "-ffast-math")]


def st_():
    return chem.mech_state()


PARTS = [
    Part("python", st_, lambda c, x: check(c, x, gen.numba_dydt, "Python tendency", True), quick=2500, thorough=120000, budget=(60, 350)),
    Part("fortran", st_, lambda c, x: check(c, x, gen.fortran_dydt, "Fortran tendency", rel=3e-7), quick=400, thorough=12000, budget=(70, 300)),
    Part("jit", st_, lambda c, x: check(c, x, lambda p: gen.numba_dydt(p, True), "compiled Python tendency"), quick=40, thorough=400, budget=(60, 120)),
    Part("large", lambda: chem.large_state(max_species=1200, max_reactions=1500), lambda c, x: check(c, x, gen.numba_dydt, "Python tendency", True), quick=240, thorough=6000, budget=(60, 300)),
    Part("large fortran", lambda: chem.large_state(max_species=600, max_reactions=800), lambda c, x: check(c, x, gen.fortran_dydt, "Fortran tendency", rel=3e-7), quick=64, thorough=1200, budget=(60, 250)),
    # one species in about a thousand reactions; without optimisation, as compilers take long over such sums
    Part("hub", lambda: chem.large_state(max_species=900, max_reactions=1300, min_reactions=900, hub=True), lambda c, x: check(c, x, lambda p: gen.fortran_dydt(p, flags=FAST), "Fortran tendency", rel=3e-7),
         quick=16, thorough=200, budget=(60, 200), shrink_s=(60, 120)),
]
