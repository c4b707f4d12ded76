"""P07: reactant products."""
import numpy as np

from checks import chem
from pbx import gen, mech as M
from pbx.core import Part, fail, sut
from pbx.ref import Ref, close

RULE = ("a mechanism and a state are drawn as data, written, parsed and passed to the writers; the generated code is evaluated at the state; "
        "non-trivial: a reaction has at least two distinct reactants, a repeated reactant or a reactant coefficient other than 1")


def check(case, ctx, make, what, arrays=False, single=False):
    case = chem.whole(case)
    m = case["mech"]
    text = M.render(m)
    with ctx.scratch():
        p = gen.Parsed(text)
        ref = Ref(m, p)
        y = np.array(chem.vec(ref, m, case["y"]))
        want = ref.reactants(y)
        f = make(p)
        got = f(y)
        mag = want
        if single:  # a fractional power is a single-precision literal in Fortran
            with np.errstate(divide="ignore"):
                ly = np.where(y > 0, np.abs(np.log(y)), 0.0)
            mag = want * (1 + 2e-7 / 1e-11 * ((ref.L * (ref.L % 1 != 0)) @ ly))
        close(got, want, mag, 1e-11, what, lambda e: "equation %d" % (e + 1), text + str(dict(zip(map(ref.name.get, range(ref.n_sp)), y))))
        if arrays:
            saved(p, ref, text)
    fl = chem.label(ctx, m)
    ctx.nontrivial = fl["repeated reactant"] or fl["integer coefficient"] or fl["fractional reactant"] or any(len(r["lhs"]) > 1 for r in m["reactions"])


def saved(p, ref, text):
    with sut("loading the saved reactant indices"):
        z = np.load("reactants_indices_sparse_%s.npz" % p.filename)
        from scipy.sparse import csr_matrix
        a = csr_matrix((z["data"], z["indices"], z["indptr"]), shape=tuple(z["shape"])).toarray()
        idx = np.load(p.filename + "_reactant_indices.npy", allow_pickle=True)
        sto = np.load(p.filename + "_reactants_stoich_indices.npy", allow_pickle=True)
    close(a, ref.L, ref.L, 1e-12, "saved sparse reactant matrix", str, text)
    for e in range(ref.n_eq):
        d = {}
        for i, c in zip(np.atleast_1d(idx[e]), np.atleast_1d(sto[e])):
            if c:
                d[int(i)] = d.get(int(i), 0.0) + float(c)
        w = {int(i): ref.L[e, i] for i in np.flatnonzero(ref.L[e])}
        if d.keys() != w.keys() or any(abs(d[k] - w[k]) > 1e-12 * w[k] for k in w):
            fail("saved reactant indices of equation %d: %s, expected %s\n%s", e + 1, d, w, text)


def st_():
    return chem.mech_state(rvals=False)


PARTS = [
    Part("python", st_, lambda c, x: check(c, x, gen.numba_reactants, "Python reactant product", True), quick=2500, thorough=120000, budget=(60, 350)),
    Part("fortran", st_, lambda c, x: check(c, x, gen.fortran_reactants, "Fortran reactant product", single=True), quick=400, thorough=12000, budget=(70, 300)),
    Part("jit", st_, lambda c, x: check(c, x, lambda p: gen.numba_reactants(p, True), "compiled Python reactant product"), quick=40, thorough=400,
         budget=(60, 120)),
    Part("large", lambda: chem.large_state(max_species=1200, max_reactions=1500), lambda c, x: check(c, x, gen.numba_reactants, "Python reactant product", True), quick=240, thorough=6000, budget=(60, 300)),
    Part("large fortran", lambda: chem.large_state(max_species=600, max_reactions=800), lambda c, x: check(c, x, gen.fortran_reactants, "Fortran reactant product", single=True), quick=64, thorough=1200, budget=(60, 250)),
]
