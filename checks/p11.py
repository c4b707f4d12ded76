"""P11: OpenMP code gives the serial results."""
import contextlib
import ctypes
import multiprocessing
import os

import numpy as np
from hypothesis import strategies as st

from checks import chem
from checks.part import prepared
from pbx import gen, mech as M, part as T, rates as R
from pbx.core import Part, fail
from pbx.ref import Ref, close

RULE = ("a mechanism, a state, a core count seen by the generators (1-256) and a run-time thread count (1-8) are drawn; the four Fortran files are generated with OpenMP and "
        "compiled with it, and their results are compared with the reference (tendencies, Jacobian, reactant products, rates); the threaded evaluation is repeated; "
        "non-trivial: more than two cores, so that the code is split into sections. Part bins: partitioning programs with 2-96 size bins, both variants, three optimisation levels, 2-8 threads, each "
        "evaluated 40-150 times against a reference of single bins; non-trivial: more bins than threads and a flux that is not zero")
_gomp = []


@contextlib.contextmanager
def cores(n):
    old = multiprocessing.cpu_count, os.cpu_count
    multiprocessing.cpu_count = os.cpu_count = lambda: n
    try:
        yield
    finally:
        multiprocessing.cpu_count, os.cpu_count = old


@st.composite
def case_(draw, big=False):
    if big:
        b = draw(M.large(R.rate(), lhs_kind="any", rhs_kind="any", max_species=120, max_reactions=200, min_reactions=30))
        return {"large": b, "cores": draw(st.one_of(st.integers(1, 64), st.integers(2, 256))), "threads": draw(st.integers(2, 8)), "y": draw(chem.values(5, -2, 4, zero=False)), "r": draw(chem.values(5, -6, 6)), "env": draw(R.ENV),
                "which": draw(st.sampled_from(["rates", "reactants", "dydt", "jacobian"]))}
    m = draw(M.mechanism(R.rate(), layout=False, lhs_kind="any", rhs_kind="any", max_reactions=24))
    return {"mech": m, "cores": draw(st.one_of(st.integers(1, 32), st.integers(2, 12), st.integers(1, 256))), "threads": draw(st.integers(1, 8)),
            "y": draw(chem.values(len(m["species"]), -2, 4, zero=False)), "r": draw(chem.values(len(m["reactions"]), -6, 6)), "env": draw(R.ENV),
            "which": draw(st.sampled_from(["rates", "reactants", "dydt", "jacobian"]))}


def run(case, ctx):
    case = dict(case, **chem.whole(case))
    m = case["mech"]
    text = M.render(m, R.text)
    with ctx.scratch():
        p = gen.Parsed(text)
        ref = Ref(m, p)
        y = np.array(chem.vec(ref, m, case["y"]))
        r = np.array(case["r"])
        which, e = case["which"], case["env"]
        with cores(case["cores"]):
            f = {"rates": gen.fortran_rates, "reactants": gen.fortran_reactants, "dydt": gen.fortran_dydt, "jacobian": gen.fortran_jacobian}[which](p, True)
        if not _gomp:
            _gomp.append(ctypes.CDLL("libgomp.so.1"))
        _gomp[0].omp_set_num_threads(case["threads"])
        about = "with %d cores, %d threads\n%s" % (case["cores"], case["threads"], text)
        for rep in range(4):
            if which == "rates":
                vals, cx = R.env_values(e["temp"], e["ro2"], e["h2o"], e["ttime"], True)
                if R.dusk(cx, R.U_SINGLE):
                    break
                got = f(e["ttime"], e["ro2"], e["h2o"], e["temp"])
                for i, q in enumerate(m["reactions"]):
                    v = R.value(q["rate"], vals)
                    if not R.agrees(float(got[i]), v, R.U_SINGLE):
                        fail("OpenMP rate of equation %d at %s: got %r, expected %r %s", i + 1, e, float(got[i]), v.v, about)
            elif which == "reactants":
                want = ref.reactants(y)
                mag = want * (1 + 2e-2 * ((ref.L * (ref.L % 1 != 0)) @ np.abs(np.log(y))))
                close(f(y), want, mag, 1e-5, "OpenMP reactant product", str, about)
            elif which == "dydt":
                want, mag = ref.dydt(r)
                close(f(r), want, mag, 3e-7, "OpenMP tendency", lambda i: ref.name[i], about)
            else:
                want, mag = ref.jacobian(r, y)
                close(f(r, y), want, mag, 2e-5, "OpenMP Jacobian", lambda i: ref.name[i], about)
    ctx.label(which)
    ctx.label("more cores than equations", case["cores"] > ref.n_eq)
    ctx.label("more cores than species", case["cores"] > ref.n_sp)
    ctx.nontrivial = case["cores"] > 2


# ------------------------------------------------------------------------------------- size bins in parallel
@st.composite
def bins_(draw):
    full = draw(st.booleans())
    prog = draw(T.program(1, 3))
    prog["bins"] = draw(st.one_of(st.integers(24, 96), st.integers(2, 12)))
    if full:
        prog = {"n": prog["n"], "inc": list(range(prog["n"])), "bins": prog["bins"], "mask": [i not in prog["inc"] for i in range(prog["n"])]}
    return {"prog": prog, "state": draw(T.state(prog)), "threads": draw(st.sampled_from([8, 8, 4, 3, 2])), "opt": draw(st.sampled_from(["-O3", "-O1", "-O0"]))}


def run_bins(case, ctx):
    prog = case["prog"]
    n, nc, nb = prog["n"], len(prog["inc"]), prog["bins"]
    a, mask = prepared(prog, case["state"])
    with np.errstate(all="ignore"):
        flux, scale, size, aw, mass = T.theory(prog, a, a["C_g_i_t"], mask)
    if not np.isfinite(scale).all():
        ctx.label("overflow skipped")
        return
    gas, gscale = np.zeros(n), np.zeros(n)
    gas[prog["inc"]], gscale[prog["inc"]] = -flux.sum(0), scale.sum(0)
    want, tol = np.concatenate([gas, flux.ravel()]), 1e-6 * np.concatenate([gscale, scale.ravel()]) + 1e-300
    if not _gomp:
        _gomp.append(ctypes.CDLL("libgomp.so.1"))
    with ctx.scratch():
        f = T.build(prog, "mask" in prog, [case["opt"]] + [x for x in gen.FFLAGS if not x.startswith("-O")])
        _gomp[0].omp_set_num_threads(case["threads"])
        reps = 150 if nb >= 24 else 40
        for rep in range(reps):
            m, gaw, gs, dy = T.call(f, a)
            bad = ~(abs(dy - want) <= tol)
            if bad.any() or not (abs(gs - size) <= 1e-6 * size).all() or not (abs(gaw - aw) <= 1e-9 * aw + 1e-300).all() or not abs(m - mass) <= 1e-9 * mass + 1e-300:
                i = int(np.argmax(bad)) if bad.any() else None
                fail("evaluation %d of %d of the partitioning code with %d bins on %d threads (%s) differs from the single-bin theory: tendencies %s, sizes off %d, water activities off %d, mass %r against %r",
                     rep + 1, reps, nb, case["threads"], case["opt"], "agree" if i is None else "%d is %r, expected %r" % (i, dy[i], want[i]), int((abs(gs - size) > 1e-6 * size).sum()),
                     int((abs(gaw - aw) > 1e-9 * aw + 1e-300).sum()), m, mass)
    ctx.label("bins in parallel, %s" % case["opt"])
    ctx.nontrivial = nb > case["threads"] and bool((flux != 0).any())


PARTS = [Part("bins", lambda: bins_(), run_bins, quick=60, thorough=2000, workers=1, budget=(90, 400)),
         Part("large", lambda: case_(True), run, quick=48, thorough=1500, budget=(60, 300)),
         Part("openmp", lambda: case_(), run, quick=400, thorough=12000, budget=(110, 800))]
