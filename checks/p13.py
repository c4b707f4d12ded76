"""P13: initial values and reported trajectories of gas-phase runs."""
import csv
import os

import numpy as np
from hypothesis import strategies as st

from checks import chem, drv
from pbx import drivers as D, mech as M
from pbx.core import Part, fail, sut

RULE = ("species numbering, mixing ratios for any subset of the species, output steps, the integrator's answers and the file name are drawn; the initial value handed over, the returned arrays and the saved "
        "files are compared with them; non-trivial: at least two species, one named initially and one not, and at least two output steps")
ASSUMPTIONS = ["the integrator's answer is what it says it is: the stand-in names the state at the end of every step and different states in between"]
PPB = 2.55e10


@st.composite
def case_(draw):
    total, step = draw(drv.duration(8))
    names = draw(M.names(1, 10, special=False, required=draw(st.sampled_from([(), (), ("APINENE", "PINONIC")]))))
    n = len(names)
    ratio = st.one_of(st.floats(0.001, 1000), st.just(0.0), st.integers(0, 100), st.sampled_from([18.0, 30.0, 1e-6, 1e5, 4e5, 1e7, 1e-12, 2.5e8]))
    init = draw(st.dictionaries(st.integers(0, n - 1).map(str), ratio, max_size=n))
    return {"names": names, "order": draw(st.permutations(list(range(n)))), "init": init, "total": total, "step": step, "start": draw(drv.START),
            "ends": draw(drv.states(n, draw(st.integers(1, 4)), -6, 13)), "probe": draw(chem.values(n, -6, 13)), "save": draw(st.booleans()), "dense": draw(drv.DENSE), "file": draw(st.sampled_from(["MCM_APINENE", "mech", "a.b", "run 2"]))}


def run(c, ctx, kind):
    names, n = c["names"], len(c["names"])
    index = {s: c["order"][i] for i, s in enumerate(names)}
    rec = D.Record(c["ends"], [(0.3, c["probe"]), (0.9, c["probe"])], dense=c["dense"])
    mods = (D.numba_modules if kind == "numba" else D.f2py_modules)(lambda *a: np.ones(1), lambda y: np.ones(1), lambda r: np.zeros(n), lambda r, y: np.zeros((n, n)))
    init = {names[int(k)]: v for k, v in c["init"].items()}
    inp = {"species_dict": {i: s for s, i in index.items()}, "species_dict2array": dict(index), "species_initial_conc": dict(init), "equations": 1}
    ends = drv.ends_of(c["total"], c["step"])
    tol = 1e-5 * c["step"] + 1e-12 * c["total"]
    with ctx.scratch() as d:
        res = D.run(kind, rec, mods, filename=c["file"], start_time=c["start"], save_output=c["save"], temp=298.0, RH=0.5, RO2_indices=np.array([], dtype=int), H2O=1e17, input_dict=inp,
                    simulation_time=c["total"], batch_step=c["step"])
        if not rec.calls:
            fail("the driver never called the integrator")
        info = "%s driver, species %s, initially %s ppb, duration %r, output step %r" % (kind, index, init, c["total"], c["step"])
        y0 = rec.calls[0]["y0"]
        for s, i in index.items():
            want = init.get(s, 0) * PPB
            if not abs(y0[i] - want) <= 1e-12 * want:
                fail("%s starts at %r, expected %r (%s)", s, y0[i], want, info)
        want = np.array([call["end"] for call in rec.calls])
        if len(want) != len(ends):
            fail("%d output steps, expected %d (%s)", len(want), len(ends), info)

        def matrix(got, what):
            got = np.asarray(got, float)
            if got.shape != want.shape:
                fail("%s has shape %s, expected %s (%s)", what, got.shape, want.shape, info)
            if not np.array_equal(got, want):
                k, i = (int(v) for v in np.argwhere(got != want)[0])
                fail("%s, step %d, column %d: %r, the integrator answered %r (%s)", what, k, i, got[k, i], want[k, i], info)
        if kind == "numba" or res is not None:
            if not (isinstance(res, tuple) and len(res) == 2):
                fail("run_simulation returned %r", type(res))
            t, y = res
            matrix(y, "returned matrix")
            if len(t) != len(ends) or not all(abs(a - b) <= tol for a, b in zip(t, ends)):
                fail("returned times %s, expected %s (%s)", list(t), ends, info)
        if c["save"]:
            for f in ("_output.npy", "_output_matrix.csv", "_output_names.csv"):
                if not os.path.exists(c["file"] + f):
                    fail("no file %s was saved, there are %s", c["file"] + f, sorted(os.listdir(d)))
            with sut("reading the saved output"):
                matrix(np.load(c["file"] + "_output.npy"), "saved .npy")
                with open(c["file"] + "_output_matrix.csv") as f:
                    rows = list(csv.reader(f))
                cols = [int(v) for v in rows[0][1:]]
                saved = np.full((len(rows) - 1, len(cols)), np.nan)
                for k, r in enumerate(rows[1:]):
                    saved[k, cols] = [float(v) for v in r[1:]]
                matrix(saved, "saved matrix .csv")
                with open(c["file"] + "_output_names.csv") as f:
                    got = {r[0]: int(r[1]) for r in csv.reader(f) if r}
            if got != index:
                fail("saved names %s, expected %s", got, index)
    ctx.label("saved", c["save"])
    ctx.label("over 50 internal steps", c["dense"] > 50)
    ctx.label("zero mixing ratio", any(v == 0 for v in init.values()))
    ctx.label("plotted species", "APINENE" in names and "PINONIC" in names)
    ctx.nontrivial = n >= 2 and 0 < len(init) < n and len(ends) >= 2


PARTS = [Part("python", case_, lambda c, x: run(c, x, "numba"), quick=2000, thorough=60000, budget=(60, 400)),
         Part("fortran", case_, lambda c, x: run(c, x, "f2py"), quick=1500, thorough=50000, budget=(60, 400))]
