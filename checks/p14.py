"""P14: output steps, clock and length of a run."""
import pickle

import numpy as np
from hypothesis import strategies as st

from checks import chem, drv
from pbx import drivers as D, part as T
from pbx.core import Part, fail, sut

RULE = ("start time, duration, output step and the integrator's answers are drawn; all four drivers run with a stand-in for Assimulo; the times at which rates are evaluated, the length of each call "
        "and the state each starts from are compared with the clock of the whole run; non-trivial: at least two output steps (for the broken durations label: not a whole number of steps)")
ASSUMPTIONS = ["the stand-in follows Assimulo's interface: simulate takes the final time, and the problem carries the initial time"]


@st.composite
def case_(draw, kind, max_steps):
    total, step = draw(drv.duration(max_steps))
    n = draw(st.integers(1, 4))
    gas = n + 1 if kind in ("aerosol", "yield") else n
    size = gas + (draw(st.integers(1, 2)) if kind in ("aerosol", "yield") else 0)
    return {"kind": kind, "total": total, "step": step, "start": draw(drv.START), "n": n, "gas": gas, "size": size, "ends": draw(drv.states(size, draw(st.integers(1, 4)))),
            "fracs": draw(st.lists(st.floats(0, 1), max_size=3)), "save": draw(st.sampled_from([False, False, True])), "dense": draw(drv.DENSE)}


def run(c, ctx):
    kind, n = c["kind"], c["n"]
    log = []
    rec = D.Record([np.array(e) for e in c["ends"]], [(f, c["ends"][0]) for f in c["fracs"]], dense=c["dense"])

    def rates(ttime, ro2, h2o, temp):
        log.append((rec.now, float(ttime)))
        return np.ones(1)

    def partition(*a, **k):
        return 0.0, np.zeros(1), np.zeros(1), np.zeros(c["size"])
    names = ["S%d" % i for i in range(n)]
    inp = {"species_dict": {i: s for i, s in enumerate(names)}, "species_dict2array": {s: i for i, s in enumerate(names)}, "species_initial_conc": {names[0]: 1.0}, "equations": 1}
    kw = {"filename": "mech", "start_time": c["start"], "save_output": c["save"], "temp": 298.0, "RH": 0.5, "H2O": 1e17, "simulation_time": c["total"], "batch_step": c["step"], "input_dict": inp}
    if kind in ("numba", "f2py"):
        mods = (D.numba_modules if kind == "numba" else D.f2py_modules)(rates, lambda y: np.ones(1), lambda r: np.zeros(n), lambda r, y: np.zeros((n, n)))
        kw["RO2_indices"] = np.array([0])
    else:
        inp.update(aero_input(c["gas"], c["size"] - c["gas"]))
        kw.update(PInit=98000, y_cond=inp["y_cond_initial"])
        mods = D.f2py_modules(rates, lambda y: np.ones(1), lambda r: np.zeros(n), None, partition)
        if kind == "aerosol":
            kw.update(RO2_indices=np.array([0]), plot_mass=False)
    times = None
    with ctx.scratch():
        res = D.run(kind, rec, mods, **kw)
        if kind in ("numba", "f2py"):
            if isinstance(res, tuple) and len(res) == 2:
                times = res[0]
        elif c["save"]:
            with sut("reading the saved times"), open("mech_t_output.pickle", "rb") as f:
                times = pickle.load(f)
    info = "%s driver, start %r, duration %r, output step %r" % (kind, c["start"], c["total"], c["step"])
    ends = drv.ends_of(c["total"], c["step"])
    tol = 1e-5 * c["step"] + 1e-12 * c["total"]
    if len(rec.calls) != len(ends):
        fail("the run took %d output steps, expected %d (%s)", len(rec.calls), len(ends), info)
    if abs(rec.elapsed - c["total"]) > tol:
        fail("the run covers %r s (%s)", rec.elapsed, info)
    at = 0.0
    for k, call in enumerate(rec.calls):
        at += call["t1"] - call["t0"]
        if abs(at - ends[k]) > tol:
            fail("output step %d ends %r s into the run, expected %r (%s)", k, at, ends[k], info)
        if k and not np.array_equal(call["y0"], rec.calls[k - 1]["end"]):
            fail("output step %d starts from %s, the one before ended at %s (%s)", k, call["y0"], rec.calls[k - 1]["end"], info)
    if times is not None:
        times = np.array(times, float).reshape(-1)
        if len(times) != len(ends) or not (abs(times - ends) <= tol).all():
            fail("the times reported are %s, the output steps end at %s (%s)", list(times), ends, info)
    if kind != "yield" and not any(e is not None for e, _ in log):
        fail("no rate was evaluated (%s)", info)
    for e, tod in log:
        if e is not None and abs(tod - (c["start"] + e)) > tol + 1e-9 * (1 + c["start"]):
            fail("%r s into the run the rates were evaluated for time of day %r, expected %r (%s)", e, tod, c["start"] + e, info)
    q = c["total"] / c["step"]
    ctx.label("whole number of steps", abs(q - round(q)) < 1e-6)
    ctx.label("broken duration", abs(q - round(q)) > 1e-6)
    ctx.label("shorter than a step", q < 0.99)
    ctx.label("past midnight", c["start"] + c["total"] > 86400)
    ctx.nontrivial = len(ends) >= 2


def aero_input(gas, per_bin):
    nc = per_bin
    d = {"num_species": gas, "num_species_condensed": nc, "y_density_array_asnumpy": np.full(nc, 1400.0), "y_mw": np.full(nc, 200.0), "sat_vp": [-6.0] * nc, "Delta_H": [0.0] * nc,
         "Latent_heat_asnumpy": np.zeros(nc), "DStar_org_asnumpy": np.ones(nc), "alpha_d_org_asnumpy": np.ones(nc), "gamma_gas_asnumpy": np.ones(nc), "Updraft": 0.0, "GRAV": 9.8, "Rv": 461.0,
         "Ra": 287.0, "R_gas": 8.3144598, "R_gas_other": 8.2057e-5, "cp": 1005, "sigma": 72e-3, "NA": 6.0221409e+23, "kb": 1.380648e-23, "Lv_water_vapour": 2.5e3, "ignore_index": [],
         "ignore_index_fortran": np.zeros(gas), "ycore_asnumpy": np.ones(1), "core_density_array_asnumpy": np.full(1, 1770.0), "y_cond_initial": [1.0] * nc, "num_bins": 1,
         "core_molw_asnumpy": np.full(1, 132.14), "core_dissociation": 3.0, "N_perbin": np.ones(1), "include_index": list(range(gas - nc, gas)), "y_gas_initial": [0.0] * gas}
    return d


def part(kind, quick, thorough):
    return Part(kind, lambda: case_(kind, 9), run, quick=quick, thorough=thorough, budget=(60, 250))


PARTS = [part("numba", 1500, 60000), part("f2py", 1200, 40000), part("aerosol", 1200, 40000), part("yield", 800, 30000),
         Part("long", lambda: st.sampled_from(["numba", "f2py", "aerosol"]).flatmap(lambda k: case_(k, 120)), run, quick=300, thorough=8000, budget=(60, 250)),
         Part("longest", lambda: st.sampled_from(["numba", "f2py", "aerosol", "yield"]).flatmap(lambda k: case_(k, 2500)), run, quick=32, thorough=1000, budget=(60, 200))]
