"""P24: the fixed-composition solver."""
import csv

import numpy as np
from hypothesis import strategies as st

from checks import aero, chem, drv
from checks.p22 import check_saved
from pbx import drivers as D, part as T
from pbx.core import Part, fail, sut

RULE = ("gas composition, bins, core, properties, settings, particle composition and a history of states are drawn; every evaluation is compared with droplet-growth theory alone, the initial value with the "
        "composition given, and the saved pickles and CSV files with the integrator's answers; non-trivial: at least two condensing species and at least two output steps or bins")
ASSUMPTIONS = ["Assimulo and the plotting module are replaced by stand-ins; water is the last gas species"]


@st.composite
def case_(draw, steps=3):
    n = draw(st.integers(1, 6))
    c = draw(aero.aerosol(n, every=draw(st.booleans())))
    total, step = draw(drv.duration(steps))
    if draw(st.integers(0, 3)) == 0:  # integrators leave small negative amounts behind
        for e in c["ends"]:
            for i in draw(st.lists(st.integers(0, len(e) - 1), max_size=3)):
                e[i] = -1e-3 * (abs(e[i]) if i <= n else min(abs(e[i]), 1.0))
    c.update({"dense": draw(drv.DENSE), "total": total, "step": step, "start": draw(drv.START), "temp": draw(st.one_of(st.sampled_from([288.15, 298.15]), st.floats(240, 320))), "y_gas": draw(chem.values(n + 1, -3, 13)), "save": draw(st.booleans())})
    return c


def run(c, ctx, compiled):
    prog = c["prog"]
    n = prog["n"]
    with ctx.scratch() as d:
        part = T.build(prog) if compiled else aero.stub_partition(c)
        mods = D.raw_modules("f2py", None, None, None, None, part)
        inp = aero.input_dict(c)
        names = ["S%d" % i for i in range(n - 1)]
        inp.update({"species_dict": dict(enumerate(names)), "species_dict2array": dict({s: i for i, s in enumerate(names)}, H2O=n - 1), "y_gas_initial": list(c["y_gas"])})
        rec = D.Record(c["ends"], c["probes"], dense=c["dense"])
        D.run("yield", rec, mods, filename="mech", save_output=c["save"], start_time=c["start"], temp=c["temp"], RH=0.5, H2O=1e17, PInit=98000, y_cond=inp["y_cond_initial"], input_dict=inp,
              simulation_time=c["total"], batch_step=c["step"])
        if not rec.calls:
            fail("the driver never called the integrator")
        y0, want = rec.calls[0]["y0"], np.array(list(c["y_gas"]) + list(c["y_cond"]))
        if y0.shape != want.shape or not (abs(y0 - want) <= 1e-12 * want).all():
            fail("the integration starts from %s, the composition given is %s", y0, want)
        last, ok = [], True
        for k, call in enumerate(rec.calls):
            for ev in call["evals"]:
                got = aero.check_eval(c, ev, c["temp"], np.zeros(0), np.zeros(0), 1e-9, "output step %d" % k, fail)
                ok = ok and got is not None
            last.append(got)
        if c["save"] and ok:
            check_saved(c, rec, last, "mech", prog["inc"], d)
            want = {"_y_output": np.array([call["end"] for call in rec.calls]), "_size_output": np.array([s for s, _, _ in last]), "_SOA_output": np.array([[w] for _, w, _ in last]),
                    "_t_output": np.array(drv.ends_of(c["total"], c["step"])).reshape(-1, 1)}
            for k, w in want.items():
                with sut("reading mech%s.csv" % k), open("mech%s.csv" % k) as f:
                    rows = list(csv.reader(f))
                    got = np.array([[float(v) for v in r[1:]] for r in rows[1:]])
                if got.shape != w.shape or not (abs(got - w) <= 1e-5 * (np.array([[v] for _, _, v in last]) if k == "_SOA_output" else abs(w)) + 1e-300).all():
                    fail("mech%s.csv holds %s, expected %s", k, got, w)
    ctx.label("saved", c["save"])
    ctx.label("negative amounts", any(v < 0 for e in c["ends"] for v in e))
    ctx.label("several output steps", len(rec.calls) > 1)
    ctx.nontrivial = ok and len(prog["inc"]) > 2 and (len(rec.calls) > 1 or prog["bins"] > 1)


PARTS = [Part("model", lambda: case_(), lambda c, x: run(c, x, False), quick=1500, thorough=50000, budget=(60, 400)),
         Part("compiled", lambda: case_(2), lambda c, x: run(c, x, True), quick=80, thorough=3000, budget=(60, 300))]
