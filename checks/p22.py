"""P22: the aerosol solver's coupling."""
import os
import pickle

import numpy as np
from hypothesis import strategies as st

from checks import aero, chem, drv
from pbx import drivers as D, gen, mech as M, part as T, rates as R
from pbx.core import Part, fail, sut
from pbx.ref import Ref

RULE = ("mechanism, condensing species, bins, core, properties, settings, initial mixing ratios with and without water, particle composition and a history of states are drawn; every evaluation the stand-in integrator asks for "
        "is compared with mass action plus droplet-growth theory, and the saved files with the last evaluation of every step; part model puts the reference behind the generated modules' interfaces, part compiled "
        "uses the generated Fortran itself; non-trivial: some species both reacts and condenses and at least two output steps or bins")
ASSUMPTIONS = ["Assimulo is replaced by a stand-in; water is the last gas species and the mechanism itself does not name it, as the front end arranges"]
PPB = 2.55e10


@st.composite
def case_(draw, steps=3):
    m = draw(M.mechanism(st.one_of(R.rate(), st.sampled_from([["J", 4], ["mul", ["num", "2.0D-12"], ["var", "RO2"]], ["mul", ["num", "1.0D-19"], ["var", "H2O"]], ["num", "1.0D-3"]])),
                         layout=False, lhs_kind="int", max_reactions=6, max_lhs=2, names_kw={"max_size": 6}))
    m["species"] = [("WATER" if s == "H2O" else s) for s in m["species"]]
    n = len(M.used_species(m))
    c = draw(aero.aerosol(n))
    total, step = draw(drv.duration(steps))
    k = len(m["species"])
    init = draw(st.lists(st.tuples(st.integers(0, k - 1), st.one_of(st.floats(0.001, 500), st.floats(0.001, 500), st.sampled_from([0.0, 1e-7, 1e-5, 1e5, 1e7]))).map(list), max_size=3))
    if draw(st.integers(0, 3)) == 0:  # integrators leave small negative amounts behind
        for e in c["ends"] + [y for _, y in c["probes"]]:
            for i in draw(st.lists(st.integers(0, len(e) - 1), max_size=3)):
                e[i] = -1e-3 * (abs(e[i]) if i <= n else min(abs(e[i]), 1.0))
    c.update({"mech": m, "total": total, "step": step, "start": draw(drv.START), "temp": draw(st.one_of(st.sampled_from([288.15, 298.15]), st.floats(240, 320))), "h2o": draw(st.one_of(st.floats(1e15, 1e18), st.sampled_from([0.0, 1e10]))),
              "ro2": sorted(draw(st.sets(st.integers(0, k - 1), max_size=k))), "init": init, "water": draw(st.one_of(st.none(), st.floats(1e14, 1e18))), "save": draw(st.booleans()), "dense": draw(drv.DENSE), "plot": draw(st.integers(0, 39)) == 0})
    return c


def run(c, ctx, compiled):
    m, prog = c["mech"], c["prog"]
    text = M.render(m, R.text)
    with ctx.scratch() as d:
        p = gen.Parsed(text)
        ref = Ref(m, p)
        n = p.n_sp
        ro2 = np.array([ref.col[s] for s in c["ro2"] if s in ref.col], dtype=int)
        rates = gen.fortran_rates(p) if compiled else gen.numba_rates(p)
        tol = 2e-5 if compiled else 1e-9
        if compiled:
            mods = D.raw_modules("f2py", rates.raw, gen.fortran_reactants(p), gen.fortran_dydt(p), None, T.build(prog))
        else:
            def reactants(y):
                if np.shape(y) != (n,):
                    raise ValueError("reactants: the state has shape %s, expected %d" % (np.shape(y), n))
                return ref.reactants(y)
            mods = D.f2py_modules(rates, reactants, lambda r: ref.dydt(np.asarray(r))[0], None, aero.stub_partition(c))
        inp = aero.input_dict(c)
        index = dict(p.index)
        index["".join(["H", "2", "O"])] = n
        init = {m["species"][s]: v for s, v in c["init"] if s in ref.col}
        conc = dict(init)
        if c["water"] is not None:
            conc["".join(["H2", "O"])] = c["water"]
        inp.update({"species_dict": p.species_dict, "species_dict2array": index, "species_initial_conc": conc, "equations": p.n_eq})
        rec = D.Record(c["ends"], c["probes"], dense=c["dense"])
        D.run("aerosol", rec, mods, filename="mech", save_output=c["save"], start_time=c["start"], temp=c["temp"], RH=0.5, RO2_indices=ro2, H2O=c["h2o"], PInit=98000, y_cond=inp["y_cond_initial"],
              input_dict=inp, simulation_time=c["total"], batch_step=c["step"], plot_mass=c["plot"])
        if not rec.calls:
            fail("the driver never called the integrator")
        y0 = rec.calls[0]["y0"]
        want = np.zeros(c["size"])
        for s, v in init.items():
            want[p.index[s]] = v * PPB
        if c["water"] is not None:
            want[n] = c["water"]
        want[prog["n"]:] = c["y_cond"]
        if y0.shape != want.shape or not (abs(y0 - want) <= 1e-12 * want).all():
            i = int(np.argmax(~(abs(y0 - want) <= 1e-12 * want))) if y0.shape == want.shape else -1
            fail("the integration starts with entry %d at %r, expected %r (species %s, initially %s)", i, y0[i], want[i], index, conc)
        last, ok = [], True
        for k, call in enumerate(rec.calls):
            for ev in call["evals"]:
                y, tod = ev["y"], c["start"] + ev["elapsed"]
                info = "output step %d, time of day %r\n%s" % (k, tod, text)
                with np.errstate(all="ignore"):
                    args = (float(np.sum(y[ro2])), c["h2o"], c["temp"])
                    kc = np.array(rates(tod, *args))
                    near = np.array(rates(tod * (1 + 1e-14) + 1e-9, *args))
                    r = ref.reactants(y[:n])
                    ct, cm = ref.dydt(kc * r)
                    cm = tol * cm + 10 * ref.dydt(abs(near - kc) * r)[1]
                got = aero.check_eval(c, ev, c["temp"], ct, cm, tol, info, fail)
                if got is None:
                    ctx.label("overflow skipped")
                    ok = False
            last.append(got)
        if c["save"] and ok:
            check_saved(c, rec, last, "mech", prog["inc"], d)
    ctx.label("several output steps", len(rec.calls) > 1)
    ctx.label("negative amounts", any(v < 0 for e in c["ends"] for v in e))
    ctx.label("water given", c["water"] is not None)
    ctx.label("saved", c["save"])
    ctx.label("reacts and condenses", bool(set(prog["inc"][:-1]) - set(np.flatnonzero(ref.held))))
    ctx.nontrivial = ok and bool(set(prog["inc"][:-1]) - set(np.flatnonzero(ref.held))) and (len(rec.calls) > 1 or prog["bins"] > 1)


def check_saved(c, rec, last, filename, inc, d):
    out = {}
    for k in ("_y_output", "_t_output", "_SOA_output", "_size_output", "include_index"):
        f = filename + k + ".pickle"
        if not os.path.exists(f):
            fail("no file %s was saved, there are %s", f, sorted(os.listdir(d)))
        with sut("reading " + f), open(f, "rb") as h:
            out[k] = pickle.load(h)
    steps = len(rec.calls)
    y = np.array(out["_y_output"], float)
    want = np.array([call["end"] for call in rec.calls])
    if y.shape != want.shape or not np.array_equal(y, want):
        fail("saved states %s are not the integrator's %s", y, want)
    ends = drv.ends_of(c["total"], c["step"])
    t = np.array(out["_t_output"], float).reshape(-1)
    if len(t) != len(ends) or not (abs(t - ends) <= 1e-5 * c["step"] + 1e-12 * c["total"]).all():
        fail("saved times %s, expected %s", t, ends)
    mass, size = np.array(out["_SOA_output"], float), np.array(out["_size_output"], float)
    if mass.shape != (steps, 1) or size.shape != (steps, c["prog"]["bins"]):
        fail("saved organic mass has shape %s, sizes %s", mass.shape, size.shape)
    for k, (s, w, scale) in enumerate(last):
        if not abs(mass[k, 0] - w) <= 1e-6 * scale + 1e-300:
            fail("saved organic mass of step %d is %r, the state last evaluated has %r", k, mass[k, 0], w)
        if not (abs(size[k] - s) <= 1e-6 * s).all():
            fail("saved sizes of step %d are %s, the state last evaluated has %s", k, size[k], s)
    if sorted(int(i) for i in out["include_index"]) != sorted(inc):
        fail("saved list of condensing species %s, expected %s", out["include_index"], inc)


PARTS = [Part("model", lambda: case_(), lambda c, x: run(c, x, False), quick=1500, thorough=50000, budget=(90, 500)),
         Part("compiled", lambda: case_(2), lambda c, x: run(c, x, True), quick=80, thorough=3000, budget=(90, 400))]
