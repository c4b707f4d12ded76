"""P28: a run as a whole is the solution of the mechanism over the time asked for."""
import pickle
from functools import lru_cache

import numpy as np
from hypothesis import strategies as st

from checks import aero, drv
from pbx import drivers as D, gen, integrate as I, mech as M, part as T, rates as R
from pbx.core import Part, fail, sut
from pbx.ref import Ref

RULE = ("mechanism, rate expressions, initial mixing ratios, RO2 members, conditions, start time, duration and output step are drawn; the driver runs from generated code to the end with a working stiff integrator behind "
        "Assimulo's interface that honours the options the driver sets; the reported concentrations are compared with an independent, far more precise solution of the drawn reactions, within a multiple of how far that solution moves "
        "when every rate and initial value moves by 1e-5; non-trivial: at least two species change by more than 1 % and at least two reactions run")
ASSUMPTIONS = ["Assimulo is replaced by a stand-in around SciPy's BDF method; mechanisms whose solution runs away or is too sensitive are set aside"]
PPB = 2.55e10


@st.composite
def rate(draw, order):
    """Speeds of ordinary atmospheric chemistry for the number of reactants."""
    mant = "%d.%02d" % (draw(st.integers(1, 9)), draw(st.integers(0, 99)))
    kind = draw(st.integers(0, 6))
    temp = draw(st.sampled_from([None, None, ["fn", "EXP", ["div", ["num", "600"], ["var", "TEMP"]]], ["fn", "EXP", ["neg", ["div", ["num", "450.0"], ["var", "TEMP"]]]],
                                 ["pow", ["paren", ["div", ["var", "TEMP"], ["num", "300"]]], "(-2.6)"], ["pow", ["paren", ["div", ["var", "TEMP"], ["num", "300"]]], "1.5"]]))
    tail = [temp] if temp else []
    if order == 1:
        if kind <= 1:
            return ["J", draw(st.sampled_from([1, 3, 4, 5, 7, 11, 12, 15, 17, 20, 31, 34, 41, 54, 61]))]
        if kind == 2:
            return ["mul", ["num", "%sD-%d" % (mant, draw(st.integers(14, 16)))], ["var", "RO2"]] + tail
        if kind == 3:
            return ["mul", ["num", "%sD-%d" % (mant, draw(st.integers(20, 22)))], ["var", "H2O"]] + tail
        if kind == 4:
            return ["var", draw(st.sampled_from(["KMT10", "KBPAN", "K14ISOM1"]))]
        return ["mul", ["num", "%sD-%d" % (mant, draw(st.integers(2, 6)))]] + tail
    if order == 2:
        if kind <= 1:
            return ["var", draw(st.sampled_from(["KRO2NO", "KAPNO", "KRO2HO2", "KROPRIM", "KRO2NO3", "KMT03", "KMT15"]))]
        return ["mul", ["num", "%sD-%d" % (mant, draw(st.integers(12, 17)))]] + tail
    return ["mul", ["num", "%sD-%d" % (mant, draw(st.integers(27, 30)))]] + tail


@st.composite
def mechanism(draw, max_species=8, max_reactions=8, max_lhs=3):
    sp = draw(M.names(2, max_species))
    n = len(sp)
    rs = []
    for _ in range(draw(st.integers(1, max_reactions))):
        lhs = draw(M.side(n, "one", 1, min(max_lhs, draw(st.sampled_from([1, 2, 2, 3])))))
        if draw(st.integers(0, 9)) == 0:
            lhs[0][0] = "2"
        order = int(sum(M.value(c) for c, _ in lhs))
        rhs = draw(M.side(n, draw(st.sampled_from(["one", "one", "any"])), 0, 3))
        if order > 1:  # nothing that multiplies without bound
            rhs = rhs[:order] if all(c == "" for c, _ in rhs) else [["0.5" if draw(st.booleans()) else "", s] for _, s in rhs[:order]]
        rs.append({"lhs": lhs, "hv": draw(st.booleans()) if draw(st.integers(0, 5)) == 0 else False, "rhs": rhs, "rate": draw(rate(min(order, 3)))})
    return {"species": sp, "reactions": rs, "layout": M.PLAIN}


@st.composite
def case_(draw):
    m = draw(mechanism())
    n = len(m["species"])
    total, step = draw(st.one_of(st.tuples(st.sampled_from([300.0, 600.0, 900.0, 1800.0, 3600.0, 7200.0]), st.sampled_from([100.0, 300.0, 450.0, 600.0, 1000.0, 3600.0])), st.tuples(st.floats(1, 5000), st.floats(0.12, 1).map(lambda f: -f))))
    step = min(step if step > 0 else -step * total, total)
    ratio = st.one_of(st.floats(0.01, 200), st.floats(1, 50), st.sampled_from([1.0, 18.0, 30.0]))
    there = draw(st.sets(st.integers(0, n - 1), max_size=n)) | {s for r in m["reactions"] if draw(st.integers(0, 3)) for _, s in r["lhs"]}
    return {"mech": m, "init": [[s, draw(ratio)] for s in sorted(there)], "ro2": sorted(draw(st.sets(st.integers(0, n - 1), max_size=n))),
            "start": draw(st.one_of(drv.START, st.sampled_from([14000.0, 15500.0, 68000.0, 72000.0]))), "temp": draw(st.one_of(st.just(298.15), st.floats(260, 320))), "h2o": draw(st.floats(1e16, 8e17)), "total": total, "step": round(step, 3)}


def reference(m, ref, ro2, c):
    """dy/dt(t, y, factor on every rate) from the drawn reactions."""
    env, _ = R.env_values(c["temp"], 1.0, c["h2o"], 43200.0)
    for k in list(env):
        if isinstance(k, tuple):
            env[k] = R.N(1.0)
    base, js, powers = [], [], []
    for r in m["reactions"]:
        base.append(R.value(r["rate"], env).v)
        u = R.uses(r["rate"])
        powers.append("RO2" in u)
        js.append(r["rate"][1] if r["rate"][0] == "J" else None)
    base, powers = np.array(base), np.array(powers)
    net = (ref.G - ref.L).T.copy()
    net[ref.held] = 0

    @lru_cache(64)
    def light(t):
        j, _ = R.photolysis_mcm(c["start"] + t)
        return np.array([1.0 if k is None else j[k].v for k in js])

    def f(t, y, factor=1.0):
        k = base * light(float(t)) * factor
        k = np.where(powers, k * (y[ro2].sum() if len(ro2) else 0.0), k)
        return net @ (k * np.prod(y ** ref.L, axis=1))
    return f


def run(c, ctx, kind):
    m = c["mech"]
    text = M.render(m, R.text)
    with ctx.scratch():
        p = gen.Parsed(text)
        ref = Ref(m, p)
        ro2 = np.array([ref.col[s] for s in c["ro2"] if s in ref.col], dtype=int)
        init = {m["species"][s]: v for s, v in c["init"] if s in ref.col}
        y0 = np.zeros(ref.n_sp)
        for s, v in init.items():
            y0[p.index[s]] = v * PPB
        ends = drv.ends_of(c["total"], c["step"])
        times = np.array([0.0] + ends)
        f = reference(m, ref, ro2, c)
        try:
            want = I.precise(f, y0, times)
            moved = abs(I.precise(lambda t, y: f(t, y, 1 + 1e-5), y0, times) - want) + abs(I.precise(f, y0 * (1 + 1e-5), times) - want)
        except I.TooHard:
            ctx.label("no reference solution")
            return
        if want.max() > 1e16 or want.min() < -1e3:
            ctx.label("runs away")
            return
        if kind == "numba":
            mods = D.raw_modules("numba", gen.numba_rates(p).raw, gen.numba_reactants(p).raw, gen.numba_dydt(p).raw, gen.numba_jacobian(p).raw)
        else:
            mods = D.raw_modules("f2py", gen.fortran_rates(p).raw, gen.fortran_reactants(p), gen.fortran_dydt(p), gen.fortran_jacobian(p))
        rec = I.Runs()
        res = D.run(kind, rec, mods, filename="mech", start_time=c["start"], save_output=True, temp=c["temp"], RH=0.5, RO2_indices=ro2, H2O=c["h2o"],
                    input_dict={"species_dict": p.species_dict, "species_dict2array": p.index, "species_initial_conc": init, "equations": p.n_eq}, simulation_time=c["total"], batch_step=c["step"])
        if res is I.TooHard:
            ctx.label("integrator gave up")
            return
        y = np.load("mech_output.npy")
    info = "%s driver, %r s in steps of %r from %r, temperature %r, H2O %r, initially %s, RO2 members %s\n%s" % (kind, c["total"], c["step"], c["start"], c["temp"], c["h2o"], init, [ref.name[i] for i in ro2], text)
    if y.shape != want[1:].shape:
        fail("the saved matrix has shape %s, expected %s (%s)", y.shape, want[1:].shape, info)
    scale = np.maximum.accumulate(abs(want), axis=0)[1:]
    tol = 5e-4 * scale + 30 * moved[1:] + 1e-9 * abs(want).max() + 10.0
    ctx.label("sensitive", bool((30 * moved[1:] > 0.05 * scale + 10).any()))
    bad = ~(abs(y - want[1:]) <= tol)
    if bad.any():
        k, i = (int(v) for v in np.argwhere(bad)[0])
        fail("%s after %r s is reported as %r, the mechanism's solution is %r (tolerance %.3g; %d of %d values differ)\n%s", ref.name[i], float(times[k + 1]), float(y[k, i]), float(want[k + 1, i]), tol[k, i], int(bad.sum()), bad.size, info)
    changed = int((abs(want - want[0]).max(axis=0) > 0.01 * abs(want).max(axis=0)).sum())
    ctx.label("worst error over tolerance below 0.1", bool((abs(y - want[1:]) <= 0.1 * tol).all()))
    ctx.label("RO2 moves a rate", any("RO2" in R.uses(r["rate"]) for r in m["reactions"]) and len(ro2) > 0)
    ctx.label("photolysis", any(r["rate"][0] == "J" for r in m["reactions"]))
    ctx.label("several output steps", len(ends) > 1)
    ctx.label("nothing happens", changed == 0)
    ctx.nontrivial = changed >= 2 and p.n_eq >= 2


@st.composite
def particles(draw, kind):
    """A mechanism (none for the fixed-composition solver) over gases of which some condense; particles with cores."""
    m = draw(mechanism(5, 5, 2)) if kind == "aerosol" else None
    if m:
        m["species"] = [("WATER" if s == "H2O" else s) for s in m["species"]]
    n = len(M.used_species(m)) if m else draw(st.integers(1, 4))
    c = draw(aero.aerosol(n, every=draw(st.booleans()), max_bins=3))
    nb, nc = c["prog"]["bins"], len(c["prog"]["inc"])
    s = c["s"]
    s["radius"] = [draw(T.mag(-8, -6)) for _ in range(nb)]
    s["N"] = [draw(T.mag(0, 4)) for _ in range(nb)]
    s["x"] = [[draw(T.mag(-4, 0)) for _ in range(nc)] for _ in range(nb)]
    s["psat"] = [draw(T.mag(-14, -6)) for _ in range(nc)]
    a = T.arrays(c["prog"], s)
    c["y_cond"] = [float(v) for v in a["y"][n + 1:]]
    k = len(m["species"]) if m else n
    total = draw(st.one_of(st.sampled_from([10.0, 60.0, 300.0]), st.floats(0.1, 400).map(lambda v: round(v, 2))))
    c.update({"mech": m, "gas": [draw(T.mag(6, 13)) for _ in range(k)], "water": draw(st.floats(1e15, 6e17)), "ro2": sorted(draw(st.sets(st.integers(0, k - 1), max_size=k))), "start": draw(drv.START),
              "temp": draw(st.one_of(st.just(298.15), st.floats(260, 320))), "h2o": draw(st.floats(1e16, 8e17)), "total": total, "step": round(total / draw(st.floats(1, 3)), 3)})
    return c


def coupled(c, ctx, kind, compiled):
    m, prog = c["mech"], c["prog"]
    n = prog["n"] - 1
    info = "%s driver, %r s in steps of %r" % (kind, c["total"], c["step"])
    ends = drv.ends_of(c["total"], c["step"])
    times = np.array([0.0] + ends)
    inp = aero.input_dict(c)
    kw = {"filename": "mech", "save_output": True, "start_time": c["start"], "temp": c["temp"], "RH": 0.5, "H2O": c["h2o"], "PInit": 98000, "y_cond": inp["y_cond_initial"], "input_dict": inp,
          "simulation_time": c["total"], "batch_step": c["step"]}
    with ctx.scratch():
        y0 = np.zeros(c["size"])
        y0[n] = c["water"]
        y0[prog["n"]:] = c["y_cond"]
        rates = reactants = tend = None
        if kind == "aerosol":
            text = M.render(m, R.text)
            p = gen.Parsed(text)
            ref = Ref(m, p)
            ro2 = np.array([ref.col[s] for s in c["ro2"] if s in ref.col], dtype=int)
            init = {m["species"][s]: c["gas"][s] / PPB for s in ref.col}
            for s, i in ref.col.items():
                y0[i] = c["gas"][s]
            inp.update({"species_dict": p.species_dict, "species_dict2array": dict(p.index, H2O=n), "species_initial_conc": dict(init, H2O=c["water"]), "equations": p.n_eq})
            kw.update({"RO2_indices": ro2, "plot_mass": False})
            chemistry = reference(m, ref, ro2, c)
            rates = gen.fortran_rates(p).raw if compiled else gen.numba_rates(p)
            reactants, tend = (gen.fortran_reactants(p), gen.fortran_dydt(p)) if compiled else (ref.reactants, lambda r: ref.dydt(np.asarray(r))[0])
            info += "\n" + text
        else:
            names = ["S%d" % i for i in range(n)]
            y0[:n] = c["gas"]
            inp.update({"species_dict": dict(enumerate(names)), "species_dict2array": dict({s: i for i, s in enumerate(names)}, H2O=n), "y_gas_initial": [float(v) for v in y0[:prog["n"]]]})

        def f(t, y, factor=1.0):
            flux, _, _, _, _ = aero.theory(c, y, c["temp"])
            d = aero.tendency(c, flux * factor, flux)[0]
            if kind == "aerosol":
                d[:n] += chemistry(t, y[:n], factor)
            return d
        try:
            with np.errstate(all="ignore"):
                want = I.precise(f, y0, times, rtol=1e-8)
                moved = abs(I.precise(lambda t, y: f(t, y, 1 + 1e-4), y0, times, rtol=1e-8) - want) + abs(I.precise(f, y0 * (1 + 1e-4), times, rtol=1e-8) - want)
        except I.TooHard:
            ctx.label("no reference solution")
            return
        part = T.build(prog) if compiled else aero.stub_partition(c)
        if compiled or kind == "yield":
            mods = D.raw_modules("f2py", rates, reactants, tend, None, part)
        else:
            mods = D.f2py_modules(rates, reactants, tend, None, part)
        rec = I.Runs(20000)
        if D.run(kind, rec, mods, **kw) is I.TooHard:
            ctx.label("integrator gave up")
            return
        with sut("reading the saved states"), open("mech_y_output.pickle", "rb") as h:
            y = np.array(pickle.load(h), float)
    if y.shape != want[1:].shape:
        fail("the saved matrix has shape %s, expected %s (%s)", y.shape, want[1:].shape, info)
    scale = np.maximum.accumulate(abs(want), axis=0)[1:]
    tol = 2e-2 * scale + 30 * moved[1:] + 1e-6 * abs(want[:, :n]).max() + 100.0
    bad = ~(abs(y - want[1:]) <= tol)
    what = lambda i: "gas species %d" % i if i <= n else "condensing species %d in bin %d" % ((i - n - 1) % len(prog["inc"]), (i - n - 1) // len(prog["inc"]))  # noqa: E731
    if bad.any():
        k, i = (int(v) for v in np.argwhere(bad)[0])
        fail("%s after %r s is saved as %r, the solution is %r (tolerance %.3g; %d of %d values differ)\n%s", what(i), float(times[k + 1]), float(y[k, i]), float(want[k + 1, i]), tol[k, i], int(bad.sum()), bad.size, info)
    ctx.label("worst error over tolerance below 0.1", bool((abs(y - want[1:]) <= 0.1 * tol).all()))
    ctx.label("particles, several output steps", len(ends) > 1)
    ctx.label("particles, sensitive", bool((30 * moved[1:] > 0.05 * scale + 100).any()))
    moving = abs(want - want[0]).max(axis=0) > 0.01 * abs(want).max(axis=0)
    ctx.label("a gas moves by over 1 %", bool(moving[:n].any()))
    ctx.nontrivial = int(moving.sum()) >= 2


PARTS = [Part("python", case_, lambda c, x: run(c, x, "numba"), quick=640, thorough=16000, budget=(90, 500)),
         Part("fortran", case_, lambda c, x: run(c, x, "f2py"), quick=64, thorough=2500, budget=(60, 250)),
         Part("aerosol", lambda: particles("aerosol"), lambda c, x: coupled(c, x, "aerosol", False), quick=160, thorough=5000, budget=(60, 400)),
         Part("fixed", lambda: particles("yield"), lambda c, x: coupled(c, x, "yield", False), quick=160, thorough=5000, budget=(60, 300)),
         Part("compiled", lambda: particles("aerosol"), lambda c, x: coupled(c, x, "aerosol", True), quick=32, thorough=1500, budget=(60, 250))]
