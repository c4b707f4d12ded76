"""P27: the charts a run ends with."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import aero, chem, drv, p13
from checks.p25 import settings_
from pbx import drivers as D, gen, scripts as S
from pbx.core import Part, fail, sut

RULE = ("compositions, properties, output steps and the integrator's answers are drawn, matplotlib's show is replaced by a recorder, and what is drawn (bars, curves, titles) is compared with the answers; "
        "non-trivial: at least two organic species and two bins for the bar charts, at least two output steps for curves")
ASSUMPTIONS = ["a chart is what the current figure holds when show is called", "the Assimulo stand-in's answers are the run's results"]


class Shown:
    """Records every figure at the moment it is shown."""

    def __init__(self):
        self.figs = []

    def __enter__(self):
        from matplotlib import figure, pyplot as plt
        self.plt, self.Figure = plt, figure.Figure
        self.old = plt.show, figure.Figure.show

        def take(fig):
            bars, lines = [], []
            for ax in fig.axes:
                bars += [(p.get_x() + p.get_width() / 2, p.get_y(), p.get_height()) for p in ax.patches]
                lines += [(ln.get_label(), np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float)) for ln in ax.lines]
            self.figs.append({"bars": bars, "lines": lines, "title": fig.axes[0].get_title() if fig.axes else ""})
        plt.show = lambda *a, **k: take(plt.gcf())
        figure.Figure.show = lambda fig, *a, **k: take(fig)
        return self

    def __exit__(self, *a):
        self.plt.show, self.Figure.show = self.old
        self.plt.close("all")


@st.composite
def mass_case(draw):
    n = draw(st.integers(2, 6))
    c = draw(aero.aerosol(n, every=draw(st.booleans()), max_bins=4))
    nc = len(c["prog"]["inc"])
    total, step = draw(drv.duration(3))
    lo = n + 1

    def negative(v):
        # Solvers leave small negative amounts behind.
        for i in draw(st.lists(st.integers(lo, len(v) - 1), max_size=2)):
            v[i] = -abs(v[i]) * 1e-3
        return v
    c["ends"] = [negative(list(e)) for e in c["ends"]]
    c.update({"total": total, "step": step, "start": 0.0, "temp": 288.15, "y_gas": draw(chem.values(n + 1, -3, 13)), "save": False, "nc": nc})
    return c


def mass(c, ctx):
    from pbx.part import arrays
    prog = c["prog"]
    n, nc, nb = prog["n"], len(prog["inc"]), prog["bins"]
    rec = D.Record(c["ends"], [])
    plotting = gen.repo_module("Plotting", "Aerosol/f2py/Fixed_yield/Plotting.py")
    D.driver("yield")
    mod, _ = D._loaded["yield"]
    inp = aero.input_dict(c)
    inp.update({"species_dict": {}, "species_dict2array": {"H2O": n - 1}, "y_gas_initial": list(c["y_gas"])})
    old = mod.Plotting
    with ctx.scratch(), Shown() as shown:
        mod.Plotting = plotting
        try:
            D.run("yield", rec, D.raw_modules("f2py", None, None, None, None, aero.stub_partition(c)), filename="mech", save_output=False, start_time=0.0, temp=c["temp"], RH=0.5, H2O=1e17, PInit=98000,
                  y_cond=inp["y_cond_initial"], input_dict=inp, simulation_time=c["total"], batch_step=c["step"])
        finally:
            mod.Plotting = old
    info = "condensing %s of %d gas species with water, %d bins" % (prog["inc"], n, nb)
    if len(shown.figs) != len(rec.calls):
        fail("%d charts for %d output steps (%s)", len(shown.figs), len(rec.calls), info)
    for k, (fig, call) in enumerate(zip(shown.figs, rec.calls)):
        m = np.maximum(np.array(call["end"])[n:].reshape(nb, nc) / c["s"]["NA"] * np.array(c["s"]["mw"]) * 1e12, 0.0)[:, :nc - 1]
        want = m.sum()
        try:
            got = float(fig["title"].split("=")[-1])
        except ValueError:
            fail("the chart's title is %r", fig["title"])
        if not abs(got - want) <= 0.0051 + 1e-9 * want:
            fail("step %d: the title says %r, the organic mass is %r (%s)", k, fig["title"], want, info)
        if len(fig["bars"]) != (nc - 1) * nb:
            fail("step %d: %d bars, %d organics in %d bins (%s)", k, len(fig["bars"]), nc - 1, nb, info)
        for b in range(nb):
            here = sorted((y, h) for x, y, h in fig["bars"] if round(x) == b)
            tot = m[b].sum()
            if not tot > 0:
                continue
            share = m[b] / tot
            h = np.array([v for _, v in here])
            if len(h) != nc - 1 or not np.isfinite(h).all():
                fail("step %d: bin %d has bars %s, shares %s (%s)", k, b, here, share, info)
            if not (abs(np.sort(h) - np.sort(share)) <= 1e-9).all():
                fail("step %d: bin %d shows %s, the shares are %s (%s)", k, b, np.sort(h), np.sort(share), info)
            # Species keep their order from bin to bin, stacked without gaps.
            mine = [(y, v) for x, y, v in fig["bars"] if round(x) == b]
            if not (abs(np.array([v for _, v in mine]) - share) <= 1e-9).all():
                fail("step %d: bin %d shows %s for the species in turn, their shares are %s (%s)", k, b, [v for _, v in mine], share, info)
            base = np.concatenate([[0.0], np.cumsum(share)[:-1]])
            if not (abs(np.array([y for y, _ in mine]) - base) <= 1e-9).all():
                fail("step %d: bars of bin %d start at %s, expected %s (%s)", k, b, [y for y, _ in mine], base, info)
    ctx.label("every species condenses", nc == n)
    ctx.label("negative amounts", any(v < 0 for e in c["ends"] for v in e))
    ctx.nontrivial = nc > 2 and nb > 1


def curve(fig, label, t, y, tol, info):
    for lab, xs, ys in fig["lines"]:
        if label is None or lab == label:
            if xs.shape == t.shape and (abs(xs - t) <= tol).all() and ys.shape == y.shape and np.allclose(ys, y, rtol=1e-9, atol=0):
                return
            fail("the curve %s shows %s at %s, expected %s at %s (%s)", lab, ys, xs, y, t, info)
    fail("no curve %s among %s (%s)", label, [ln[0] for ln in fig["lines"]], info)


@st.composite
def gas_case(draw):
    c = draw(p13.case_())
    c["names"] = [s for s in c["names"] if s not in ("APINENE", "PINONIC")][:6] + ["APINENE", "PINONIC"]
    n = len(c["names"])
    c.update({"order": draw(st.permutations(list(range(n)))), "ends": draw(drv.states(n, 2, -6, 13)), "init": {}})
    return c


def gas(c, ctx):
    names, n = c["names"], len(c["names"])
    index = {s: c["order"][i] for i, s in enumerate(names)}
    rec = D.Record(c["ends"], [])
    mods = D.f2py_modules(lambda *a: np.ones(1), lambda y: np.ones(1), lambda r: np.zeros(n), lambda r, y: np.zeros((n, n)))
    inp = {"species_dict": {i: s for s, i in index.items()}, "species_dict2array": index, "species_initial_conc": {}, "equations": 1}
    with ctx.scratch(), Shown() as shown:
        D.run("f2py", rec, mods, filename=c["file"], start_time=0.0, save_output=False, temp=298.0, RH=0.5, RO2_indices=np.array([], dtype=int), H2O=1e17, input_dict=inp, simulation_time=c["total"], batch_step=c["step"])
    if len(shown.figs) != 1:
        fail("%d charts at the end of a gas-phase run", len(shown.figs))
    t = np.array(drv.ends_of(c["total"], c["step"]))
    y = np.array([call["end"] for call in rec.calls])
    for s in ("APINENE", "PINONIC"):
        curve(shown.figs[0], s, t, np.log10(y[:, index[s]]), 1e-5 * c["step"] + 1e-12 * c["total"], str(index))
    ctx.nontrivial = len(t) > 1


def total(c, ctx):
    n = c["prog"]["n"] - 1
    index = dict({"S%d" % i: i for i in range(n)}, H2O=n)
    rec = D.Record(c["ends"], [])
    mods = D.f2py_modules(lambda *a: np.zeros(1), lambda y: np.zeros(1), lambda r: np.zeros(n), None, aero.stub_partition(c))
    inp = aero.input_dict(c)
    inp.update({"species_dict": {i: s for s, i in index.items() if i < n}, "species_dict2array": index, "species_initial_conc": {}, "equations": 1})
    with ctx.scratch(), Shown() as shown:
        D.run("aerosol", rec, mods, filename="mech", save_output=False, start_time=0.0, temp=c["temp"], RH=0.5, RO2_indices=np.array([], dtype=int), H2O=1e17, PInit=98000, y_cond=inp["y_cond_initial"], input_dict=inp,
              simulation_time=c["total"], batch_step=c["step"], plot_mass=True)
    if len(shown.figs) != 1:
        fail("%d charts at the end of an aerosol run", len(shown.figs))
    want = []
    for call in rec.calls:
        with np.errstate(all="ignore"):
            want.append(aero.theory(c, call["end"], c["temp"])[4])
    want = np.array(want)
    ctx.nontrivial = len(want) > 1 and len(c["prog"]["inc"]) > 1
    if not np.isfinite(want).all():
        ctx.nontrivial = False
        return
    lines = shown.figs[0]["lines"]
    t = np.array(drv.ends_of(c["total"], c["step"]))
    if not any(xs.shape == t.shape and (abs(xs - t) <= 1e-5 * c["step"] + 1e-12 * c["total"]).all() and ys.shape == want.shape and (abs(ys - want) <= 1e-6 * abs(want) + 1e-300).all() for _, xs, ys in lines):
        fail("the curves drawn are %s, organic mass is %s at %s", lines, want, t)


@st.composite
def script_case(draw):
    sp = ["APINENE", "O3", "PINONIC"] + draw(st.lists(st.sampled_from(["NO", "NO2", "HO2", "C107O2", "BUT2OLO"]), max_size=3, unique=True))
    n = len(sp)
    lines = [(i, draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))) for i in draw(st.permutations(range(n)))]
    text = "".join("{%d.} %s + %s = %s : %s ;\n" % (k + 1, sp[a], sp[b], sp[(a + 1) % n], "1.0D-17") for k, (a, b, _) in enumerate(lines))
    return {"species": sp, "text": text, "set": draw(settings_()), "ends": draw(drv.states(n, draw(st.integers(1, 4)), -6, 13))}


def script(c, ctx):
    """The curves Gas_simulation.py itself draws from what run_simulation returns."""
    with ctx.scratch() as root, Shown() as shown:
        top = S.tree(root)
        with open(os.path.join(top, "mechanism_files", "MCM_APINENE.eqn.txt"), "w") as f:
            f.write(c["text"])
        rec = D.Record(c["ends"], [])
        args, done = S.run("numba", root, rec, c["set"])
        index = {k: int(v) for k, v in args["input_dict"]["species_dict2array"].items() if isinstance(k, str)}
        t = np.array(drv.ends_of(args["simulation_time"], args["batch_step"]))
    if not shown.figs:
        fail("the run ends without a chart")
    y = np.array([call["end"] for call in rec.calls])
    with np.errstate(all="ignore"):
        for s in ("APINENE", "PINONIC"):
            curve(shown.figs[-1], s, t, np.log10(y[:, index[s]]), 1e-5 * args["batch_step"] + 1e-12 * args["simulation_time"], "%s\n%s" % (index, c["text"]))
    ctx.nontrivial = len(t) > 1


PARTS = [Part("shares", mass_case, mass, quick=400, thorough=10000, budget=(60, 300)),
         Part("species", gas_case, gas, quick=250, thorough=6000, budget=(60, 200)),
         Part("script", script_case, script, quick=150, thorough=4000, budget=(60, 200)),
         Part("total", mass_case, total, quick=300, thorough=8000, budget=(60, 200))]
