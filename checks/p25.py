"""P25: the gas-phase scripts."""
import os
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from checks import chem, drv
from checks.p15 import RO2 as RO2LIST, RO2SET
from pbx import drivers as D, gen, mech as M, rates as R, scripts as S
from pbx.core import Part, fail
from pbx.ref import Ref, close

RULE = ("a mechanism with peroxy radicals, the settings the README tells users to edit and a history of states are drawn; the script itself runs in a scratch folder against a stand-in integrator, and what reaches the "
        "integrator is compared with the drawn reactions and settings; then a second run may reuse the files with other settings; non-trivial: at least two reactions, a peroxy radical in the mechanism, and rates that "
        "change over the history")
ASSUMPTIONS = ["water vapour is compared within 1.5 % of RH times the saturation density (the scripts' own approximation is within 0.7 % from 270 to 310 K)", "deletions by the scripts are confined to the scratch folder by a guard"]
MOVING = [["mul", ["num", "2.0D-12"], ["var", "RO2"]], ["J", 4], ["J", 1], ["mul", ["num", "1.2D-6"], ["var", "RO2"]], ["mul", ["num", "3.1D-17"], ["var", "H2O"]], ["mul", ["num", "1.5D-12"], ["fn", "EXP", ["div", ["num", "600"], ["var", "TEMP"]]]],
          ["var", "KRO2NO"], ["num", "5.0D-12"]]


@st.composite
def mech_(draw, max_reactions=8, extra=4):
    many = draw(st.integers(0, 11)) == 0
    pool = draw(st.lists(st.one_of(st.sampled_from(RO2LIST), st.sampled_from(RO2LIST), st.sampled_from([n for n in M.NAMES if n not in RO2SET])), min_size=30 if many else 0, max_size=60 if many else extra, unique=True))
    sp = ["APINENE", "O3", "PINONIC"] + [n for n in pool if n not in ("APINENE", "O3", "PINONIC")]
    sp = [sp[i] for i in draw(st.permutations(range(len(sp))))]
    n = len(sp)
    rate = st.one_of(st.sampled_from(MOVING), st.sampled_from(MOVING), R.rate())
    rs = draw(M.reactions(n, rate, max_reactions=max_reactions, max_lhs=2, lhs_kind="int"))
    if many:  # every species takes part
        ks = draw(st.lists(rate, min_size=1, max_size=3))
        rs += [{"lhs": [["", i]], "rhs": [["", (i + 1) % n]], "hv": False, "rate": ks[i % len(ks)]} for i in range(n)]
    idx = {s: i for i, s in enumerate(sp)}
    # the species the scripts name must occur
    rs.insert(draw(st.integers(0, len(rs))), {"lhs": [["", idx["APINENE"]], ["", idx["O3"]]], "rhs": [["0.5", idx["PINONIC"]]], "hv": False, "rate": ["mul", ["num", "8.05D-16"], ["fn", "EXP", ["neg", ["div", ["num", "640"], ["var", "TEMP"]]]]]})
    return {"species": sp, "reactions": rs, "layout": draw(M.LAYOUT)}


@st.composite
def settings_(draw, steps=3):
    total, step = draw(drv.duration(steps))
    return {"temp": draw(st.one_of(st.sampled_from([298.15, 288.15]), st.floats(240, 330).map(lambda v: round(v, 2)))), "RH": draw(st.one_of(st.just(0.5), st.floats(0.01, 0.98).map(lambda v: round(v, 3)))),
            "hour_of_day": draw(st.one_of(st.just(12.0), st.floats(0, 23.9).map(lambda v: round(v, 2)))), "simulation_time": total, "batch_step": step,
            "species_initial_conc['O3']": draw(st.one_of(st.just(18.0), st.floats(0.1, 200).map(lambda v: round(v, 2)))), "species_initial_conc['APINENE']": draw(st.one_of(st.just(30.0), st.floats(0.1, 200).map(lambda v: round(v, 2))))}


@st.composite
def case_(draw):
    m = draw(mech_())
    n = len(m["species"])
    runs = [draw(settings_()) for _ in range(draw(st.integers(1, 2)))]
    return {"mech": m, "file": draw(st.sampled_from(["MCM_APINENE", "MCM_APINENE", "mech"])), "runs": runs, "stale": draw(st.booleans()),
            "ends": draw(drv.states(n, 2, -3, 10)), "probes": draw(st.lists(st.tuples(st.floats(0, 1), chem.values(n, -3, 10)).map(list), min_size=1, max_size=2))}


def saturation(T):
    """Saturation vapour pressure of water over liquid, Pa (Hyland and Wexler)."""
    return np.exp(-5800.2206 / T + 1.3914993 - 4.8640239e-2 * T + 4.1764768e-5 * T ** 2 - 1.4452093e-8 * T ** 3 + 6.5459673 * np.log(T))


def water(RH, T):
    return RH * saturation(T) * 6.0221409e23 / (8.3144598 * T) * 1e-6


def setting(s, done, key, default):
    """What the script was told, or, where its text could not be edited, what it passes on."""
    return s[key] if key in done else default


def view(args):
    """The parser's numbering as the script passes it on (names only)."""
    inp = args["input_dict"]
    index = {k: int(v) for k, v in inp["species_dict2array"].items() if isinstance(k, str)}
    return inp, index


def check_settings(args, s, done, info):
    for key, arg, f in (("temp", "temp", 1), ("RH", "RH", 1), ("hour_of_day", "start_time", 3600.0), ("simulation_time", "simulation_time", 1), ("batch_step", "batch_step", 1)):
        if key in done and arg in args and not abs(args[arg] - s[key] * f) <= 1e-9 * abs(s[key] * f) + 1e-12:
            fail("%s was set to %r, the run is started with %s = %r\n%s", key, s[key], arg, args[arg], info)


def history(rec, s, done, args, steps_tol=1e-5):
    total = setting(s, done, "simulation_time", args["simulation_time"])
    step = setting(s, done, "batch_step", args["batch_step"])
    ends = drv.ends_of(total, step)
    if len(rec.calls) != len(ends) or abs(rec.elapsed - total) > steps_tol * step:
        fail("duration %r in steps of %r took %d steps and %r s", total, step, len(rec.calls), rec.elapsed)


def run(c, ctx, kind):
    m = c["mech"]
    text = M.render(m, R.text)
    names = m["species"]
    used = M.used_species(m)
    moving = False
    with ctx.scratch() as root:
        top = S.tree(root)
        with open(os.path.join(top, "mechanism_files", c["file"] + ".eqn.txt"), "w") as f:
            f.write(text)
        here = os.path.dirname(os.path.join(top, S.SCRIPT[kind][0]))
        if c["stale"]:
            # Files of another mechanism's run lie about.
            for n in ("MCM_APINENE_species_dict.pickle", "old.npz", "MCM_APINENE_RO2_indices.npy", "old.eqn.txt", "Rate_coefficients.f90"):
                with open(os.path.join(here, n), "w") as f:
                    f.write("stale")
        first_index = None
        for k, s in enumerate(c["runs"]):
            conf = dict(s, files_exist=k > 0, filename=c["file"])
            # States are drawn by species number; the order the parser gives is only known once it has run.
            size = len(used)
            order = M.used_species(m)
            rec = D.Record([[e[i] for i in order] for e in c["ends"]], [(f, [y[i] for i in order]) for f, y in c["probes"]], want_jac=True)
            args, done = S.run(kind, root, rec, conf)
            if k > 0 and "files_exist" not in done:
                break
            if "filename" not in done and c["file"] != "MCM_APINENE":
                break
            info = "%s, run %d with %s\n%s" % (S.SCRIPT[kind][0], k, s, text)
            inp, index = view(args)
            if set(index) != {names[i] for i in used} or sorted(index.values()) != list(range(size)):
                fail("the run's species are %s\n%s", index, info)
            if first_index is not None and index != first_index:
                fail("the run that reuses files numbers species %s, the first run %s", index, first_index)
            first_index = index
            p = SimpleNamespace(index=index, n_eq=inp["equations"], n_sp=len(index))
            ref = Ref(m, p)
            check_settings(args, s, done, info)
            history(rec, s, done, args)
            y0 = rec.calls[0]["y0"]
            want = np.zeros(size)
            for sp, dflt in (("O3", 18.0), ("APINENE", 30.0)):
                want[index[sp]] = setting(s, done, "species_initial_conc['%s']" % sp, inp["species_initial_conc"].get(sp, dflt)) * 2.55e10
            if not (abs(y0 - want) <= 1e-9 * want).all():
                fail("the run starts from %s, expected %s (%s)\n%s", y0, want, index, info)
            T = setting(s, done, "temp", args["temp"])
            h2o = float(args["H2O"])
            w = water(setting(s, done, "RH", args["RH"]), T)
            if not abs(h2o - w) <= 0.015 * w:
                fail("RH %r at %r K is taken as %r water molecules per cc, expected about %r", s["RH"], T, h2o, w)
            # Rates: from the text, by the harness's own evaluator through the generator that P03 and P04 decide.
            with _elsewhere(ctx):
                q = gen.Parsed(text)
                rates = gen.numba_rates(q) if kind == "numba" else gen.fortran_rates(q)
            ro2 = [ref.col[i] for i in used if names[i] in RO2SET]
            start = setting(s, done, "hour_of_day", args["start_time"] / 3600.0) * 3600.0
            tol = 1e-9 if kind == "numba" else 2e-5
            seen = set()
            for call in rec.calls:
                for ev in call["evals"]:
                    y, tod = ev["y"], start + ev["elapsed"]
                    with np.errstate(all="ignore"):
                        a = (float(y[ro2].sum()) if ro2 else 0.0, h2o, T)
                        kc, near = np.array(rates(tod, *a)), np.array(rates(tod * (1 + 1e-14) + 1e-9, *a))
                        r = ref.reactants(y)
                        d, mag = ref.dydt(kc * r)
                        J, Jmag = ref.jacobian(kc, y)
                        slack, Jslack = ref.dydt(abs(near - kc) * r)[1] * 10, ref.jacobian(abs(near - kc), y)[1] * 10
                    if not np.isfinite(mag).all() or not np.isfinite(Jmag).all() or (mag > 1e290).any():
                        ctx.label("overflow skipped")
                        continue
                    seen.add(tuple(kc))
                    what = "time of day %r, RO2 %r\n%s" % (tod, a[0], info)
                    close(ev["dydt"], d, tol * mag + slack, 1, "right-hand side", lambda i: ref.name[i], what)
                    if ev["jac"] is not None:
                        close(ev["jac"], J, tol * Jmag + Jslack, 1, "Jacobian", lambda i: ref.name[i], what)
            moving = moving or len(seen) > 1
            ctx.label("files reused", k > 0)
    ro2_in = any(names[i] in RO2SET for i in used)
    ctx.label("peroxy radicals", ro2_in)
    ctx.label("stale files", c["stale"])
    ctx.nontrivial = ro2_in and moving and len(m["reactions"]) >= 2


class _elsewhere:
    """A folder of its own inside the scratch folder."""

    def __init__(self, ctx):
        self.cm = ctx.scratch()

    def __enter__(self):
        return self.cm.__enter__()

    def __exit__(self, *a):
        return self.cm.__exit__(*a)


PARTS = [Part("python", case_, lambda c, x: run(c, x, "numba"), quick=800, thorough=12000, budget=(90, 500)),
         Part("fortran", case_, lambda c, x: run(c, x, "f2py"), quick=160, thorough=2500, budget=(90, 400))]
