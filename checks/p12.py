"""P12: the right-hand side and Jacobian given to the integrator."""
import numpy as np
from hypothesis import strategies as st

from checks import chem, drv
from pbx import drivers as D, gen, mech as M, rates as R
from pbx.core import Part, fail
from pbx.ref import Ref, close

RULE = ("mechanism, rate expressions, settings, RO2 members, output steps and a history of states at which the integrator asks are drawn; the driver runs with a stand-in for Assimulo that records the "
        "callbacks' results, and each is compared with mass action on the drawn reactions at the rates of that moment; non-trivial: at least two reactions, two distinct states asked for, "
        "and some rate that changes with the RO2 total or the time of day")
ASSUMPTIONS = ["Assimulo is replaced by a stand-in that follows its documented interface; rate coefficients themselves are P03-P06's business and are taken from the generated module"]
MOVING = [["mul", ["num", "2.0D-12"], ["var", "RO2"]], ["J", 4], ["J", 1], ["mul", ["num", "1.2D-6"], ["var", "RO2"]], ["mul", ["num", "3.1D-17"], ["var", "H2O"]], ["mul", ["num", "1.5D-12"], ["fn", "EXP", ["div", ["num", "600"], ["var", "TEMP"]]]]]


@st.composite
def case_(draw, steps=3):
    m = draw(M.mechanism(st.one_of(R.rate(), st.sampled_from(MOVING), st.sampled_from(MOVING)), layout=False, lhs_kind="int", rhs_kind="any", max_reactions=8, max_lhs=2, names_kw={"max_size": 9}))
    n = len(m["species"])
    total, step = draw(drv.duration(steps))
    return {"mech": m, "start": draw(drv.START), "temp": draw(st.one_of(st.just(298.15), st.floats(250, 330))), "h2o": draw(st.one_of(st.just(0.0), st.floats(1e15, 1e18))),
            "ro2": sorted(draw(st.sets(st.integers(0, n - 1), max_size=n))), "total": total, "step": step,
            "init": draw(st.lists(st.tuples(st.integers(0, n - 1), st.floats(0.001, 500)).map(list), max_size=3)),
            "ends": draw(drv.states(n, 2, -3, 10)), "probes": draw(st.lists(st.tuples(st.floats(0, 1), chem.values(n, -3, 10)).map(list), min_size=1, max_size=3))}


def run(c, ctx, kinds):
    m = c["mech"]
    text = M.render(m, R.text)
    with ctx.scratch():
        p = gen.Parsed(text)
        ref = Ref(m, p)
        used = [s for s in range(len(m["species"])) if s in ref.col]
        vec = lambda v: np.array(chem.vec(ref, m, v))  # noqa: E731
        ro2 = np.array([ref.col[s] for s in c["ro2"] if s in ref.col], dtype=int)
        init = {m["species"][s]: v for s, v in c["init"] if s in used}
        inp = {"species_dict": p.species_dict, "species_dict2array": p.index, "species_initial_conc": init, "equations": p.n_eq}
        moving = False
        for kind in kinds:
            if kind == "numba":
                rates, tol = gen.numba_rates(p), 1e-9
                real = (gen.numba_reactants(p), gen.numba_dydt(p), gen.numba_jacobian(p))
                mods = D.raw_modules("numba", rates.raw, *[f.raw for f in real])
            else:
                rates, tol = gen.fortran_rates(p), 2e-5
                mods = D.raw_modules("f2py", rates.raw, gen.fortran_reactants(p), gen.fortran_dydt(p), gen.fortran_jacobian(p))
            rec = D.Record([vec(e) for e in c["ends"]], [(f, vec(y)) for f, y in c["probes"]], want_jac=True)
            D.run(kind, rec, mods, filename="mech", start_time=c["start"], save_output=False, temp=c["temp"], RH=0.5, RO2_indices=ro2, H2O=c["h2o"], input_dict=inp,
                  simulation_time=c["total"], batch_step=c["step"])
            if not rec.calls:
                fail("the driver never called the integrator")
            seen = set()
            for k, call in enumerate(rec.calls):
                for ev in call["evals"]:
                    y = ev["y"]
                    tod = c["start"] + ev["elapsed"]
                    with np.errstate(all="ignore"):
                        kc = np.array(rates(tod, float(np.sum(y[ro2])), c["h2o"], c["temp"]))
                        near = np.array(rates(tod * (1 + 1e-14) + 1e-9, float(np.sum(y[ro2])), c["h2o"], c["temp"]))
                        seen.add(tuple(kc))
                        r = kc * ref.reactants(y)
                        want, mag = ref.dydt(r)
                        J, Jmag = ref.jacobian(kc, y)
                        slack = ref.dydt(abs(near - kc) * ref.reactants(y))[1] * 10
                        Jslack = ref.jacobian(abs(near - kc), y)[1] * 10
                    if not np.isfinite(mag).all() or (mag > 1e290).any() or not np.isfinite(Jmag).all():
                        ctx.label("overflow skipped")
                        continue
                    info = "%s driver, output step %d, time of day %r, RO2 %r\n%s" % (kind, k, tod, float(np.sum(y[ro2])), text)
                    close(ev["dydt"], want, tol * mag + slack, 1, "right-hand side", lambda i: ref.name[i], info)
                    if ev["jac"] is not None:
                        close(ev["jac"], J, tol * Jmag + Jslack, 1, "Jacobian", lambda i: ref.name[i], info)
                        ctx.label("jacobian compared")
            moving = moving or len(seen) > 1
    ctx.label("several output steps", len(rec.calls) > 1)
    ctx.label("RO2 members", len(ro2) > 0)
    ctx.label("rates move", moving)
    ctx.nontrivial = moving and p.n_eq >= 2 and len({tuple(y) for _, y in c["probes"]} | {tuple(e) for e in c["ends"]}) > 1


@st.composite
def large(draw):
    """A mechanism of up to sixty species by numbers alone; the generated modules are replaced by the reference."""
    n = draw(st.one_of(st.integers(1, 12), st.integers(10, 60), st.integers(10, 60), st.integers(60, 300)))
    k = draw(st.integers(1, 12))
    sp = st.integers(0, n - 1)
    rs = [{"lhs": draw(st.lists(sp, min_size=1, max_size=2)), "rhs": draw(st.lists(sp, max_size=3)), "k": draw(st.floats(0.1, 9)), "on": draw(st.sampled_from(["ro2", "ro2", "time", "h2o", "temp", "none"]))} for _ in range(k)]
    total, step = draw(drv.duration(3))
    base = M.cycle(draw(chem.values(min(n, 60), -3, 8)), n)
    if n > 60:  # every so-manieth species, or all but some
        every, off, most = draw(st.integers(2, 9)), draw(st.integers(0, 8)), draw(st.booleans())
        ro2 = [i for i in range(n) if (i % every == off % every) != most]
    else:
        ro2 = sorted(draw(st.sets(sp, max_size=n)))
    return {"n": n, "rs": rs, "ro2": ro2, "start": draw(drv.START), "temp": draw(st.floats(250, 330)), "h2o": draw(st.one_of(st.just(0.0), st.floats(1e15, 1e18))), "total": total, "step": step,
            "init": draw(st.lists(st.tuples(sp, st.floats(0.001, 500)).map(list), max_size=5)), "y": base, "turn": draw(st.lists(st.tuples(st.floats(0, 1), st.integers(0, n - 1), st.floats(0.2, 5)).map(list), min_size=1, max_size=4)),
            "minus": draw(st.lists(sp, max_size=2))}


def stubbed(c, ctx):
    n, rs = c["n"], c["rs"]
    ro2 = np.array(c["ro2"], dtype=int)

    def rates(tod, total, h2o, temp):
        on = {"ro2": float(total), "time": tod * 1e-4, "h2o": h2o * 1e-17, "temp": temp * 1e-2, "none": 1.0}
        return np.array([r["k"] * on[r["on"]] for r in rs])

    def reactants(y):
        return np.array([np.prod([y[i] for i in r["lhs"]]) for r in rs])

    def dydt(v):
        d = np.zeros(n)
        for r, x in zip(rs, v):
            for i in r["lhs"]:
                d[i] -= x
            for i in r["rhs"]:
                d[i] += x
        return d

    def jac(k, y):
        J = np.zeros((n, n))
        for r, x in zip(rs, k):
            for at, i in enumerate(r["lhs"]):
                part = x * np.prod([y[j] for q, j in enumerate(r["lhs"]) if q != at])
                for j in r["lhs"]:
                    J[j, i] -= part
                for j in r["rhs"]:
                    J[j, i] += part
        return J
    names = ["S%d" % i for i in range(n)]
    states = [[f, [c["y"][(i + s) % n] * g for i in range(n)]] for f, s, g in c["turn"]]
    for f, y in states:
        for i in c["minus"]:
            y[i] = -abs(y[i]) * 1e-3
    inp = {"species_dict": dict(enumerate(names)), "species_dict2array": {s: i for i, s in enumerate(names)}, "species_initial_conc": {names[s]: v for s, v in c["init"]}, "equations": len(rs)}
    moving = set()
    for kind in ("numba", "f2py"):
        rec = D.Record([y for _, y in states], states, want_jac=True)
        mods = (D.numba_modules if kind == "numba" else D.f2py_modules)(rates, reactants, dydt, jac)
        with ctx.scratch():
            D.run(kind, rec, mods, filename="mech", start_time=c["start"], save_output=False, temp=c["temp"], RH=0.5, RO2_indices=ro2, H2O=c["h2o"], input_dict=inp, simulation_time=c["total"], batch_step=c["step"])
        if not rec.calls:
            fail("the driver never called the integrator")
        for k, call in enumerate(rec.calls):
            for ev in call["evals"]:
                y, tod = ev["y"], c["start"] + ev["elapsed"]
                total = float(y[ro2].sum()) if len(ro2) else 0.0
                mag = float(abs(y[ro2]).sum()) if len(ro2) else 0.0
                kc = rates(tod, total, c["h2o"], c["temp"])
                kc_mag = rates(tod, mag, c["h2o"], c["temp"])
                moving.add(tuple(kc))
                info = "%s driver, output step %d, time of day %r, RO2 members %s with total %r, state %s" % (kind, k, tod, list(ro2), total, list(y))
                scale = np.zeros(n)
                for r, x in zip(rs, abs(kc_mag * reactants(abs(y)))):
                    for i in r["lhs"] + r["rhs"]:
                        scale[i] += x
                close(ev["dydt"], dydt(kc * reactants(y)), 1e-9 * scale, 1, "right-hand side", lambda i: names[i], info)
                if ev["jac"] is not None:
                    sj = np.zeros((n, n))
                    for r, x in zip(rs, kc_mag):
                        for at, i in enumerate(r["lhs"]):
                            for j in r["lhs"] + r["rhs"]:
                                sj[j, i] += x * np.prod([abs(y[q]) for p, q in enumerate(r["lhs"]) if p != at])
                    close(ev["jac"], jac(kc, y), 1e-9 * sj, 1, "Jacobian", lambda i: names[i], info)
                    ctx.label("jacobian compared")
    ctx.label("over 8 RO2 members", len(ro2) > 8)
    ctx.label("negative amounts", bool(c["minus"]))
    ctx.nontrivial = len(moving) > 1 and len(rs) >= 2


PARTS = [Part("large", large, stubbed, quick=1200, thorough=40000, budget=(60, 300)),
         Part("python", lambda: case_(), lambda c, x: run(c, x, ["numba"]), quick=1600, thorough=50000, budget=(90, 600)),
         Part("both", lambda: case_(2), lambda c, x: run(c, x, ["numba", "f2py"]), quick=64, thorough=2500, budget=(90, 400))]
