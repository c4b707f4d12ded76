"""P26: the aerosol scripts."""
import os
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from checks import aero, chem, drv
from checks.p15 import RO2SET
from checks.p17 import POOL
from checks.p25 import _elsewhere, check_settings, history, mech_, saturation, setting, settings_, view, water
from pbx import gen, mech as M, props, rates as R, scripts as S
from pbx.core import Part, fail
from pbx.ref import Ref

RULE = ("mechanism or snapshot, species table, settings of the script (ambient, size distribution, methods, vapour pressure limit) and a history of states are drawn; the script runs in a scratch folder against stand-ins for "
        "Assimulo and UManSysProp, and what reaches the integrator is compared with mass action plus droplet-growth theory on the properties of each species' own molecule; a second run may reuse the files; "
        "non-trivial: at least one species condenses, one does not or at least two do, and at least two bins")
ASSUMPTIONS = ["UManSysProp is replaced by a stand-in; molecules hold carbon", "water vapour within 1.5 % of RH times saturation", "deletions by the scripts are confined to the scratch folder by a guard"]
NA = 6.0221409e+23


@st.composite
def size_(draw):
    lo = draw(st.one_of(st.just(0.01), st.floats(0.005, 0.1).map(lambda v: round(v, 4))))
    return {"num_bins": draw(st.integers(7, 64)) if draw(st.integers(0, 11)) == 0 else draw(st.integers(2, 6)), "total_conc": draw(st.one_of(st.just(100), st.integers(1, 5000))), "std": draw(st.one_of(st.just(2.2), st.floats(1.5, 3).map(lambda v: round(v, 2)))),
            "lowersize": lo, "uppersize": draw(st.floats(0.5, 2).map(lambda v: round(v, 3))), "meansize": draw(st.floats(0.05, 0.4).map(lambda v: round(v, 3)))}


@st.composite
def props_(draw, limit=True):
    c = {k: draw(st.sampled_from(v)) for k, v in props.METHODS.items()}
    c["ignore_vp"] = draw(st.sampled_from([True, True, False])) if limit else draw(st.booleans())
    c["vp_cutoff"] = draw(st.one_of(st.just(-6.0), st.floats(-16, 0).map(lambda v: round(v, 2))))
    return c


@st.composite
def case_(draw, kind):
    c = {"kind": kind, "runs": []}
    n = 0
    if kind == "aerosol":
        c["mech"] = draw(mech_(6, 4))
        n = len(c["mech"]["species"])
        c["table"] = {s: draw(st.sampled_from(POOL)) for s in c["mech"]["species"] if draw(st.integers(0, 4)) and s != "O3"}
    else:
        many = draw(st.integers(0, 9)) == 0
        smi = draw(st.lists(st.one_of(st.sampled_from(POOL), props.CHAIN) if many else st.sampled_from(POOL), min_size=12 if many else 1, max_size=60 if many else 6, unique=True))
        c["lines"] = [[s, draw(st.floats(0.001, 1).map(lambda v: round(v, 4)))] for s in smi]
        n = len(smi)
    first = draw(size_())
    prop = draw(props_(kind == "aerosol"))
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        s = dict(draw(settings_()), **first)
        s.update(prop)
        if kind == "yield":
            s.update(total_voc_mass=draw(st.floats(1, 100).map(lambda v: round(v, 2))), voc_mw=draw(st.floats(50, 300).map(lambda v: round(v, 2))))
        c["runs"].append(s)
    if len(c["runs"]) > 1:
        # The partitioning module is compiled for one number of bins; everything else may change, but what condenses must not.
        c["runs"][1]["temp"] = c["runs"][0]["temp"]
        c["runs"][1].update({k: v for k, v in draw(size_()).items() if k != "num_bins"})
    nc = n + 1
    # Long enough for any number of condensing species; cut to size when the script has said how many there are.
    m = (n + 1) + nc * first["num_bins"]
    few = min(m, 60)
    c["ends"] = [M.cycle(e, m) for e in draw(drv.states(few, 2, -3, 9))]
    c["probes"] = [[f, M.cycle(y, m)] for f, y in draw(st.lists(st.tuples(st.floats(0, 1), chem.values(few, -3, 9)), min_size=1, max_size=2))]
    return c


def xml(table):
    return "<mcm>\n" + "\n".join('<species species_number="%d" species_name="%s"><smiles>%s</smiles></species>' % (i, n, s) for i, (n, s) in enumerate(sorted(table.items()))) + "\n</mcm>"


class Sized:
    """Scripted states cut to the size of the state the driver sets up."""

    def __init__(self, c):
        from pbx.drivers import Record
        self.rec = Record(c["ends"], [])
        rec, probes = self.rec, c["probes"]
        full = rec.end_state

        def end_state(k):
            rec.probes = [(f, y[:rec.size]) for f, y in probes]
            return full(k)[:rec.size]
        rec.end_state = end_state


def run(c, ctx):
    kind = c["kind"]
    some = False
    with ctx.scratch() as root:
        top = S.tree(root)
        here = os.path.dirname(os.path.join(top, S.SCRIPT[kind][0]))
        if kind == "aerosol":
            m = c["mech"]
            text = M.render(m, R.text)
            names, used = m["species"], M.used_species(m)
            with open(os.path.join(top, "mechanism_files", "MCM_APINENE.eqn.txt"), "w") as f:
                f.write(text)
            for d in (os.path.join(top, "Aerosol"), top):
                with open(os.path.join(d, "MCM.xml"), "w") as f:
                    f.write(xml(c["table"]))
            n = len(used)
            oxid = ("OH", "HO2", "O3")
            mol = {names[i]: c["table"][names[i]] for i in used if names[i] in c["table"] and names[i] not in oxid}
        else:
            text = "".join("%s %s\n" % (s, v) for s, v in c["lines"])
            with open(os.path.join(here, "MCM_yield.txt"), "w") as f:
                f.write(text)
            n = len(c["lines"])
            mol = {s: s for s, _ in c["lines"]}
        for k, s in enumerate(c["runs"]):
            rec = Sized(c).rec
            rec.size = None
            args, done = S.run(kind, root, rec, dict(s, files_exist=k > 0))
            info = "%s, run %d with %s\n%s\nmolecules %s" % (S.SCRIPT[kind][0], k, s, text, mol)
            if k > 0 and "files_exist" not in done:
                break
            missing = [q for q in s if q not in done and q not in ("species_initial_conc['O3']", "species_initial_conc['APINENE']")]
            if missing:
                ctx.label("settings not found in the script: %s" % ", ".join(missing))
                return
            inp, index = view(args)
            H = "".join(["H2", "O"])
            if index.get(H) != n:
                fail("water has number %s among %d gas species\n%s", index.get(H), n, info)
            gas = {x: i for x, i in index.items() if x != H and i < n}
            if sorted(gas.values()) != list(range(n)) or (kind == "aerosol" and set(gas) != {names[i] for i in used}) or (kind == "yield" and set(gas) != set(mol)):
                fail("the run's species are %s\n%s", gas, info)
            T, RH = s["temp"], s["RH"]
            meth = (s["vp_method"], s["bp_method"], s["critical_method"], s["density_method"])
            with np.errstate(all="ignore"):
                pr = {gas[x]: props.expected(props.mol(smi), T, *meth) for x, smi in mol.items()}
            inc = sorted(i for i, (_, _, vp) in pr.items() if not (s["ignore_vp"] and vp > s["vp_cutoff"]))
            nb, nc = s["num_bins"], len(inc) + 1
            radius = np.exp(np.log(s["lowersize"]) + (np.log(s["uppersize"]) - np.log(s["lowersize"])) * np.arange(nb) / (nb - 1))
            w = np.exp(-np.log(radius / s["meansize"]) ** 2 / (2 * np.log(s["std"]) ** 2)) / radius
            N = w / w.sum() * s["total_conc"]
            mw = np.array([pr[i][1] for i in inc] + [18.0])
            D = 1.9 * mw ** (-2 / 3)
            speed = np.sqrt(8 * 8.3144598 * T / (np.pi * mw * 1e-3))
            state = {"radius": list(radius * 1e-6), "N": list(N), "x": [[0.0] * nc] * nb, "rho_core": [1770.0] * nb, "mw_core": 132.14, "core_diss": 3.0, "rho": [pr[i][0] for i in inc] + [1000.0], "mw": list(mw),
                     "psat": [10 ** pr[i][2] for i in inc] + [1.0], "D": list(D), "alpha": [0.1] * nc, "gamma": list(3 * D * 1e-4 / speed), "gas": [0.0] * (n + 1), "sigma": 72e-3, "T": T, "NA": NA, "R": 8.3144598}
            case = {"prog": {"n": n + 1, "inc": inc + [n], "bins": nb}, "s": state, "size": n + 1 + nc * nb}
            check_settings(args, s, done, info)
            history(rec, s, done, args)
            y0 = rec.calls[0]["y0"]
            if len(y0) != case["size"]:
                fail("the state has %d entries; %d gas species with water, %d condensing and %d bins make %d\n%s", len(y0), n + 1, nc, nb, case["size"], info)
            want, tol = np.zeros(case["size"]), np.full(case["size"], 1e-9)
            core = 4 / 3 * np.pi * (radius * 1e-6) ** 3 * 1770.0 / 132.14e-3 * NA * N
            for b in range(nb):
                want[n + 1 + (b + 1) * nc - 1] = core[b] * 3.0 * RH / (1 - RH)
            want[n], tol[n] = water(RH, T), 0.015
            h2o = y0[n]
            if kind == "aerosol":
                for sp, dflt in (("O3", 18.0), ("APINENE", 30.0)):
                    want[gas[sp]] = setting(s, done, "species_initial_conc['%s']" % sp, inp["species_initial_conc"].get(sp, dflt)) * 2.55e10
            else:
                for x, v in c["lines"]:
                    want[gas[x]] = v * s["total_voc_mass"] * T / (12.187 * s["voc_mw"]) * 2.46e10
            bad = ~(abs(y0 - want) <= tol * want)
            if bad.any():
                i = int(np.argmax(bad))
                fail("entry %d of the initial state is %r, expected %r (gas species %s, then %d bins of %s and water)\n%s", i, y0[i], want[i], gas, nb, inc, info)
            if kind == "aerosol":
                if not abs(float(args["H2O"]) - h2o) <= 1e-9 * h2o:
                    fail("water in the rate coefficients is %r, in the gas phase %r", args["H2O"], h2o)
                with _elsewhere(ctx):
                    rates = gen.fortran_rates(gen.Parsed(text))
                ref = Ref(m, SimpleNamespace(index=gas, n_eq=inp["equations"], n_sp=n))
                ro2 = [gas[names[i]] for i in used if names[i] in RO2SET]
                start = s["hour_of_day"] * 3600.0
            for call in rec.calls:
                for ev in call["evals"]:
                    y = ev["y"]
                    ct = cm = np.zeros(0)
                    if kind == "aerosol":
                        with np.errstate(all="ignore"):
                            a = (float(y[ro2].sum()) if ro2 else 0.0, float(args["H2O"]), T)
                            tod = start + ev["elapsed"]
                            kc, near = np.array(rates(tod, *a)), np.array(rates(tod * (1 + 1e-14) + 1e-9, *a))
                            r = ref.reactants(y[:n])
                            ct, cm = ref.dydt(kc * r)
                            cm = 2e-5 * cm + 10 * ref.dydt(abs(near - kc) * r)[1]
                    if aero.check_eval(case, ev, T, ct, cm, 1e-6, info, fail) is None:
                        ctx.label("overflow skipped")
            ctx.label("files reused", k > 0)
            ctx.label("limit in force", s["ignore_vp"])
            ctx.label("nothing condenses", nc == 1)
            some = some or (nc > 2 or (nc > 1 and nc - 1 < n))
    ctx.nontrivial = some and nb >= 2


PARTS = [Part("aerosol", lambda: case_("aerosol"), run, quick=240, thorough=5000, budget=(120, 500)),
         Part("fixed", lambda: case_("yield"), run, quick=320, thorough=8000, budget=(90, 400))]
