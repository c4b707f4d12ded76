"""A generated aerosol case for the drivers that partition: sizes, state and the input dictionary they unpack."""
import numpy as np
from hypothesis import strategies as st

from checks import chem, drv
from pbx import part as T

CONST = {"Updraft": 0.0, "GRAV": 9.8, "Rv": 461.0, "Ra": 287.0, "R_gas": 8.3144598, "R_gas_other": 8.2057e-5, "cp": 1005, "kb": 1.380648e-23, "Lv_water_vapour": 2.5e3}


@st.composite
def aerosol(draw, n_gas, every=False, max_bins=4):
    """n_gas gas species without water."""
    inc = list(range(n_gas)) if every else sorted(draw(st.sets(st.integers(0, n_gas - 1), max_size=n_gas)))
    bins = draw(st.integers(5, 40)) if max_bins > 3 and draw(st.integers(0, 9)) == 0 else draw(st.integers(1, max_bins))
    prog = {"n": n_gas + 1, "inc": inc + [n_gas], "bins": bins}
    size = prog["n"] + len(prog["inc"]) * prog["bins"]
    s = draw(T.state(prog))
    s["psat_given"] = draw(st.floats(-3, 1))  # what the front end put there for water; the solver works it out from the temperature
    nc = len(prog["inc"])
    k = prog["n"] + nc * min(bins, 4)
    long = lambda v: v + [v[-nc * 3 + i % (nc * 3)] * (1 + 0.001 * (i + 1)) for i in range(size - len(v))]  # noqa: E731
    top = draw(st.sampled_from([9, 9, 9, 15]))
    y_cond = draw(chem.values(nc * min(bins, 4), -3, top - 1))
    return {"prog": prog, "s": s, "size": size, "y_cond": y_cond + [y_cond[i % len(y_cond)] * (1 + 0.001 * (i + 1)) for i in range(nc * bins - len(y_cond))], "ends": [long(e) for e in draw(drv.states(k, 2, -3, top))],
            "probes": [[f, long(y)] for f, y in draw(st.lists(st.tuples(st.floats(0, 1), chem.values(k, -3, top)), min_size=1, max_size=3))], "aslist": draw(st.booleans())}


def water_atm(T_):
    """Saturation vapour pressure of water (Hyland and Wexler), in atm as PyBox converts it."""
    p = np.exp(-5800.2206 / T_ + 1.3914993 - 4.8640239e-2 * T_ + 4.1764768e-5 * T_ ** 2 - 1.4452093e-8 * T_ ** 3 + 6.5459673 * np.log(T_))
    return p * 9.86923e-6


def input_dict(c):
    prog, s = c["prog"], T.fill(c["prog"], c["s"])
    a = T.arrays(prog, s)
    nc = len(prog["inc"])
    d = dict(CONST)
    vp = [float(v) for v in np.log10(s["psat"][:-1])] + [s["psat_given"]]
    d.update({"num_species": prog["n"], "num_species_condensed": nc, "y_density_array_asnumpy": np.array(s["rho"]), "y_mw": np.array(s["mw"]), "sat_vp": vp,
              "Delta_H": [0.0] * nc, "Latent_heat_asnumpy": np.zeros(nc), "DStar_org_asnumpy": np.array(s["D"]), "alpha_d_org_asnumpy": np.array(s["alpha"]), "gamma_gas_asnumpy": np.array(s["gamma"]),
              "sigma": s["sigma"], "NA": s["NA"], "ignore_index": [i for i in range(prog["n"] - 1) if i not in prog["inc"]], "ignore_index_fortran": np.array([float(i not in prog["inc"]) for i in range(prog["n"])]),
              "ycore_asnumpy": np.array(a["ycore"]), "core_density_array_asnumpy": np.array(s["rho_core"]), "y_cond_initial": list(c["y_cond"]), "num_bins": prog["bins"],
              "core_molw_asnumpy": np.full(prog["bins"], s["mw_core"]), "core_dissociation": s["core_diss"], "N_perbin": np.array(s["N"]), "include_index": list(prog["inc"])})
    return d


def theory_args(c, y, temp):
    """Arguments of the reference for a state, stated from the case alone."""
    a = T.arrays(c["prog"], c["s"])
    a["y"] = np.array(y, float)
    a["Model_temp"] = temp
    a["Psat"] = np.append(10.0 ** np.log10(T.fill(c["prog"], c["s"])["psat"][:-1]), water_atm(temp))
    a["R_gas"] = CONST["R_gas"]
    return a


def theory(c, y, temp):
    a = theory_args(c, y, temp)
    prog = c["prog"]
    Cg = a["y"][:prog["n"]][prog["inc"]]
    return T.theory(prog, a, Cg)


def tendency(c, flux, scale):
    prog = c["prog"]
    n, nc = prog["n"], len(prog["inc"])
    t, m = np.zeros(c["size"]), np.zeros(c["size"])
    t[n:] = flux.reshape(-1)
    m[n:] = scale.reshape(-1)
    for j, i in enumerate(prog["inc"]):
        t[i] = -flux[:, j].sum()
        m[i] = scale[:, j].sum()
    return t, m


def stub_partition(c):
    """The compiled partitioning code's interface on top of the reference."""
    prog = c["prog"]
    n, nc, nb = prog["n"], len(prog["inc"]), prog["bins"]
    shapes = {"y": (c["size"],), "ycore": (nb,), "core_mass_array": (nb,), "density_input": (nc,), "core_density_array": (nb,), "ignore_index": (n,), "mw_array": (nc,), "Psat": (nc,), "DStar_org": (nc,),
              "alpha_d_org": (nc,), "C_g_i_t": (nc,), "N_perbin": (nb,), "gamma_gas": (nc,), "Latent_heat": (nc,)}

    def dydt_partition(*args, **kw):
        low = {k.lower(): k for k in T.ORDER}
        a = dict(zip(T.ORDER, args))
        for k, v in kw.items():
            a[low[k]] = v
        if set(a) != set(T.ORDER):
            raise TypeError("dydt_partition: arguments %s missing" % sorted(set(T.ORDER) - set(a)))
        for k in T.ORDER:
            a[k] = np.array(a[k], dtype=float)
            if k in shapes and a[k].shape != shapes[k]:
                raise ValueError("dydt_partition: %s has shape %s, expected %s" % (k, a[k].shape, shapes[k]))
            if k not in shapes and a[k].shape not in ((), (1,)):
                raise ValueError("dydt_partition: %s has shape %s" % (k, a[k].shape))
        flux, scale, size, aw, mass = T.theory(prog, a, a["C_g_i_t"])
        t, _ = tendency(c, flux, scale)
        return mass, aw, size, t
    return dydt_partition


def check_eval(c, ev, temp, chem_t, chem_m, tol, info, fail):
    """One recorded evaluation against chemistry plus partitioning."""
    with np.errstate(all="ignore"):
        flux, scale, size, aw, mass = theory(c, ev["y"], temp)
    if not np.isfinite(scale).all() or not np.isfinite(chem_m).all():
        return None
    t, m = tendency(c, flux, scale)
    want = t.copy()
    want[:len(chem_t)] += chem_t
    mag = m * max(tol, 1e-6)
    mag[:len(chem_t)] += chem_m
    bad = ~(abs(ev["dydt"] - want) <= mag + 1e-300)
    if bad.any():
        i = int(np.argmax(bad))
        n = c["prog"]["n"]
        what = "gas species %d" % i if i < n else "condensing species %d in bin %d" % ((i - n) % len(c["prog"]["inc"]), (i - n) // len(c["prog"]["inc"]))
        fail("tendency of %s is %r, expected %r (%d of %d differ; %s)", what, ev["dydt"][i], want[i], int(bad.sum()), len(want), info)
    with np.errstate(all="ignore"):
        scale = theory(c, abs(np.array(ev["y"], float)), temp)[4]
    return size, mass, scale
