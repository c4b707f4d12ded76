"""Partitioning: generated programs, states, and the droplet-growth reference."""
import numpy as np
from hypothesis import strategies as st

from pbx import gen
from pbx.core import fail, quiet, sut

RHO, MWC = 1770.0, 132.14


def mag(lo, hi):
    return st.tuples(st.floats(1, 9.99), st.integers(lo, hi - 1)).map(lambda t: round(t[0], 4) * 10.0 ** t[1])


@st.composite
def program(draw, max_bins=6, max_gas=7):
    """Sizes of the generated code: gas species (water last), which of them condense, bins."""
    if draw(st.integers(0, 4)) == 0:  # many gases of which few condense
        n = draw(st.integers(8, 60))
        inc = sorted(draw(st.sets(st.integers(0, n - 1), max_size=6)))
        return {"n": n + 1, "inc": inc + [n], "bins": draw(st.integers(1, min(3, max_bins)))}
    if max_gas > 6 and draw(st.integers(0, 11)) == 0:  # hundreds of condensing species
        n = draw(st.integers(100, 420))
        away = draw(st.sets(st.integers(0, n - 1), max_size=5))
        return {"n": n + 1, "inc": [i for i in range(n) if i not in away] + [n], "bins": draw(st.integers(1, min(3, max_bins)))}
    n = draw(st.integers(1, max_gas))
    inc = sorted(draw(st.sets(st.integers(0, n - 1), max_size=n)))
    if max_bins > 1 and draw(st.integers(0, 7)) == 0:  # a finely resolved distribution
        return {"n": n + 1, "inc": inc + [n], "bins": draw(st.integers(7, 80))}
    return {"n": n + 1, "inc": inc + [n], "bins": draw(st.integers(1, max_bins))}


@st.composite
def state(draw, prog):
    # Further bins, condensing species and gases repeat the drawn ones, see fill.
    nc, nb, n = min(len(prog["inc"]), 12), min(prog["bins"], 6), min(prog["n"], 12)
    frac = st.one_of(mag(-6, 1), mag(-6, 1), st.just(0.0))
    pos = lambda s, k: draw(st.lists(s, min_size=k, max_size=k))  # noqa: E731
    return {"radius": pos(mag(-9, -5), nb), "N": pos(mag(-2, 4), nb), "x": [pos(frac, nc) for _ in range(nb)],
            "rho_core": pos(st.one_of(st.just(1770.0), st.floats(900, 2500)), nb), "mw_core": draw(st.one_of(st.just(132.14), st.floats(20, 400))),
            "core_diss": draw(st.sampled_from([1.0, 3.0, 2.0, 2.7])),
            "rho": pos(st.floats(700, 2000), nc - 1) + [1000.0], "mw": pos(st.floats(15, 500), nc - 1) + [18.0],
            "psat": pos(mag(-16, 0), nc - 1) + [draw(mag(-3, 0))],
            "D": pos(mag(-2, 1), nc), "alpha": pos(st.one_of(st.just(0.1), st.just(1.0), st.floats(0.01, 1)), nc), "gamma": pos(mag(-8, -6), nc),
            "gas": pos(st.one_of(mag(0, 12), mag(0, 12), st.just(0.0)), n), "sat": pos(st.sampled_from(["free", "free", "free", "at equilibrium"]), nc),
            "sigma": draw(st.one_of(st.just(72e-3), st.floats(0.02, 0.09))), "T": draw(st.floats(230, 330)), "NA": 6.0221409e+23, "R": 8.3144598}


def fill(prog, s):
    """A state with values for every bin and species; those beyond the drawn ones differ from them by small factors."""
    nb, nc, n, k = prog["bins"], len(prog["inc"]), prog["n"], len(s["radius"])
    kc, kn = len(s["mw"]), len(s["gas"])
    if nc > kc or n > kn:
        col = [j % (kc - 1) for j in range(nc - 1)] + [kc - 1]  # water stays last
        g = [1.0 + 0.003 * (j // kc) for j in range(nc - 1)] + [1.0]
        h = [1.0 + 0.003 * (i // kn) for i in range(n)]
        s = dict(s, x=[[row[c] * f for c, f in zip(col, g)] for row in s["x"]], gas=[s["gas"][i % kn] * h[i] for i in range(n)], sat=[s["sat"][c] for c in col],
                 **{q: [s[q][c] * f for c, f in zip(col, g)] for q in ("rho", "mw", "psat", "D", "gamma")}, alpha=[s["alpha"][c] / f for c, f in zip(col, g)])
    if nb > k:
        f = [1.0 + 0.01 * (b // k) for b in range(nb)]
        s = dict(s, radius=[s["radius"][b % k] * f[b] for b in range(nb)], N=[s["N"][b % k] * f[b] for b in range(nb)], x=[[v * f[b] for v in s["x"][b % k]] for b in range(nb)],
                 rho_core=[s["rho_core"][b % k] for b in range(nb)])
    return s


def arrays(prog, s):
    """Physical state -> the arguments of the generated subroutine."""
    s = fill(prog, s)
    nb = prog["bins"]
    r, N = np.array(s["radius"]), np.array(s["N"])
    core = 4.0 / 3.0 * np.pi * r ** 3 * np.array(s["rho_core"]) / (s["mw_core"] * 1e-3) * s["NA"] * N
    y = np.concatenate([np.array(s["gas"])] + [np.array(s["x"][b]) * core[b] for b in range(nb)])
    d = {"y": y, "ycore": core, "core_diss": s["core_diss"], "core_mass_array": core / s["NA"] * s["mw_core"], "density_input": np.array(s["rho"]),
         "core_density_array": np.array(s["rho_core"]), "ignore_index": np.zeros(prog["n"]), "mw_array": np.array(s["mw"]), "Psat": np.array(s["psat"]), "DStar_org": np.array(s["D"]),
         "alpha_d_org": np.array(s["alpha"]), "C_g_i_t": None, "N_perbin": N, "gamma_gas": np.array(s["gamma"]), "Latent_heat": np.zeros(len(prog["inc"])), "GRAV": 9.8, "Updraft": 0.0,
         "sigma": s["sigma"], "NA": s["NA"], "kb": 1.380648e-23, "Rv": 461.0, "R_gas": s["R"], "Model_temp": s["T"], "cp": 1005, "Ra": 287.0, "Lv_water_vapour": 2.5e3}
    return d


ORDER = ["y", "ycore", "core_diss", "core_mass_array", "density_input", "core_density_array", "ignore_index", "mw_array", "Psat", "DStar_org", "alpha_d_org", "C_g_i_t", "N_perbin",
         "gamma_gas", "Latent_heat", "GRAV", "Updraft", "sigma", "NA", "kb", "Rv", "R_gas", "Model_temp", "cp", "Ra", "Lv_water_vapour"]


def theory(prog, a, Cg, mask=None):
    """Per bin and condensing species: flux, its rounding scale; per bin: size, water activity; total mass."""
    nb, nc, n = prog["bins"], len(prog["inc"]), prog["n"]
    y = np.asarray(a["y"], float)
    flux, scale = np.zeros((nb, nc)), np.zeros((nb, nc))
    size, aw = np.zeros(nb), np.zeros(nb)
    mass = 0.0
    for b in range(nb):
        c = y[n + b * nc:n + (b + 1) * nc]
        moles = c.sum() + a["ycore"][b] * a["core_diss"]
        x = c / moles
        if mask is not None:
            x = np.where(mask, 0.0, x)
        m = np.append(c / a["NA"] * a["mw_array"], a["core_mass_array"][b])
        vol = (m / np.append(a["density_input"], a["core_density_array"][b])).sum()  # g/cc over kg/m3
        rho = m.sum() / vol
        size[b] = (3 * (vol * 1e3) / (a["N_perbin"][b] * 1e6) / (4 * np.pi)) ** (1 / 3.0)
        aw[b] = c[-1] / moles
        mass += m[:nc - 1].sum()
        kn = a["gamma_gas"] / size[b]
        corr = 1 / (1 + ((1.33 + 0.71 / kn) / (1 + 1 / kn) + 4 * (1 - a["alpha_d_org"]) / (3 * a["alpha_d_org"])) * kn)
        ke = 4 * a["mw_array"] * 1e-3 * a["sigma"] / (a["R_gas"] * a["Model_temp"] * size[b] * 2 * rho)
        eq = np.exp(ke) * x * a["Psat"] * 101325.0 * a["NA"] / (8.3144598e6 * a["Model_temp"])
        k = 4 * np.pi * size[b] * 1e2 * a["N_perbin"][b] * a["DStar_org"] * corr
        flux[b] = k * (Cg - eq)
        scale[b] = k * (abs(Cg) + abs(eq) * (1 + ke))
    return flux, scale, size, aw, mass * 1e12


def equilibrium(prog, a, b=0):
    """Gas concentrations at which bin b is at equilibrium."""
    f, _, _, _, _ = theory(prog, a, np.zeros(len(prog["inc"])))
    g, _, _, _, _ = theory(prog, a, np.ones(len(prog["inc"])))
    k = g[b] - f[b]
    return -f[b] / k


def build(prog, full=False, flags=None):
    nc, nb, n = len(prog["inc"]), prog["bins"], prog["n"]
    with sut("writing Partitioning.f90"), quiet():
        if full:
            gen.P().write_partitioning_section_fortran(n + n * nb, nb, n)
        else:
            gen.P().write_partitioning_section_fortran_ignore(n + nc * nb, nb, n, nc, list(prog["inc"]))
    return gen.Fortran("Partitioning.f90", "dydt_partition", flags)


def call(f, a):
    """(total mass, water activities, sizes, tendencies), by the names the subroutine gives them."""
    got = f(*[a[k] for k in ORDER])
    out = dict(zip(f.outputs, got))
    try:
        return out["total_soa_mass"], out["aw_array"], out["size_array"], out["dy_dt"]
    except KeyError:
        if isinstance(got, tuple) and len(got) == 4:  # the drivers unpack by position
            return got
        fail("dydt_partition gives %s", f.outputs)
