"""P21: droplet-growth fluxes."""
import numpy as np

from checks.part import case_, prepared
from pbx import part as T
from pbx.core import Part, fail

RULE = ("as P20, and every flux, size, water activity and the organic mass are compared with a reference that states the theory, for states with dry radii from 1 nm to 10 um, dry and wet, some "
        "exactly at equilibrium; parts many bins and repeat run the OpenMP loop over many bins several times; non-trivial: at least two bins whose sizes differ and two condensing species in the particle")
ASSUMPTIONS = ["every bin holds core material and particles, as the front ends set up", "tolerance 1e-6 of the gross flux, as pi is written in single precision, times the Kelvin exponent's sensitivity"]


def run(c, ctx, full=False, repeat=1):
    prog = c["prog"]
    n, nc, nb = prog["n"], len(prog["inc"]), prog["bins"]
    with ctx.scratch():
        f = T.build(prog, full)
        for s in c["states"]:
            a, mask = prepared(prog, s)
            with np.errstate(all="ignore"):
                flux, scale, size, aw, mass = T.theory(prog, a, a["C_g_i_t"], mask)
            if not np.isfinite(scale).all():
                ctx.label("overflow skipped")
                continue
            for _ in range(repeat):
                m, gaw, gs, dy = T.call(f, a)
                for what, g, w, tol in (("size", gs, size, 1e-6 * size), ("water activity", gaw, aw, 1e-9 * aw)):
                    if not (abs(g - w) <= tol + 1e-300).all():
                        b = int(np.argmax(~(abs(g - w) <= tol + 1e-300)))
                        fail("%s of bin %d is %r, expected %r", what, b, g[b], w[b])
                if not abs(m - mass) <= 1e-9 * mass + 1e-300:
                    fail("organic mass is %r, expected %r", m, mass)
                got = dy[n:].reshape(nb, nc)
                bad = ~(abs(got - flux) <= 1e-6 * scale + 1e-300)
                if bad.any():
                    b, j = (int(v) for v in np.argwhere(bad)[0])
                    fail("flux of condensing species %d (gas %d) to bin %d is %r, theory says %r (%d of %d differ)\n%s", j, prog["inc"][j], b, got[b, j], flux[b, j], int(bad.sum()), bad.size, s)
                gas = np.zeros(n)
                gs_ = np.zeros(n)
                for j, i in enumerate(prog["inc"]):
                    gas[i] = -flux[:, j].sum()
                    gs_[i] = scale[:, j].sum()
                bad = ~(abs(dy[:n] - gas) <= 1e-6 * gs_ + 1e-300)
                if bad.any():
                    i = int(np.argmax(bad))
                    fail("tendency of gas species %d is %r, theory says %r", i, dy[i], gas[i])
            ctx.label("at equilibrium", bool(((abs(flux) < 1e-9 * scale) & (scale > 0)).any()))
            ctx.label("evaporating", bool((flux < 0).any()))
            ctx.label("condensing", bool((flux > 0).any()))
            ctx.nontrivial = ctx.nontrivial or (nb >= 2 and len(set(size)) > 1 and nc >= 2)


PARTS = [Part("index list", lambda: case_(), run, quick=500, thorough=16000, budget=(80, 500)),
         Part("mask", lambda: case_(True), lambda c, x: run(c, x, True), quick=150, thorough=3000, budget=(60, 200)),
         Part("many bins", lambda: case_(max_bins=64, max_gas=4, states=1), lambda c, x: run(c, x, False, 6), quick=60, thorough=1500, workers=4, budget=(60, 200))]
