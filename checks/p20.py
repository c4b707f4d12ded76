"""P20: partitioning conserves every species."""
import numpy as np

from checks.part import case_, prepared
from pbx import part as T
from pbx.core import Part, fail

RULE = ("number of bins and gas species, the list of condensing species and states are drawn; the partitioning code is written and compiled for them and evaluated; gas loss must equal the gain "
        "summed over bins, and the rest must be zero; non-trivial: at least two bins, two condensing species, and a net flux that is not zero")
ASSUMPTIONS = ["the index list is sorted and ends with water, as the front ends build it"]


def run(c, ctx, full=False):
    prog = c["prog"]
    n, nc, nb = prog["n"], len(prog["inc"]), prog["bins"]
    with ctx.scratch():
        f = T.build(prog, full)
        for s in c["states"]:
            a, mask = prepared(prog, s)
            _, _, _, dy = T.call(f, a)
            if dy.shape != (n + nc * nb,):
                fail("tendency has shape %s", dy.shape)
            part = dy[n:].reshape(nb, nc)
            for j, i in enumerate(prog["inc"]):
                gain, turn = part[:, j].sum(), abs(part[:, j]).sum()
                if not abs(dy[i] + gain) <= 1e-12 * turn + 1e-300:
                    fail("gas species %d loses %r, the bins gain %r (%s)", i, -dy[i], gain, list(part[:, j]))
            for i in range(n):
                if i not in prog["inc"] and dy[i] != 0:
                    fail("gas species %d does not condense and has tendency %r", i, dy[i])
            if mask is not None and (part[:, mask] != 0).any():
                fail("masked species have particle tendencies %s", part[:, mask])
            if not np.isfinite(dy).all():
                fail("tendencies are not finite: %s", list(dy))
            ctx.label("over 6 bins", nb > 6)
            ctx.label("some species do not condense", nc < n)
            ctx.nontrivial = ctx.nontrivial or (nb >= 2 and nc >= 2 and bool((part != 0).any()))


PARTS = [Part("index list", lambda: case_(), run, quick=500, thorough=16000, budget=(80, 500)),
         Part("mask", lambda: case_(True), lambda c, x: run(c, x, True), quick=150, thorough=4000, budget=(60, 250))]
