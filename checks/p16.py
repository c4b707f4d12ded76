"""P16: the lognormal size distribution."""
import numpy as np
from hypothesis import strategies as st

from pbx import gen
from pbx.core import Part, fail, quiet, sut

RULE = ("bins, total number, median, spread and limits are drawn; sizes and numbers are compared with the definition; non-trivial: at least three bins and at least three bins hold "
        "more than a thousandth of the total")
ASSUMPTIONS = ["lower limit below upper limit, spread above 1, and the density is not zero in floating point in every bin"]


@st.composite
def case_(draw):
    lo = draw(st.one_of(st.floats(0.001, 1.0), st.floats(1e-4, 0.01)))
    hi = lo * draw(st.floats(1.2, 2000.0))
    mean = draw(st.one_of(st.floats(lo, hi), st.floats(lo / 3, hi * 3)))
    return {"bins": draw(st.one_of(st.integers(2, 20), st.integers(2, 20), st.integers(1, 200), st.integers(2, 1000))), "total": draw(st.one_of(st.integers(1, 10000), st.floats(1e-3, 1e6))), "mean": mean,
            "std": draw(st.one_of(st.floats(1.05, 4.0), st.floats(1.01, 12.0), st.sampled_from([2, 2.2, 3]))), "lo": lo, "hi": hi}


def run(c, ctx):
    x = np.exp(np.log(c["lo"]) + (np.log(c["hi"]) - np.log(c["lo"])) * np.arange(c["bins"]) / max(c["bins"] - 1, 1))
    s = np.log(c["std"])
    e = -(np.log(x / c["mean"])) ** 2 / (2 * s * s)
    if e.max() < -600:
        ctx.label("density underflows")
        return
    w = np.exp(e - e.max()) / x
    n = w / w.sum() * c["total"]
    with sut("lognormal"), quiet(), np.errstate(all="ignore"):
        gn, gx = gen.repo_module("Size_distributions", "Aerosol/Size_distributions.py").lognormal(c["bins"], c["total"], c["mean"], c["std"], c["lo"], c["hi"])
        gn, gx = np.array(gn, float), np.array(gx, float)
    if gx.shape != (c["bins"],) or gn.shape != (c["bins"],):
        fail("shapes %s and %s for %d bins", gn.shape, gx.shape, c["bins"])
    if c["bins"] == 1:  # where in the range a single bin lies is not laid down
        if not (c["lo"] * (1 - 1e-9) <= gx[0] <= c["hi"] * (1 + 1e-9) and abs(gn[0] - c["total"]) <= 1e-9 * c["total"]):
            fail("the only bin holds %r of %r at %r, limits %r and %r", gn[0], c["total"], gx[0], c["lo"], c["hi"])
        return
    if not np.allclose(gx, x, rtol=1e-10, atol=0):
        i = int(np.argmax(abs(gx / x - 1)))
        fail("size of bin %d is %r, expected %r", i, gx[i], x[i])
    if not (gn >= 0).all():
        fail("negative or undefined number: %s", gn)
    if not abs(gn.sum() - c["total"]) <= 1e-9 * c["total"]:
        fail("numbers sum to %r, asked for %r", gn.sum(), c["total"])
    tol = 1e-10 * (1 + abs(e)) * 10
    bad = ~(abs(gn - n) <= tol * n) & (e > -600)  # further out the density is subnormal
    if bad.any():
        i = int(np.argmax(bad))
        fail("number in bin %d (size %r) is %r, expected %r", i, x[i], gn[i], n[i])
    ctx.nontrivial = c["bins"] >= 3 and (n > c["total"] / 1000).sum() >= 3


PARTS = [Part("lognormal", case_, run, quick=6000, thorough=200000, budget=(60, 500))]
