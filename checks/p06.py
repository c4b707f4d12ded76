"""P06: photolysis over the day."""
import math
import os

from hypothesis import strategies as st

from pbx import gen, rates as R
from pbx.core import Part, fail

RULE = ("one mechanism that uses every J(n) alone is generated in each language (once per worker); each case is a list of times of up to 10 days and a number of "
        "days k; all 36 photolysis rates are compared with the parameterisation within a propagated rounding bound, with zero at night, and with the "
        "rates k days later; non-trivial: the case has a time with the sun up")
ASSUMPTIONS = ["the model day, latitude and longitude are the ones the code documents (30 May, 51.51 N, 0.13 E)",
               "times at which rounding alone decides whether the sun is up are skipped"]
TIMES = st.fixed_dictionaries({
    "times": st.lists(st.one_of(st.floats(0, 86400), st.floats(0, 864000), st.integers(0, 240).map(lambda h: h * 3600.0)), min_size=1, max_size=6),
    "days": st.integers(1, 9), "temp": st.floats(250, 330)})
_cache = {}


def run(case, ctx, make, u, what, single):
    key = (what, os.getpid())
    if key not in _cache:
        text = "".join("{%d.} A + hv = B : J(%d) ;\n" % (i + 1, n) for i, n in enumerate(R.J_DEFINED))
        with ctx.scratch():
            _cache[key] = make(gen.Parsed(text))
    f = _cache[key]
    for t in case["times"]:
        ref, cx = R.photolysis_mcm(t, single)
        got = [float(x) for x in f(t, 1e9, 1e17, case["temp"])]
        for n, g in zip(R.J_DEFINED, got):
            if not (math.isfinite(g) and g >= 0):
                fail("%s J(%d) at %r s is %r", what, n, t, g)
        if R.dusk(cx, u):
            ctx.label("dusk skipped")
            continue
        ctx.label("sun up" if cx.v > 0 else "sun down")
        ctx.nontrivial |= cx.v > 0
        for n, g in zip(R.J_DEFINED, got):
            if cx.v <= 0 and g != 0:
                fail("%s J(%d) at %r s is %r with the sun below the horizon (cos z = %.4g)", what, n, t, g, cx.v)
            if not R.agrees(g, ref[n], u):
                fail("%s J(%d) at %r s: got %r, the parameterisation gives %r (cos z = %.6g)", what, n, t, g, ref[n].v, cx.v)
        later = f(t + 86400.0 * case["days"], 1e9, 1e17, case["temp"])
        for n, g, h in zip(R.J_DEFINED, got, later):
            if abs(float(h) - g) > 8 * 40 * u * (ref[n].e + 1e-12 * ref[n].v):
                fail("%s J(%d) at %r s: %r, and %r %d days later", what, n, t, g, float(h), case["days"])


PARTS = [Part("python", lambda: TIMES, lambda c, x: run(c, x, gen.numba_rates, R.U_DOUBLE, "Python", False), quick=2000, thorough=60000, budget=(60, 400)),
         Part("jit", lambda: TIMES, lambda c, x: run(c, x, lambda p: gen.numba_rates(p, True), R.U_DOUBLE, "compiled Python", False), quick=400, thorough=20000, budget=(60, 300)),
         Part("fortran", lambda: TIMES, lambda c, x: run(c, x, gen.fortran_rates, R.U_SINGLE, "Fortran", True), quick=2000, thorough=60000, budget=(60, 400))]
