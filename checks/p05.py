"""P05: generic rate coefficients."""
import os

from hypothesis import strategies as st

from pbx import gen, rates as R
from pbx.core import Part, fail

RULE = ("one mechanism that uses every named coefficient alone is generated in each language (once per worker); each case is a list of temperatures and "
        "humidities at which all 36 coefficients are compared with the published formulas within a propagated rounding bound; non-trivial: the "
        "temperature is not 300 K and the humidity not zero in some entry, so that every term of every formula counts")
ASSUMPTIONS = ["the reference formulas are MCM v3 / IUPAC as PyBox documents them (M fixed at 2.55e19); KBPPN with the plain broadening factor 0.36"]
NAMES = R.CONSTANTS + ["M", "N2", "O2"]

ENVS = st.lists(st.fixed_dictionaries({
    "temp": st.one_of(st.floats(200, 340), st.sampled_from([298.15, 300.0, 273.15])),
    "h2o": st.one_of(st.just(0.0), st.floats(0, 1e18), st.floats(0, 6e18)),
    "ttime": st.floats(0, 2e5), "ro2": st.floats(0, 1e12)}), min_size=1, max_size=6)
_cache = {}


def _text(order):
    return "".join("{%d.} A = B : %s ;\n" % (i + 1, n) for i, n in enumerate(order))


def run(case, ctx, make, u, what):
    if what == "plain Python" and not (hasattr(gen.P(), "write_rate_file") and hasattr(gen.C(), "convert_rate_mcm")):
        ctx.label("no plain Python writer")
        return
    key = (what, os.getpid())
    if key not in _cache:
        with ctx.scratch():
            _cache[key] = make(gen.Parsed(_text(NAMES)))
    f = _cache[key]
    for env in case:
        env = dict(env, ttime=43200.0) if what == "plain Python" else env
        c = R.constants(env["temp"], env["h2o"])
        got = f(env["ttime"], env["ro2"], env["h2o"], env["temp"])
        for n, g in zip(NAMES, got):
            if not R.agrees(float(g), c[n], u):
                fail("%s %s at %s: got %r, the formula gives %r", what, n, env, float(g), c[n].v)
    ctx.nontrivial = any(e["temp"] != 300 and e["h2o"] > 0 for e in case)
    ctx.label("below 250 K", any(e["temp"] < 250 for e in case))
    ctx.label("dry", any(e["h2o"] == 0 for e in case))


PARTS = [Part("python", lambda: ENVS, lambda c, x: run(c, x, gen.numba_rates, R.U_DOUBLE, "Python"), quick=2000, thorough=60000, budget=(60, 400)),
         Part("jit", lambda: ENVS, lambda c, x: run(c, x, lambda p: gen.numba_rates(p, True), R.U_DOUBLE, "compiled Python"), quick=800, thorough=30000, budget=(60, 300)),
         # The plain Python writer, which no script calls; its photolysis rates are those of another day and are left out.
         Part("plain python", lambda: ENVS, lambda c, x: run(c, x, gen.numpy_rates, R.U_DOUBLE, "plain Python"), quick=800, thorough=20000, budget=(40, 200)),
         Part("fortran", lambda: ENVS, lambda c, x: run(c, x, gen.fortran_rates, R.U_SINGLE, "Fortran"), quick=2000, thorough=60000, budget=(60, 400))]
