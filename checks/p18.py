"""P18: transport properties."""
import numpy as np
from hypothesis import strategies as st

from pbx import props
from pbx.core import Part, fail, quiet, sut

RULE = ("molar masses, temperature and gas constant are drawn; every array is compared with the kinetic theory formula; non-trivial: two different molar masses")
ASSUMPTIONS = ["D = 1.9 M^(-2/3) cm2/s, c = sqrt(8RT/(pi M)) and mean free path 3D/c are the documented formulas"]


def case_():
    return st.fixed_dictionaries({"mw": st.lists(st.one_of(st.floats(10, 1000), st.just(18.0), st.floats(10, 400)), min_size=1, max_size=40),
                                  "temp": st.floats(200, 350), "R": st.sampled_from([8.3144598, 8.314, 8.31446]), "array": st.booleans(),
                                  "times": st.sampled_from([1] * 9 + [20, 150])})


def run(c, ctx):
    mod = props.module()
    mw = np.array(c["mw"] * c.get("times", 1)) * (1 + 1e-3 * (np.arange(len(c["mw"]) * c.get("times", 1)) // len(c["mw"])))
    with sut("Pure_component2"), quiet():
        r = mod.Pure_component2(len(mw), mw.copy() if c["array"] else [float(v) for v in mw], c["R"], c["temp"])
    D = 1.9 * mw ** (-2.0 / 3.0)
    v = np.sqrt(8 * c["R"] * c["temp"] / (np.pi * mw * 1e-3))
    lam = 3 * (D * 1e-4) / v
    for k, w in (("alpha_d_org", np.full(len(mw), 0.1)), ("DStar_org", D), ("mean_them_vel", v), ("gamma_gas", lam)):
        if k not in r:
            fail("Pure_component2 returns no %s, only %s", k, sorted(r))
        g = np.array(r[k], float)
        if g.shape != w.shape:
            fail("%s has shape %s for %d species", k, g.shape, len(mw))
        if not (g > 0).all() or not np.allclose(g, w, rtol=1e-11, atol=0):
            i = int(np.argmax(~np.isclose(g, w, rtol=1e-11, atol=0)))
            fail("%s at molar mass %r and %r K is %r, expected %r", k, mw[i], c["temp"], g[i], w[i])
    ctx.nontrivial = len(set(c["mw"])) > 1


PARTS = [Part("transport", case_, run, quick=6000, thorough=200000, budget=(50, 300))]
