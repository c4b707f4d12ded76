"""P17: pure component properties, by index."""
import numpy as np
from hypothesis import strategies as st

from pbx import gen, props
from pbx.core import Part, fail, quiet, sut

RULE = ("species, SMILES for some of them, methods, temperature and vapour pressure limit are drawn; every value returned is compared with the stand-in's for that species' own molecule; "
        "non-trivial: at least one species condenses, one is ignored and two molecules differ")
ASSUMPTIONS = ["UManSysProp is not installed here: a stand-in whose results depend on every argument takes its place (same names and argument orders as the code calls)",
               "molecules hold carbon, as the O:C and H:C ratios computed on the way need"]
POOL = [s for s in props.SMILES if "C" in s.replace("Cl", "") or "c" in s]


@st.composite
def case_(draw):
    n = draw(st.integers(1, 10))
    smi = draw(st.lists(st.one_of(st.none(), st.sampled_from(POOL), st.sampled_from(POOL), st.sampled_from(POOL), props.CHAIN), min_size=n, max_size=n))
    if draw(st.integers(0, 11)) == 0:  # many species, of few molecules or of many
        k = draw(st.integers(20, 150))
        pool = list(smi) + draw(st.lists(st.sampled_from(POOL), max_size=30))
        smi = [pool[(i * 7 + i // len(pool)) % len(pool)] for i in range(k)]
    c = {"smiles": smi, "temp": draw(st.floats(230, 330)), "ignore": draw(st.sampled_from([True, True, False])), "cutoff": draw(st.one_of(st.floats(-16, 1), st.just("equal"))),
         "rev": draw(st.booleans())}
    for k, v in props.METHODS.items():
        c[k] = draw(st.sampled_from(v))
    return c


def run(c, ctx):
    mod = props.module()
    n = len(c["smiles"])
    names = ["S%d" % i if not c["rev"] else "S%d" % (n - i) for i in range(n)]
    species = {i: names[i] for i in range(n)}
    index = {names[i]: i for i in range(n)}
    order = range(n - 1, -1, -1) if c["rev"] else range(n)
    smiles = {names[i]: c["smiles"][i] for i in order if c["smiles"][i]}
    objs = {s: props.mol(s) for s in smiles.values()}
    m = (c["vp_method"], c["bp_method"], c["critical_method"], c["density_method"])
    want = {i: props.expected(props.mol(s), c["temp"], *m) for i, s in enumerate(c["smiles"]) if s}
    cut = c["cutoff"]
    if cut == "equal":
        cut = sorted(v[2] for v in want.values())[len(want) // 2] if want else -6.0
    with sut("Pure_component1"), quiet():
        r = mod.Pure_component1(n, dict(species), dict(index), dict(objs), dict(smiles), c["temp"], *m, c["ignore"], cut)
    for key in ("y_density_array", "y_mw", "sat_vp", "Delta_H", "Latent_heat_gas", "include_index", "ignore_index", "ignore_index_fortran"):
        if key not in r:
            fail("Pure_component1 returns no %s, only %s", key, sorted(r))
        if "index" not in key and len(r[key]) != n:
            fail("%s has %d entries for %d species", key, len(r[key]), n)
    for i, (d, mw, vp) in want.items():
        for key, v in (("y_density_array", d), ("y_mw", mw), ("sat_vp", vp)):
            if not abs(r[key][i] - v) <= 1e-12 * abs(v):
                fail("%s of species %d (%s) is %r, for its molecule %r with %s it is %r", key, i, c["smiles"][i], r[key][i], c["smiles"][i], m, v)
        comp = props.composition(props.mol(c["smiles"][i]))
        for key, el in (("o_c", "O"), ("h_c", "H")):
            if key in r and not abs(r[key][i] - comp[el] / comp["C"]) < 1e-12:
                fail("%s of species %d (%s) is %r", key, i, c["smiles"][i], r[key][i])
    cond = [i for i in want if not (c["ignore"] and want[i][2] > cut)]
    gone = [i for i in range(n) if i not in cond]
    if sorted(r["include_index"]) != sorted(cond) or sorted(r["ignore_index"]) != sorted(gone):
        fail("condensing species should be %s and ignored %s, returned %s and %s (vapour pressures %s, limit %r in force: %r)", cond, gone, r["include_index"], r["ignore_index"],
             {i: v[2] for i, v in want.items()}, cut, c["ignore"])
    dense = np.zeros(n)
    dense[gone] = 1
    if list(np.ravel(r["ignore_index_fortran"])) != list(dense):
        fail("dense ignore array is %s, ignored species are %s", list(r["ignore_index_fortran"]), gone)
    ctx.label("limit in force", c["ignore"])
    ctx.label("limit met exactly", c["cutoff"] == "equal" and bool(want))
    ctx.label("same molecule twice", len(set(smiles.values())) < len(smiles))
    ctx.nontrivial = bool(cond) and bool(gone) and len(set(smiles.values())) > 1


PARTS = [Part("pure", case_, run, quick=5000, thorough=150000, budget=(70, 500))]
