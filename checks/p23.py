"""P23: fixed-composition snapshots."""
from hypothesis import strategies as st

from pbx import gen, props
from pbx.core import Part, fail, quiet, sut

RULE = "lines of SMILES and concentration are drawn, with repeats; every array and dictionary returned is compared; non-trivial: at least two compounds and at least one repeated SMILES"
ASSUMPTIONS = ["no empty lines; SMILES are valid; compounds are told apart by their SMILES text"]


LIKE = [["c1ccccc1", "C1CCCCC1"], ["Cc1ccccc1", "CC1CCCCC1"], ["Oc1ccccc1", "OC1CCCCC1"], ["o1cccc1", "O1CCCC1"], ["OCC", "CCO", "C(O)C"], ["CC=O", "O=CC"],
        ["C/C=C/C", "C/C=C\\C"], ["C", "CC"], ["Cc1ccco1", "CC1CCCO1"], ["CC", "[CH3]C"]]


@st.composite
def case_(draw):
    n = draw(st.one_of(st.integers(1, 14), st.integers(1, 14), st.integers(1, 14), st.integers(15, 80)))
    pool = draw(st.lists(props.ANY, min_size=1, max_size=10 if n < 15 else 60, unique=True))
    # spellings that are easily taken for one another: rings that differ in case only, two spellings of one molecule
    pool += [s for p in draw(st.lists(st.sampled_from(LIKE), max_size=2)) for s in p]
    num = st.one_of(st.floats(0, 100).map(lambda v: repr(round(v, 5))), st.floats(1e-9, 1e12).map(lambda v: "%.6e" % v), st.floats(1e-3, 1e13).map(repr),
                    st.tuples(st.floats(1, 9.99), st.integers(-200, 200)).map(lambda t: "%.4fe%d" % t), st.integers(0, 99).map(str))
    return {"lines": [[draw(st.sampled_from(pool)), draw(st.sampled_from([" ", "  ", "\t", " \t "])), draw(num)] for _ in range(n)], "end": draw(st.booleans()), "extra": draw(st.booleans())}


def run(c, ctx):
    text = "\n".join(s + sep + v + (" # note" if c["extra"] and i % 3 == 1 else "") for i, (s, sep, v) in enumerate(c["lines"])) + ("\n" if c["end"] else "")
    first = {}
    for s, _, v in c["lines"]:
        first.setdefault(s, float(v))
    names = list(first)
    with ctx.scratch():
        with open("snap.txt", "w") as f:
            f.write(text)
        with sut("extract_species"), quiet():
            r = gen.P().extract_species("snap.txt")
    exp = {"smiles_array": names, "concentration_array": [first[s] for s in names], "species_number": len(names)}
    for k, v in exp.items():
        g = r[k] if k == "species_number" else list(r[k])
        if g != v:
            fail("%s is %s, expected %s\n%s", k, g, v, text)
    for k, v in (("species_dict", dict(enumerate(names))), ("species_dict2array", {s: i for i, s in enumerate(names)}), ("SMILES_dict", {s: s for s in names})):
        if dict(r[k]) != v:
            fail("%s is %s, expected %s\n%s", k, dict(r[k]), v, text)
    objs = dict(r["Pybel_object_dict"])
    if set(objs) != set(names):
        fail("molecules for %s, expected %s\n%s", sorted(objs), names, text)
    for key in ("concentration_dict", "Pybel_object_activity"):
        d = r[key]
        if len(d) != len(names):
            fail("%s has %d entries for %d compounds\n%s", key, len(d), len(names), text)
        for s in names:
            o = objs[s]
            if props.molecule_key(o) != props.molecule_key(props.mol(s)):
                fail("the molecule of %s is %s\n%s", s, props.molecule_key(o), text)
            if o not in d or d[o] != first[s]:
                fail("%s gives %s for %s, its first line says %r\n%s", key, d.get(o) if hasattr(d, "get") else None, s, first[s], text)
    rep = len(names) < len(c["lines"])
    ctx.label("repeated line", rep)
    ctx.label("repeated with another amount", any(float(v) != first[s] for s, _, v in c["lines"]))
    ctx.label("names that differ in case only", len({s.upper() for s in names}) < len(names))
    ctx.label("two spellings of one molecule", len({props.molecule_key(props.mol(s)) for s in names}) < len(names))
    ctx.nontrivial = rep and len(names) >= 2


PARTS = [Part("snapshot", case_, run, quick=4000, thorough=100000, budget=(60, 400))]
