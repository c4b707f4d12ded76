"""P19: names to molecules."""
from hypothesis import strategies as st

from pbx import gen, mech as M, props
from pbx.core import Part, fail, quiet, sut

RULE = ("a species table (MCM XML layout) with entries in any order, some without SMILES and some for species outside the mechanism, and a mechanism are drawn; the two dictionaries are compared with "
        "the table; non-trivial: at least two mapped species and at least one entry that must not be mapped")
ASSUMPTIONS = ["one entry for each name; SMILES are valid"]
OXIDANTS = ("OH", "HO2", "O3")


@st.composite
def case_(draw):
    sp = draw(M.names(min_size=2, max_size=draw(st.sampled_from([10, 10, 10, 30]))))
    extra = draw(st.lists(st.sampled_from([n for n in M.NAMES if n not in sp]), max_size=4, unique=True))
    if draw(st.booleans()):
        sp += [o for o in draw(st.lists(st.sampled_from(OXIDANTS), unique=True, min_size=1)) if o not in sp and o not in extra]
    table = []
    for n in draw(st.permutations(sp + extra)):
        kind = draw(st.sampled_from(["smiles"] * 6 + ["none", "empty", "absent"]))
        table.append([n, kind, draw(props.ANY)])
    return {"species": sp, "table": table, "style": draw(st.integers(0, 3))}


def xml(c):
    out = ['<?xml version="1.0"?>', "<mcm>", "<species_list>"]
    for i, (n, kind, smi) in enumerate(c["table"]):
        if kind == "absent":
            continue
        body = {"smiles": "<smiles>%s</smiles>" % smi, "none": "", "empty": "<smiles></smiles>" if i % 2 else "<smiles/>"}[kind]
        inchi = "<inchi>InChI=1/X%d</inchi>" % i if c["style"] % 2 else ""
        sep = "\n    " if c["style"] >= 2 else ""
        out.append('<species species_number="%d" species_name="%s">%s%s%s%s%s</species>' % (i, n, sep, body, sep, inchi, sep))
    return "\n".join(out + ["</species_list>", "</mcm>"])


def run(c, ctx):
    sp = c["species"]
    m = {"species": sp, "reactions": [{"lhs": [["", i]], "rhs": [["", (i + 1) % len(sp)]], "hv": False, "rate": "1.0"} for i in range(len(sp))]}
    with ctx.scratch():
        p = gen.Parsed(M.render(m))
        with open("table.xml", "w") as f:
            f.write(xml(c))
        with sut("extract_smiles_species"), quiet():
            out = gen.P().extract_smiles_species(p.out, "table.xml")
            smiles, objs = dict(out["SMILES_dict"]), dict(out["Pybel_object_dict"])
    want = {n: smi for n, kind, smi in c["table"] if kind == "smiles" and n in sp and n not in OXIDANTS}
    if smiles != want:
        bad = {n: (want.get(n), smiles.get(n)) for n in set(want) | set(smiles) if want.get(n) != smiles.get(n)}
        fail("species: (SMILES in the table, SMILES given): %s\n%s", bad, xml(c))
    if set(objs) != set(want.values()):
        fail("molecules for %s, expected for %s", sorted(objs), sorted(set(want.values())))
    for s, o in objs.items():
        if props.molecule_key(o) != props.molecule_key(props.mol(s)):
            fail("the molecule under %s is %s", s, props.molecule_key(o))
    if dict(out["species_dict"]) != dict(p.species_dict) or out["max_equations"] != p.n_eq:
        fail("the mechanism came out changed")
    ctx.label("oxidant in the table", any(n in OXIDANTS and n in sp for n, k, _ in c["table"] if k == "smiles"))
    ctx.label("no SMILES", any(k in ("none", "empty") and n in sp for n, k, _ in c["table"]))
    ctx.label("outside the mechanism", any(n not in sp for n, k, _ in c["table"]))
    ctx.nontrivial = len(want) >= 2 and any(n not in want for n, k, _ in c["table"] if k != "absent")


PARTS = [Part("smiles", case_, run, quick=2500, thorough=80000, budget=(70, 500))]
