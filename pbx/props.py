"""The property module with a stand-in for UManSysProp, which is not available here.

The stand-in's functions return numbers that depend on every argument, so that a wrong molecule, method,
temperature or intermediate shows in the result."""
import functools
import hashlib
import sys
import types

from hypothesis import strategies as st

from pbx import gen

SMILES = ["CC1=CCC2CC1C2(C)C", "OC(=O)CC1CC(C(=O)C)C1(C)C", "C", "CC", "CCO", "CC=O", "C=O", "OO", "O=CCC1CC(OO)(C(=O)C)C1(C)C", "CC(=O)C", "c1ccccc1", "Cc1ccccc1",
          "OC(=O)C(O)C(=O)O", "CCCCCCCCCC", "C=C(C)C=C", "CC(=O)OO", "CON(=O)=O", "CC(=O)OON(=O)=O", "[O]OCC", "CC([O])C", "ClCCl", "CSC", "O=CC=O", "CC(=O)C=O", "C#C",
          "OCC(O)CO", "OC(=O)C(=O)O", "CC(C)=O", "C(C)O", "O=C(O)CCC(=O)O", "C/C=C/C", "C/C=C\\C", "[O-][O+]=C", "COC(=O)C", "FC(F)F", "BrC", "CC(C)(C)OC", "NCC", "O=C1OC(=O)C=C1",
          "C1CCCCC1", "CC1CCCCC1", "Oc1ccccc1", "OC1CCCCC1", "o1cccc1", "O1CCCC1", "OCC", "C(O)C", "O=CC", "c1ccc(C)cc1", "[CH3]C", "CN", "[C]#[N]", "Cc1ccco1", "CC1CCCO1", "CC=CC", "C[C@H](O)C=O", "C[C@@H](O)C=O", "CC(O)C=O", "[CH3]", "[O]", "O", "N#CC#N", "CC#CC", "[NH4+]", "C1CC1", "[13CH4]"]

CHAIN = st.lists(st.sampled_from(["C", "C", "C(O)", "C(=O)", "C(C)", "C(OO)", "C(ON(=O)=O)", "C=C", "CO", "C(=O)O"]), min_size=1, max_size=24).map(lambda u: "".join(u) + "C")
ANY = st.one_of(st.sampled_from(SMILES), st.sampled_from(SMILES), st.sampled_from(SMILES), CHAIN)

METHODS = {"vp_method": ["nannoolal", "myrdal_and_yalkowsky", "evaporation"], "bp_method": ["joback_and_reid", "stein_and_brown", "nannoolal"],
           "critical_method": ["nannoolal", "joback_and_reid"], "density_method": ["girolami", "schroeder", "le_bas", "tyn_and_calus"]}


def molecule_key(obj):
    return obj.write("can").split()[0]


def number(*parts):
    h = hashlib.sha1(repr(parts).encode()).digest()
    return int.from_bytes(h[:6], "big") / 2.0 ** 48


def _fn(module, name, lo, hi):
    def f(compound, *args):
        return lo + (hi - lo) * number(module, name, molecule_key(compound), [float(a) for a in args])
    return f


def composition(obj):
    import re
    f = obj.formula
    out = {"C": 0, "H": 0, "O": 0}
    for el, n in re.findall(r"([A-Z][a-z]?)(\d*)", f):
        out[el] = out.get(el, 0) + int(n or 1)
    return out


FUNCS = {}


def _install():
    pkg = types.ModuleType("umansysprop")
    pkg.__path__ = []
    spec = {"boiling_points": [("joback_and_reid", 300, 900), ("stein_and_brown", 300, 900), ("nannoolal", 300, 900)],
            "vapour_pressures": [("nannoolal", -16, 0), ("myrdal_and_yalkowsky", -16, 0), ("evaporation", -16, 0), ("evaporation2", -16, 0)],
            "critical_properties": [("nannoolal", 1, 9), ("joback_and_reid", 1, 9)],
            "liquid_densities": [("girolami", .8, 2), ("schroeder", .8, 2), ("le_bas", .8, 2), ("tyn_and_calus", .8, 2)]}
    for m, fns in spec.items():
        mod = types.ModuleType("umansysprop." + m)
        for name, lo, hi in fns:
            f = _fn(m, name, lo, hi)
            setattr(mod, name, f)
            FUNCS[m, name] = f
        setattr(pkg, m, mod)
    g = types.ModuleType("umansysprop.groups")
    g.composition = composition
    pkg.groups = g
    pkg.partition_models = types.ModuleType("umansysprop.partition_models")
    pkg.activity_coefficient_models_dev = types.ModuleType("umansysprop.activity_coefficient_models_dev")
    forms = types.ModuleType("umansysprop.forms")
    forms.CoreAbundanceField = type("CoreAbundanceField", (), {})
    pkg.forms = forms
    sys.modules["umansysprop"] = pkg
    for k, v in list(vars(pkg).items()):
        if isinstance(v, types.ModuleType):
            sys.modules["umansysprop." + k] = v


@functools.lru_cache(None)
def module():
    _install()
    return gen.repo_module("Property_calculation", "Aerosol/Property_calculation.py")


def expected(obj, temp, vp_method, bp_method, critical_method, density_method):
    """(density kg/m3, molar mass, log10 vapour pressure) of one molecule."""
    module()
    F = FUNCS
    b1 = F["boiling_points", "nannoolal"](obj)
    c = F["critical_properties", critical_method](obj, b1)
    d = F["liquid_densities", density_method]
    dens = d(obj) if density_method == "girolami" else d(obj, temp, c)
    b = F["boiling_points", bp_method](obj)
    v = F["vapour_pressures", vp_method]
    vp = v(obj, temp) if vp_method == "evaporation" else v(obj, temp, b)
    return dens * 1e3, obj.molwt, vp


@functools.lru_cache(None)
def mol(smi):
    from openbabel import pybel
    return pybel.readstring("smi", smi)
