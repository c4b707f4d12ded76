"""P15: the RO2 index list."""
import os
import re

import numpy as np
from hypothesis import strategies as st

from pbx import gen, mech as M
from pbx.core import REPO, VERIF, HarnessError, Part, fail, quiet, sut

RULE = ("species are drawn from the MCM peroxy-radical list, from names one edit away and from other names, and numbered in any order; the saved list is compared with the set "
        "kept here and used to index a state; non-trivial: at least one member and one near miss; part shipped: equations drawn from the shipped mechanisms, where every "
        "species that reacts with the pool must be in it")
ASSUMPTIONS = ["the list kept here (data/ro2.txt) is the MCM list as spelt in the repository with nine spelling mistakes put right; every species that reacts with RO2 in a shipped mechanism is in it"]
with open(os.path.join(VERIF, "data", "ro2.txt")) as f:
    RO2 = f.read().split()
RO2SET = set(RO2)
OTHER = [n for n in M.NAMES if n not in RO2SET]


@st.composite
def near(draw):
    n = draw(st.sampled_from(RO2))
    k = draw(st.integers(0, 4))
    i = draw(st.integers(0, len(n) - 1))
    return [n + "H", n[:-1] or "X", n[:i] + n[i + 1:] or "X", n + draw(st.sampled_from("ABO23")), draw(st.sampled_from("ACN")) + n][k]


def names():
    return st.lists(st.one_of(st.sampled_from(RO2), st.sampled_from(RO2), near(), st.sampled_from(OTHER)), min_size=0, max_size=60, unique=True)


def load(filename, index):
    with sut("write_RO2_indices"), quiet():
        gen.P().write_RO2_indices(filename, index)
    with sut("loading the saved RO2 list"):
        return np.load(filename + "_RO2_indices.npy")


def verify(arr, index, want):
    y = np.arange(1.0, len(index) + 1)
    with sut("indexing a state with the saved RO2 list"):
        total = float(np.sum(y[arr]))
    got = sorted(int(i) for i in arr)
    need = sorted(index[n] for n in want)
    if got != need:
        inv = {v: k for k, v in index.items()}
        fail("RO2 list: missing %s, extra %s, repeated %s", [inv[i] for i in need if i not in got], [inv.get(i, i) for i in got if i not in need],
             [inv.get(i, i) for i in got if got.count(i) > 1])
    if total != sum(y[i] for i in need):
        fail("sum over the list is %r", total)


def long_():
    """A long stretch of the list itself with near misses among it, in some order."""
    return st.tuples(st.integers(0, len(RO2) - 1), st.integers(50, len(RO2)), st.lists(near(), max_size=8), st.lists(st.sampled_from(OTHER), max_size=20), st.integers(1, 400)).map(
        lambda t: list(dict.fromkeys(t[3] + [RO2[(t[0] + i * t[4]) % len(RO2)] for i in range(t[1])] + t[2]))).map(lambda l: {"names": l, "order": list(range(len(l)))[::-1]})


def run(case, ctx):
    index = {n: case["order"][i] for i, n in enumerate(case["names"])}
    # The numbering is a permutation of 0..n-1, as the parser's is.
    rank = {v: i for i, v in enumerate(sorted(index.values()))}
    index = {n: rank[v] for n, v in index.items()}
    with ctx.scratch():
        arr = load("mech.eqn.txt", dict(index))
    want = [n for n in index if n in RO2SET]
    verify(arr, index, want)
    close = any(n not in RO2SET and (n[:-1] in RO2SET or n[1:] in RO2SET) for n in index)
    ctx.label("no member", not want)
    ctx.label("near miss", close)
    ctx.nontrivial = bool(want) and close


def case_():
    return names().flatmap(lambda l: st.fixed_dictionaries({"names": st.just(l), "order": st.permutations(list(range(len(l)))).map(list)}))


_ship = {}


def shipped():
    if not _ship:
        for n in ("MCM_APINENE", "MCM_BCARY", "MCM_mixed_test"):
            path = os.path.join(REPO, "mechanism_files", n + ".eqn.txt")
            if os.path.exists(path):
                with open(path) as f:
                    eqs = [l for l in f if re.match(r"\{[\d.]+\}.*=.*:.*;", l)]
                _ship[n] = eqs
    if not _ship:
        raise HarnessError("no shipped mechanism")
    return _ship


def run_shipped(case, ctx):
    eqs = shipped()[case["file"]]
    picked = [eqs[i % len(eqs)] for i in case["eqs"]]
    text = "".join("{%d.} %s" % (k + 1, re.sub(r"^\{.*?\}", "", l)) for k, l in enumerate(picked))
    reacting = set()
    for l in picked:
        m = re.match(r"\{.*?\}\s*(.*?)=(.*?):(.*?);", l)
        lhs = [x.strip() for x in m[1].split("+")]
        if len(lhs) == 1 and re.search(r"\bRO2\b", m[3]):
            reacting.add(lhs[0])
    with ctx.scratch():
        p = gen.Parsed(text)
        arr = load(p.filename, p.index)
    verify(arr, dict(p.index), [n for n in p.index if n in RO2SET or n in reacting])
    ctx.label("reacts with the pool", bool(reacting))
    ctx.nontrivial = len(reacting) >= 2


def st_shipped():
    return st.fixed_dictionaries({"file": st.sampled_from(sorted(shipped())), "eqs": st.lists(st.integers(0, 17000), min_size=1, max_size=60)})


PARTS = [Part("list", case_, run, quick=4000, thorough=150000, budget=(60, 400)),
         Part("large", long_, run, quick=200, thorough=5000, budget=(40, 200)),
         Part("shipped", st_shipped, run_shipped, quick=600, thorough=30000, budget=(60, 400))]
