"""Slices of the mechanism files that PyBox ships, as mechanism data.

Read by this module's own line reader: one equation per line, "{n.} \\t A + B = C + D : \\t rate \\t;".
"""
import functools
import glob
import os
import re

from hypothesis import strategies as st

from pbx import mech as M, rates as R
from pbx.core import REPO

LINE = re.compile(r"^\{\d+\.?\}([^=:;]*)=([^:;]*):([^;]*);\s*$")
TERM = re.compile(r"^(\d*\.?\d*)([A-Za-z]\w*)$")


def _terms(text):
    out = []
    for t in text.split("+"):
        t = t.strip()
        if not t:
            continue
        m = TERM.match(t)
        if not m:
            return None
        out.append((m[1], m[2]))
    return out


def _line(line):
    m = LINE.match(line)
    if not m:
        return None
    lhs, rhs, rate = _terms(m[1]), _terms(m[2]), re.sub(r"\s", "", m[3])
    if lhs is None or rhs is None:
        return None
    hv = any(n == "hv" for _, n in lhs)
    lhs = [t for t in lhs if t[1] != "hv"]
    if not lhs:
        return None
    try:
        R.parse(rate)
    except (ValueError, IndexError):
        return None
    return lhs, hv, rhs, rate


@functools.lru_cache(None)
def lines():
    """All equations, file by file, in order."""
    out = {}
    for f in sorted(glob.glob(os.path.join(REPO, "mechanism_files", "*.eqn.txt"))):
        with open(f) as h:
            ls = [_line(x) for x in h]
        ls = [x for x in ls if x]
        if ls:
            out[os.path.basename(f)] = ls
    return out


@functools.lru_cache(None)
def shapes():
    """Equations by the shape of their rate text, so that rare forms are drawn as often as common ones."""
    d = {}
    for ls in lines().values():
        for x in ls:
            d.setdefault((re.sub(r"\d+\.?\d*", "#", x[3]), len(x[0]), len(x[2])), []).append(x)
    return [d[k] for k in sorted(d)]


def to_mech(eqs, layout=None):
    names, out = [], []

    def no(n):
        if n not in names:
            names.append(n)
        return names.index(n)
    for lhs, hv, rhs, rate in eqs:
        out.append({"lhs": [[c, no(n)] for c, n in lhs], "hv": hv, "rhs": [[c, no(n)] for c, n in rhs], "rate": rate})
    return {"species": names, "reactions": out, "layout": layout or M.PLAIN}


@st.composite
def mechanism(draw, max_reactions=40, layout=True):
    """A run of consecutive equations of a shipped file, with others of rare shapes among them."""
    files = lines()
    eqs = []
    k = draw(st.integers(0, 2))
    if k:
        ls = files[draw(st.sampled_from(sorted(files)))]
        a = draw(st.integers(0, len(ls) - 1))
        eqs += ls[a:a + draw(st.integers(1, max_reactions))]
    if k != 1 or not eqs:
        sh = shapes()
        for _ in range(draw(st.integers(1, max(1, max_reactions // 2)))):
            eqs.append(draw(st.sampled_from(draw(st.sampled_from(sh)))))
        if draw(st.booleans()):
            eqs = draw(st.permutations(eqs))
    return to_mech(eqs[:max_reactions], draw(M.LAYOUT) if layout else M.PLAIN)


def rate_text():
    sh = sorted({re.sub(r"\d+\.?\d*", "#", x[3]): 1 for ls in lines().values() for x in ls})
    by = {}
    for ls in lines().values():
        for x in ls:
            by.setdefault(re.sub(r"\d+\.?\d*", "#", x[3]), set()).add(x[3])
    by = {k: sorted(v) for k, v in by.items()}
    return st.sampled_from(sh).flatmap(lambda k: st.sampled_from(by[k]))
