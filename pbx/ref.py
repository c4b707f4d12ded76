"""Reference chemistry, from the drawn mechanism."""
import numpy as np

from pbx import mech as M
from pbx.core import fail


class Ref:
    def __init__(self, m, parsed):
        self.m = m
        self.want = M.meaning(m)
        names = m["species"]
        try:
            self.col = {s: parsed.index[names[s]] for s in M.used_species(m)}
        except KeyError as e:
            fail("species %s of the file is not in species_dict2array", e)
        self.n_sp, self.n_eq = parsed.n_sp, len(self.want)
        if parsed.n_eq != self.n_eq or len(self.col) != self.n_sp:
            fail("the file has %d equations and %d species, parsed %s and %s", self.n_eq, len(self.col), parsed.n_eq, self.n_sp)
        self.L = np.zeros((self.n_eq, self.n_sp))
        self.G = np.zeros((self.n_eq, self.n_sp))
        for e, (l, r) in enumerate(self.want):
            for s, c in l.items():
                self.L[e, self.col[s]] += c
            for s, c in r.items():
                self.G[e, self.col[s]] += c
        self.held = np.zeros(self.n_sp, bool)
        for s, c in self.col.items():
            self.held[c] = names[s] in M.EXCLUDED
        self.name = {c: names[s] for s, c in self.col.items()}

    def reactants(self, y):
        y = np.asarray(y, float)
        out = np.ones(self.n_eq)
        for e in range(self.n_eq):
            for i in np.flatnonzero(self.L[e]):
                out[e] *= y[i] ** self.L[e, i]
        return out

    def dydt(self, r):
        """(tendency, magnitude of the terms summed)"""
        t = (self.G - self.L).T @ r
        mag = (self.G + self.L).T @ np.abs(r)
        t[self.held] = 0
        return t, mag

    def jacobian(self, k, y):
        n = self.n_sp
        J = np.zeros((n, n))
        mag = np.zeros((n, n))
        for e in range(self.n_eq):
            idx = np.flatnonzero(self.L[e])
            for j in idx:
                c = self.L[e, j]
                d = k[e] * c * (y[j] ** (c - 1) if c != 1 else 1.0)
                for i in idx:
                    if i != j:
                        d *= y[i] ** self.L[e, i]
                J[:, j] += (self.G[e] - self.L[e]) * d
                mag[:, j] += (self.G[e] + self.L[e]) * abs(d)
        J[self.held, :] = 0
        return J, mag


def close(got, want, mag, rel, what, name=str, text=""):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    if got.shape != want.shape:
        fail("%s has shape %s, expected %s\n%s", what, got.shape, want.shape, text)
    mag = np.asarray(mag, float)
    with np.errstate(all="ignore"):  # what overflows, or is about to, depends on the order of the operations
        bad = ~(np.abs(got - want) <= rel * mag + 1e-300) & np.isfinite(want) & (mag < 1e280)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        fail("%s at %s: got %r, expected %r (%d of %d entries differ)\n%s", what, [name(x) for x in i], float(got[i]),
             float(want[i]), int(bad.sum()), bad.size, text)
