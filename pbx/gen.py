"""Drives PyBox's code generators in the current directory and loads what they write."""
import copy
import ctypes
import functools
import importlib
import importlib.util
import os
import re
import subprocess
import sys
import types

import numpy as np

from pbx.core import REPO, HarnessError, Violation, fail, quiet, sut

GFORTRAN = os.environ.get("PBX_GFORTRAN", "gfortran")
FFLAGS = ["-O1", "-ffast-math", "-fopenmp", "-shared", "-fPIC"]


@functools.lru_cache(None)
def repo_module(name, rel=None):
    """A module of the working tree, loaded from its file (several folders hold files of the same name)."""
    path = os.path.join(REPO, rel or name + ".py")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    with sut("importing %s" % path), quiet():
        if rel is None:
            return importlib.import_module(name)
        spec = importlib.util.spec_from_file_location("pbx_sut_" + re.sub(r"\W", "_", rel), path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m


def P():
    return repo_module("Parse_eqn_file")


def C():
    return repo_module("rate_coeff_conversion")


class Parsed:
    """What extract_mechanism says about a file, by the documented keys."""

    def __init__(self, text, filename="mech.eqn.txt"):
        with open(filename, "w") as f:
            f.write(text)
        self.filename = filename
        opts = {"Full_eqn": 0}
        with sut("extract_mechanism"), quiet():
            out = P().extract_mechanism(filename, opts)
        self.out = out
        for k in ("rate_dict", "rate_dict_reactants", "loss_dict", "gain_dict", "stoich_dict", "species_dict",
                  "species_dict2array", "max_equations"):
            if k not in out:
                fail("extract_mechanism gives no %r", k)
            setattr(self, {"species_dict2array": "index", "max_equations": "n_eq"}.get(k, k), out[k])
        self.n_sp = len(self.species_dict.keys())

    def rates(self):
        return copy.deepcopy(self.rate_dict)


def load_py(path, func, jit=False):
    """exec a generated Python module; with jit=False its numba decorators leave plain functions."""
    import numba
    name = "pbx_gen_%s_%d" % (func, os.getpid())
    with sut("loading generated %s" % path):
        if not os.path.exists(path):
            fail("no file %s was written", path)
        with open(path) as f:
            src = f.read()
        old = numba.config.DISABLE_JIT
        numba.config.DISABLE_JIT = not jit
        try:
            m = types.ModuleType(name)
            m.__file__ = os.path.abspath(path)
            # Compiled-code caches are keyed by file; generated files have no lasting home, so nothing is cached.
            if jit:
                src = re.sub(r",\s*cache\s*=\s*True", "", src)
            exec(compile(src, m.__file__, "exec"), m.__dict__)
        finally:
            numba.config.DISABLE_JIT = old
        return getattr(m, func)


# ------------------------------------------------------------------------------------------------- Fortran
def _signature(path, sub):
    """Argument names, intents and shapes, as f2py reads them."""
    from numpy.f2py import crackfortran, cfuncs  # noqa: F401
    with quiet():
        crackfortran.verbose = 0
        crackfortran.quiet = 1
        blocks = crackfortran.crackfortran([path])
    for b in blocks:
        todo = [b] + b.get("body", [])
        for x in todo:
            if x.get("name") == sub and x.get("block") == "subroutine":
                return x["args"], x["vars"]
    fail("generated %s has no subroutine %s", path, sub)


def compile_fortran(path, lib=None, flags=None):
    lib = lib or os.path.abspath(path) + ".so"
    if not os.path.exists(path):
        fail("no file %s was written", path)
    r = subprocess.run([GFORTRAN] + (flags or FFLAGS) + ["-o", lib, path], capture_output=True, text=True)
    if r.returncode:
        if "fatal error" in r.stderr and "No such file" in r.stderr or "cannot execute" in r.stderr or r.returncode < 0:
            raise HarnessError("gfortran: " + r.stderr[:2000])
        with open(path) as f:
            src = f.read()
        fail("the generated %s does not compile:\n%s\n%s", os.path.basename(path), r.stderr[:1500],
             src[:200] if len(src) < 200 else "")
    return lib


class Fortran:
    """Calls one generated subroutine the way its f2py wrapper does: inputs positionally, outputs returned."""

    def __init__(self, path, sub, flags=None):
        path = os.path.abspath(path)
        with sut("reading generated %s" % os.path.basename(path)):
            if not os.path.exists(path):
                fail("no file %s was written", path)
            self.args, self.vars = _signature(path, sub)
        self.lib = ctypes.CDLL(compile_fortran(path, flags=flags))
        self.f = getattr(self.lib, sub.lower() + "_")
        self.f.restype = None
        self.sub = sub
        self.inputs = [a for a in self.args if "out" not in self.vars[a].get("intent", [])]
        self.outputs = [a for a in self.args if "out" in self.vars[a].get("intent", [])]

    def _shape(self, a):
        return [int(eval(d, {})) for d in self.vars[a].get("dimension", [])]

    def _dtype(self, a):
        v = self.vars[a]
        t = v.get("typespec")
        k = str(v.get("kindselector", {}).get("*", v.get("kindselector", {}).get("kind", "4")))
        if t == "real":
            return {"8": np.float64, "4": np.float32}[k]
        if t == "double precision":
            return np.float64
        if t == "integer":
            return {"4": np.int32, "8": np.int64}[k]
        raise HarnessError("argument %s of %s has type %s" % (a, self.sub, t))

    def __call__(self, *values, **kw):
        vals = dict(zip(self.inputs, values))
        vals.update(kw)
        lowered = {k.lower(): v for k, v in vals.items()}
        if len(values) > len(self.inputs) or set(lowered) != {a.lower() for a in self.inputs}:
            fail("%s takes %s, was called with %d values", self.sub, self.inputs, len(values) + len(kw))
        ptrs, outs = [], {}
        keep = []
        for a in self.args:
            shape, dt = self._shape(a), self._dtype(a)
            if a in self.inputs:
                v = np.array(lowered[a.lower()], dtype=dt, order="F")
                if list(v.shape) != shape:
                    if v.size == int(np.prod(shape)) and (v.ndim <= 1 or 1 in v.shape):
                        v = np.asfortranarray(v.reshape(shape))  # what f2py does with an (n,1) array
                    else:
                        fail("%s: argument %s has dimension %s, the caller passes %s", self.sub, a, shape, list(v.shape))
                if not shape:
                    v = v.reshape(1)
            else:
                v = np.full(shape or [1], np.nan, dtype=dt, order="F")
                outs[a] = v
            keep.append(v)
            ptrs.append(v.ctypes.data_as(ctypes.c_void_p))
        self.f(*ptrs)
        res = []
        for a in self.outputs:
            res.append(outs[a] if self._shape(a) else float(outs[a][0]))
        return res[0] if len(res) == 1 else tuple(res)


# ------------------------------------------------------------------------------------------------- writers
def numba_rates(p, jit=False, convert=1):
    rd = p.rates()
    with sut("write_rate_file_numba"), quiet():
        for _ in range(convert):
            rd = C().convert_rate_mcm_numba(rd)
        P().write_rate_file_numba(p.filename, rd)
    f = load_py("Rate_coefficients_numba.py", "evaluate_rates", jit)

    def g(ttime, ro2, h2o, temp):
        # As the drivers call it: numpy.zeros for both work arrays.
        with sut("generated Numba evaluate_rates"), np.errstate(all="ignore"):
            return np.array(f(float(ttime), float(ro2), float(h2o), float(temp), np.zeros(p.n_eq), np.zeros(63)))
    g.raw = f
    return g


def numpy_rates(p):
    rd = p.rates()
    with sut("write_rate_file"), quiet():
        rd = C().convert_rate_mcm(rd)
        P().write_rate_file(p.filename, rd)
    return load_py("Rate_coefficients.py", "evaluate_rates", True)


def fortran_rates(p, openmp=False, convert=1):
    rd = p.rates()
    with sut("write_rate_file_fortran"), quiet():
        for _ in range(convert):
            rd = C().convert_rate_mcm_fortran(rd)
        P().write_rate_file_fortran(p.filename, rd, openmp)
    f = Fortran("Rate_coefficients.f90", "evaluate_rates")

    def g(ttime, ro2, h2o, temp):
        if {a.lower() for a in f.inputs} == {"ro2", "h2o", "temp", "ttime"}:
            return f(RO2=ro2, H2O=h2o, TEMP=temp, ttime=ttime)
        return f(ro2, h2o, temp, ttime)  # as the drivers call it
    g.raw = f
    return g


def numba_reactants(p, jit=False):
    with sut("write_reactants_indices"), quiet():
        P().write_reactants_indices(p.filename, p.n_eq, p.n_sp, p.index, p.rate_dict_reactants, p.loss_dict)
    f = load_py("Reactants_conc_numba.py", "reactants", jit)

    def g(y):
        with sut("generated Numba reactants"):
            return np.array(f(np.array(y, dtype=float), p.n_eq, np.zeros(p.n_eq)))
    g.raw = f
    return g


def fortran_reactants(p, openmp=False):
    with sut("write_reactants_indices_fortran"), quiet():
        P().write_reactants_indices_fortran(p.filename, p.n_eq, p.index, p.rate_dict_reactants, p.loss_dict, openmp)
    return Fortran("Reactants_conc.f90", "reactants")


def numba_dydt(p, jit=False):
    with sut("write_loss_gain_matrix"), quiet():
        P().write_loss_gain_matrix(p.filename, p.n_eq, p.n_sp, p.loss_dict, p.gain_dict, p.index)
    f = load_py("Loss_Gain_numba.py", "dydt", jit)

    def g(r):
        with sut("generated Numba dydt"):
            return np.array(f(np.zeros(p.n_sp), np.array(r, dtype=float)))
    g.raw = f
    return g


def fortran_dydt(p, openmp=False, flags=None):
    with sut("write_loss_gain_fortran"), quiet():
        P().write_loss_gain_fortran(p.filename, p.n_eq, p.n_sp, p.loss_dict, p.gain_dict, p.index, openmp)
    return Fortran("Loss_Gain.f90", "loss_gain", flags)


def numba_jacobian(p, jit=False):
    with sut("write_gas_jacobian_numba"), quiet():
        P().write_gas_jacobian_numba(p.filename, p.n_eq, p.n_sp, p.loss_dict, p.gain_dict, p.index, p.rate_dict_reactants)
    f = load_py("Jacobian_numba.py", "jacobian", jit)

    def g(r, y):
        with sut("generated Numba jacobian"):
            return np.array(f(np.array(r, dtype=float), np.array(y, dtype=float), np.zeros((p.n_sp, p.n_sp))))
    g.raw = f
    return g


def fortran_jacobian(p, openmp=False):
    with sut("write_gas_jacobian_fortran"), quiet():
        P().write_gas_jacobian_fortran(p.filename, p.n_eq, p.n_sp, p.loss_dict, p.gain_dict, p.index,
                                       p.rate_dict_reactants, openmp)
    return Fortran("Jacobian.f90", "jacobian")


def f2py_module(path):
    """What f2py would give for a Fortran file: its subroutines by (lower-case) name."""
    with open(path) as f:
        names = re.findall(r"^\s*subroutine\s+(\w+)\s*\(", f.read(), re.M | re.I)
    if not names:
        fail("the generated %s holds no subroutine", path)
    return {n.lower(): Fortran(path, n) for n in names}
