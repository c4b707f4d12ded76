"""Runs PyBox's simulation scripts in a scratch copy of their folders, with the settings a user would edit changed.

Assimulo, UManSysProp and the f2py program are replaced: the first two by the stand-ins of drivers.py and props.py, the third by
a small program that notes which Fortran file becomes which module; the module is then compiled by gfortran when it is imported."""
import contextlib
import importlib
import inspect
import os
import re
import shutil
import stat
import sys

import numpy as np

from pbx import drivers as D, gen, props
from pbx.core import REPO, VERIF, Violation, fail, quiet, sut

SCRIPT = {"numba": ("Gas_simulation.py", "numba"), "f2py": ("f2py/Gas_simulation_f2py.py", "f2py"), "aerosol": ("Aerosol/f2py/Aerosol_simulation_f2py.py", "aerosol"),
          "yield": ("Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py", "yield")}
GENERATED = ["Rate_coefficients_numba", "Reactants_conc_numba", "Loss_Gain_numba", "Jacobian_numba", "rate_coeff_f2py", "reactants_conc_f2py", "loss_gain_f2py", "jacobian_f2py", "partition_f2py"]
F2PY = """#!/bin/bash
# Stand-in for f2py -c -m NAME FILE.f90 [flags]
while [ $# -gt 0 ]; do case "$1" in -m) name=$2; shift;; *.f90) src=$1;; esac; shift; done
[ -f "$src" ] && [ -n "$name" ] || exit 1
mkdir -p "build_$name" && cp "$src" "build_$name/source.f90"
printf 'from pbx import gen\\nglobals().update(gen.f2py_module("build_%s/source.f90"))\\n' "$name" > "$name.py"
"""


def tree(root):
    """A folder PyBox/ with the scripts (not the data) of the working tree."""
    top = os.path.join(root, "PyBox")
    for rel in ("", "f2py", "Aerosol", "Aerosol/f2py", "Aerosol/f2py/Fixed_yield"):
        src = os.path.join(REPO, rel)
        os.makedirs(os.path.join(top, rel), exist_ok=True)
        for n in os.listdir(src):
            if n.endswith(".py") and not n.endswith("_numba.py") and os.path.isfile(os.path.join(src, n)):
                shutil.copy(os.path.join(src, n), os.path.join(top, rel, n))
    os.makedirs(os.path.join(top, "mechanism_files"))
    os.makedirs(os.path.join(root, "bin"))
    f = os.path.join(root, "bin", "f2py")
    with open(f, "w") as h:
        h.write(F2PY)
    os.chmod(f, 0o755)
    return top


def edited(text, settings):
    """The script with `name=value` lines changed, and which of the settings could be."""
    done = set()
    for k, v in settings.items():
        if "[" in k:
            pat = r"^([ \t]*%s[ \t]*=[ \t]*)([^#\n]*?)([ \t]*(#[^\n]*)?)$" % re.escape(k)
        else:
            pat = r"^([ \t]*%s[ \t]*=[ \t]*)(?!=)([^#\n]*?)([ \t]*(#[^\n]*)?)$" % k
        new, n = re.subn(pat, lambda m: m[1] + repr(v) + m[3], text, count=1, flags=re.M)
        if n:
            text = new
            done.add(k)
    return text, done


@contextlib.contextmanager
def _guard(root):
    """Deletions stay inside the scratch folder."""
    real = {n: getattr(os, n) for n in ("remove", "unlink", "rmdir", "rename", "replace")}
    tr = shutil.rmtree

    def wrap(f):
        def g(path, *a, **k):
            if not os.path.realpath(os.fspath(path)).startswith(os.path.realpath(root) + os.sep):
                raise Violation("a simulation script touches %s, outside its folder" % path)
            return f(path, *a, **k)
        return g
    for n, f in real.items():
        setattr(os, n, wrap(f))
    shutil.rmtree = wrap(tr)
    try:
        yield
    finally:
        for n, f in real.items():
            setattr(os, n, f)
        shutil.rmtree = tr


def run(kind, root, rec, settings, mods=None):
    """Execute one script in the tree under root.  Returns the arguments its run_simulation call got, and the settings that could be edited."""
    import numba
    rel, drv = SCRIPT[kind]
    top = os.path.join(root, "PyBox")
    path = os.path.join(top, rel)
    if not os.path.exists(path):
        fail("there is no %s", rel)
    with open(path, encoding="utf-8") as f:
        text = f.read()
    text, done = edited(text, settings)
    real = D.driver(drv)
    calls = []

    def run_simulation(*a, **k):
        b = inspect.signature(real).bind(*a, **k)
        calls.append(dict(b.arguments))
        return real(*a, **k)
    pe, rc = gen.P(), gen.C()
    pkg = D.module("PyBox", Parse_eqn_file=pe, rate_coeff_conversion=rc)
    pkg.__path__ = []
    m = dict(D.assimulo(rec))
    m.update({"PyBox": pkg, "PyBox.Parse_eqn_file": pe, "PyBox.rate_coeff_conversion": rc, "Parse_eqn_file": pe, "rate_coeff_conversion": rc,
              "Size_distributions": gen.repo_module("Size_distributions", "Aerosol/Size_distributions.py"), "ODE_solver": D.module("ODE_solver", run_simulation=run_simulation),
              "ODE_solver_fixedyield": D.module("ODE_solver_fixedyield", run_simulation=run_simulation), "Plotting": D.module("Plotting", stacked_bar=lambda *a, **k: None)})
    if kind in ("aerosol", "yield"):
        m["Property_calculation"] = props.module()
    m.update(mods or {})
    from matplotlib import pyplot as plt
    old_path, old_env, cwd, jit = list(sys.path), os.environ.get("PATH", ""), os.getcwd(), numba.config.DISABLE_JIT
    here = os.path.dirname(path)
    try:
        os.chdir(here)
        sys.path.insert(0, here)
        os.environ["PATH"] = os.path.join(root, "bin") + ":" + old_env
        numba.config.DISABLE_JIT = True
        for n in GENERATED:
            sys.modules.pop(n, None)
        importlib.invalidate_caches()
        with D.modules(m), quiet(), np.errstate(all="ignore"), _guard(root):
            with sut("running %s" % rel):
                exec(compile(text, path, "exec"), {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__})
    finally:
        numba.config.DISABLE_JIT = jit
        os.environ["PATH"] = old_env
        sys.path[:] = old_path
        os.chdir(cwd)
        for n in GENERATED:
            sys.modules.pop(n, None)
        plt.close("all")
    if len(calls) != 1:
        fail("%s called run_simulation %d times", rel, len(calls))
    return calls[0], done
