"""Runs PyBox's run_simulation functions with a stand-in for Assimulo, which is not available here.

The stand-in integrates nothing: it calls the right-hand side (and Jacobian) that the driver hands over at the
times and states a script names, records what they return, and answers with the states the script names.
It follows Assimulo's interface: Explicit_Problem(rhs, y0, t0), Solver(problem), simulate(tfinal, ncp, ncp_list)."""
import contextlib
import sys
import types

import numpy as np

from pbx import gen, integrate
from pbx.core import Violation, fail, quiet, sut

REL = {"numba": "ODE_solver.py", "f2py": "f2py/ODE_solver.py", "aerosol": "Aerosol/f2py/ODE_solver.py", "yield": "Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py"}


class Record:
    """What one driver run asked of the integrator."""

    def __init__(self, ends, probes=(), max_calls=4000, want_jac=False, dense=0):
        self.ends, self.probes, self.max_calls, self.want_jac = ends, list(probes), max_calls, want_jac
        self.dense = dense   # internal steps the integrator reports beyond the probes
        self.calls = []      # {"t0", "t1", "elapsed0", "y0", "end", "evals": [...]}
        self.elapsed = 0.0
        self.now = None      # elapsed time of the evaluation in progress
        self.expect = None   # hook(record, elapsed, y, dydt, jac) per evaluation

    def end_state(self, k):
        return np.array(self.ends[k % len(self.ends)], float) + float(k // len(self.ends))


def _flat(v, n, what):
    a = np.array(v, dtype=float)
    if a.shape not in ((n,), (n, 1)):
        fail("%s has shape %s, the state has %d entries", what, a.shape, n)
    return a.reshape(n)


class Problem:
    def __init__(self, rhs=None, y0=None, t0=None, p0=None, sw0=None, name=None, **kw):
        if rhs is not None:
            self.rhs = rhs
        self.y0 = y0
        self.t0 = 0.0 if t0 is None else t0
        self.name = name or "---"
        for k, v in kw.items():
            setattr(self, k, v)


def _solver(rec):
    class Solver:
        def __init__(self, problem):
            self.__dict__["options"] = {}
            self.problem = problem
            self.y = np.array(problem.y0, dtype=float)
            if self.y.ndim != 1:
                fail("the initial value has shape %s", self.y.shape)
            self.t = float(problem.t0)

        def simulate(self, tfinal, ncp=0, ncp_list=None):
            if len(rec.calls) >= rec.max_calls:
                fail("the integrator was called over %d times", rec.max_calls)
            t0, t1 = self.t, float(tfinal)
            if not t1 > t0:
                raise ValueError("final time %r is not after the start time %r" % (t1, t0))
            k = len(rec.calls)
            n = rec.size = len(self.y)
            end = rec.end_state(k)
            if len(end) != n:
                fail("the state has %d entries, expected %d", n, len(end))
            call = {"t0": t0, "t1": t1, "e0": rec.elapsed, "y0": self.y.copy(), "end": end, "evals": []}
            rec.calls.append(call)
            todo = [(t0, self.y.copy())]
            for fr, y in rec.probes:
                todo.append((t0 + fr * (t1 - t0), np.array(y, float)))
            todo.append((t1, end.copy()))
            for t, y in todo:
                rec.now = rec.elapsed + (t - t0)
                yin = y.copy()
                d = _flat(self.problem.rhs(t, yin), n, "the right-hand side").copy()
                jac = None
                if rec.want_jac and getattr(self.problem, "jac", None) is not None and self.options.get("usejac", True):
                    jac = np.array(self.problem.jac(t, y.copy()), dtype=float)
                call["evals"].append({"t": t, "elapsed": rec.now, "y": y, "dydt": d, "jac": jac, "mutated": not np.array_equal(yin, y)})
            rec.elapsed += t1 - t0
            rec.now = None
            inner = list(rec.probes) + [(0.999 + 0.0005 * i / rec.dense, end * 0.5 + 3.0 + i) for i in range(rec.dense)]
            rows = [self.y.copy()] + [np.array(y, float) for _, y in inner] + [end.copy()]
            ts = [t0] + [t0 + fr * (t1 - t0) for fr, _ in inner] + [t1]
            self.t, self.y = t1, end.copy()
            return list(ts), np.array(rows)

        def __setattr__(self, k, v):
            self.__dict__.setdefault("options", {})[k] = v
            object.__setattr__(self, k, v)
    return Solver


@contextlib.contextmanager
def modules(mods):
    old = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


def assimulo(rec):
    s = integrate.solver(rec) if isinstance(rec, integrate.Runs) else _solver(rec)
    pkg = module("assimulo")
    pkg.__path__ = []
    solvers = module("assimulo.solvers", **{n: s for n in ("CVode", "RodasODE", "RungeKutta4", "LSODAR", "Radau5ODE", "RungeKutta34", "Dopri5", "ExplicitEuler", "ImplicitEuler")})
    problem = module("assimulo.problem", Explicit_Problem=Problem)
    pkg.solvers, pkg.problem = solvers, problem
    return {"assimulo": pkg, "assimulo.solvers": solvers, "assimulo.problem": problem}


_loaded = {}


def driver(kind):
    """The run_simulation function of one driver."""
    if kind not in _loaded:
        rel = REL[kind]
        with modules({"Plotting": module("Plotting", stacked_bar=lambda *a, **k: None)}) if kind == "yield" else contextlib.nullcontext():
            m = gen.repo_module("ODE_solver", rel)
        f = getattr(m, "run_simulation", None)
        if f is None:
            fail("%s has no run_simulation", rel)
        _loaded[kind] = (m, f)
    return _loaded[kind][1]


def run(kind, rec, mods, **kw):
    """Call the driver by keyword, as its interface names its parameters."""
    from matplotlib import pyplot as plt
    f = driver(kind)
    m = dict(assimulo(rec))
    m.update(mods)
    with modules(m), quiet(), np.errstate(all="ignore"):
        try:
            with sut("run_simulation of %s" % REL[kind]):
                try:
                    return f(**kw)
                except integrate.TooHard:
                    return integrate.TooHard
        finally:
            plt.close("all")


def numba_modules(rates, reactants, dydt, jac):
    """Generated-module stand-ins; the callables take (ttime, ro2, h2o, temp), y, r and (r, y)."""
    def evaluate_rates(ttime, RO2, H2O, temp, rate_values, J):
        rate_values[:] = rates(ttime, RO2, H2O, temp)
        return rate_values

    def reactants_(y, equations, out):
        out[:] = reactants(y)
        return out

    def dydt_(out, r):
        out[:] = dydt(r)
        return out

    def jacobian(r, y, out):
        out[:] = jac(r, y)
        return out
    return {"Rate_coefficients_numba": module("Rate_coefficients_numba", evaluate_rates=evaluate_rates), "Reactants_conc_numba": module("Reactants_conc_numba", reactants=reactants_),
            "Loss_Gain_numba": module("Loss_Gain_numba", dydt=dydt_), "Jacobian_numba": module("Jacobian_numba", jacobian=jacobian)}


def f2py_modules(rates, reactants, dydt, jac=None, partition=None):
    def evaluate_rates(ro2, h2o, temp, ttime):  # f2py wrappers take lower-case names
        return np.array(rates(ttime, ro2, h2o, temp))

    def reactants_(y):
        return np.array(reactants(y))

    def loss_gain(r):
        return np.array(dydt(r))

    def jacobian(r, y):
        return np.array(jac(r, y))
    m = {"rate_coeff_f2py": module("rate_coeff_f2py", evaluate_rates=evaluate_rates), "reactants_conc_f2py": module("reactants_conc_f2py", reactants=reactants_),
         "loss_gain_f2py": module("loss_gain_f2py", loss_gain=loss_gain)}
    if jac is not None:
        m["jacobian_f2py"] = module("jacobian_f2py", jacobian=jacobian)
    if partition is not None:
        m["partition_f2py"] = module("partition_f2py", dydt_partition=partition)
    return m


NAMES = {"numba": (("Rate_coefficients_numba", "evaluate_rates"), ("Reactants_conc_numba", "reactants"), ("Loss_Gain_numba", "dydt"), ("Jacobian_numba", "jacobian")),
         "f2py": (("rate_coeff_f2py", "evaluate_rates"), ("reactants_conc_f2py", "reactants"), ("loss_gain_f2py", "loss_gain"), ("jacobian_f2py", "jacobian"), ("partition_f2py", "dydt_partition"))}


def raw_modules(kind, *funcs):
    """The generated functions themselves under the module names the drivers import; None leaves one out."""
    return {m: module(m, **{a: f}) for (m, a), f in zip(NAMES[kind], funcs) if f is not None}
