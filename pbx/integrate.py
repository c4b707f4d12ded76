"""Integrators: one that works behind Assimulo's interface, and a precise one for references."""
import numpy as np
from scipy.integrate import BDF, solve_ivp

from pbx.core import fail


class TooHard(Exception):
    pass


class Runs:
    """What a driver asked of the working integrator."""

    def __init__(self, limit=60000):
        self.calls, self.n_rhs, self.limit = [], 0, limit


def solver(rec):
    """An Assimulo-like solver that integrates (BDF) with the options the driver sets, and returns its own steps."""
    class Solver:
        def __init__(self, problem):
            self.__dict__["options"] = {}
            self.problem = problem
            self.y = np.array(problem.y0, dtype=float)
            self.t = float(problem.t0)
            if self.y.ndim != 1:
                fail("the initial value has shape %s", self.y.shape)

        def __setattr__(self, k, v):
            self.__dict__.setdefault("options", {})[k] = v
            object.__setattr__(self, k, v)

        def simulate(self, tfinal, ncp=0, ncp_list=None):
            o, t0, t1, n = self.options, self.t, float(tfinal), len(self.y)
            if not t1 > t0:
                raise ValueError("final time %r is not after the start time %r" % (t1, t0))
            jac = getattr(self.problem, "jac", None) if o.get("usejac", True) else None

            def rhs(t, y):
                rec.n_rhs += 1
                if rec.n_rhs > rec.limit:
                    raise TooHard
                d = np.array(self.problem.rhs(t, y.copy()), float).reshape(n).copy()
                if not np.isfinite(d).all():
                    raise TooHard
                return d
            rec.calls.append((t0, t1, jac is not None))
            kw = {} if jac is None else {"jac": lambda t, y: np.array(jac(t, y.copy()), float)}
            atol = np.array(o.get("atol", 1e-6), float)
            b = BDF(rhs, t0, self.y, t1, rtol=max(float(o.get("rtol", 1e-6)), 1e-12), atol=atol, max_step=float(o.get("maxh", 0)) or np.inf,
                    first_step=min(float(o.get("inith", 0)) or 1e-6, t1 - t0), **kw)
            ts, ys = [t0], [self.y.copy()]
            while b.status == "running":
                b.step()
                if b.status == "failed":
                    raise TooHard
                ts.append(b.t)
                ys.append(b.y.copy())
            self.t, self.y = t1, ys[-1].copy()
            return ts, np.array(ys)
    return Solver


def precise(rhs, y0, times, rtol=1e-10, limit=25000, max_step=300.0):
    """The states at the given times (the first is the start)."""
    count = [0]

    def f(t, y):
        count[0] += 1
        if count[0] > limit:
            raise TooHard
        return rhs(t, y)
    top = max(1.0, float(np.max(np.abs(y0))))
    try:
        with np.errstate(all="ignore"):
            s = solve_ivp(f, (times[0], times[-1]), y0, method="LSODA", t_eval=times, rtol=rtol, atol=1e-12 * top + 1e-6, max_step=max_step)
    except (ValueError, np.linalg.LinAlgError):  # the solution left the range of floating-point numbers
        raise TooHard from None
    if not s.success or s.y.shape[1] != len(times) or not np.isfinite(s.y).all():
        raise TooHard
    return s.y.T
