"""Strategies and helpers shared by the checks on the solver drivers."""
import numpy as np
from hypothesis import strategies as st

from checks import chem


@st.composite
def duration(draw, max_steps=9):
    """(simulation time, output step): whole numbers of steps reached in several ways, and broken ones."""
    step = draw(st.one_of(st.sampled_from([100.0, 300.0, 60.0, 0.1, 0.3, 3600.0, 1.0, 7.0, 1e-3, 0.7, 86400.0, 432000.0, 604800.0]), st.floats(0.01, 5000).map(lambda v: round(v, 3)),
                          st.floats(0.01, 5000).map(lambda v: round(v, 3)), st.floats(5000, 1e6).map(lambda v: round(v, 1))))
    k = draw(st.integers(1, max_steps))
    how = draw(st.integers(0, 3))
    if how == 0:
        return [k * step, step]
    if how == 1:
        s = 0.0
        for _ in range(k):
            s += step
        return [s, step]
    if how == 2:
        return [round(k * step, 6), step] if abs(round(k * step, 6) - k * step) < 1e-9 * step else [k * step, step]
    return [(k - 1 + draw(st.floats(0.02, 0.98))) * step, step]


START = st.one_of(st.sampled_from([43200.0, 0.0, 21600.0, 86399.0]), st.floats(0, 86400).map(lambda v: round(v, 2)))


# Internal steps of the integrator per output step.
DENSE = st.sampled_from([0, 0, 0, 1, 5, 63, 130, 1000])


def ends_of(total, step):
    """Elapsed times at the ends of the output steps."""
    q = total / step
    n = int(round(q)) if abs(q - round(q)) < 1e-6 else int(np.ceil(q))
    return [k * step for k in range(1, n)] + [total]


def states(n, k, lo=-3, hi=12):
    return st.lists(chem.values(n, lo, hi), min_size=k, max_size=k)
