"""Cases shared by P20 and P21."""
import numpy as np
from hypothesis import strategies as st

from pbx import part as T


@st.composite
def case_(draw, full=False, max_bins=6, max_gas=7, states=3):
    prog = draw(T.program(max_bins, max_gas))
    if full:
        # The variant without an index list: every gas species has a place in every bin, some are masked.
        prog = {"n": prog["n"], "inc": list(range(prog["n"])), "bins": prog["bins"], "mask": [i not in prog["inc"] for i in range(prog["n"])]}
    return {"prog": prog, "states": draw(st.lists(T.state(prog), min_size=1, max_size=states))}


def prepared(prog, s):
    s = T.fill(prog, s)
    a = T.arrays(prog, s)
    mask = np.array(prog["mask"]) if "mask" in prog else None
    gas = np.array(a["y"][:prog["n"]])
    if mask is None and any(k != "free" for k in s["sat"]):
        eq = T.equilibrium(prog, a)
        for j, i in enumerate(prog["inc"]):
            if s["sat"][j] != "free" and np.isfinite(eq[j]) and eq[j] < 1e25:
                gas[i] = eq[j]
        a["y"][:prog["n"]] = gas
    Cg = gas[prog["inc"]]
    if mask is not None:
        Cg = np.where(mask, 0.0, Cg)  # as the caller of this variant does
        a["ignore_index"] = mask.astype(float)
    else:
        a["ignore_index"] = np.array([float(i not in prog["inc"]) for i in range(prog["n"])])
    a["C_g_i_t"] = Cg
    return a, mask
