"""What PyBox expects of Python <= 3.10, numpy < 1.24 and Open Babel 2 (the same three shims as the test runner's)."""
import builtins
import sys

import numpy
from openbabel import openbabel as _ob
from openbabel import pybel

sys.modules["pybel"] = pybel
_ob.obErrorLog.SetOutputLevel(0)
_open = builtins.open
_save = numpy.save


def _open_universal(file, mode="r", *args, **kwargs):
    if isinstance(mode, str) and sorted(mode) == ["U", "r"]:
        mode = "r"
    return _open(file, mode, *args, **kwargs)


def _save_ragged(file, arr, *args, **kwargs):
    if isinstance(arr, list):
        try:
            arr = numpy.array(arr)
        except ValueError as e:
            if "inhomogeneous" not in str(e):
                raise
            arr = numpy.array(arr, dtype=object)
    return _save(file, arr, *args, **kwargs)


builtins.open = _open_universal
numpy.save = _save_ragged
