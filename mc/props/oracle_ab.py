"""Independent reference for the ITU k-R coefficients: frozen tables + cubic interpolation."""
import json
import os

import numpy as np

_d = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "itu.json")))
TABLE = {k: np.array(v) for k, v in _d.items()}
_cache = {}


def spline(kind, row):
    from scipy.interpolate import CubicSpline

    key = (kind, row)
    if key not in _cache:
        t = TABLE[kind]
        _cache[key] = CubicSpline(t[0], t[row], bc_type="not-a-knot")
    return _cache[key]


def ab(f, pol, kind="ITU_2005"):
    h = pol in ("h", "H", "horizontal", "Horizontal")
    return float(spline(kind, 1 if h else 2)(f)), float(spline(kind, 3 if h else 4)(f))
