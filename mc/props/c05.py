"""C05: rain rate from path attenuation (k-R power law)."""
import itertools

import numpy as np
import pandas as pd
import xarray as xr

from ..core import nan, words
from .oracle_ab import ab

MODES = ["nojit"]
SHARDS = 6
BOUNDS = (
    "all attenuation words up to length 3 over 10 symbols (missing, negative, zero, finite, infinite) x parameter grid (length, R_min, frequency/polarization/table or a/b); "
    "dense attenuation scan; all presence combinations of the four k-R arguments; containers, shapes, labelled arrays"
)
ASSUMPTIONS = ["link length > 0, a > 0, b > 0", "reference coefficients: frozen ITU tables, checked against the closed form of ITU-R P.838-3"]


def model(A, L, a, b, R_min):
    out = []
    for x in A:
        if x != x:
            out.append(nan)
            continue
        r = 0.0 if x < 0 else (x / (a * L)) ** (1 / b)
        out.append(0.0 if r < R_min else r)
    return out


def explore(ctx):
    from pycomlink.processing.k_R_relation import calc_R_from_A as fn

    ALPHA = [nan, -3.0, -1e-9, 0.0, 1e-4, 0.3, 2.5, 17.0, 400.0, float("inf")]
    big = ctx.thorough
    ab_params = [dict(a=0.1, b=1.0), dict(a=1.0, b=1.0), dict(a=0.05, b=1.2), dict(a=0.4, b=0.8)]
    fp = [dict(f_GHz=f, pol=p) for f in (1, 7.3, 18, 25.5, 38.0, 23.456789, 100) for p in ("H", "v", "Vertical", "horizontal")]
    if ctx.family("words"):
        lens = (1, 2, 3) if not big else (1, 2, 3, 4)
        for n in lens:
            P = ab_params if n >= 3 else ab_params + fp
            Ls = (1.0, 5.5) if n >= 3 else (0.001, 0.1, 1.0, 5.5, 42.0, 300.0)
            Rms = (0, 0.1) if n >= 3 else (0, 0.1, 1.0, 25)
            for p, L, Rm in itertools.product(P, Ls, Rms):
                a, b = (p["a"], p["b"]) if "a" in p else ab(p["f_GHz"], p["pol"])
                for w in words(ALPHA, n):
                    if not ctx.mine():
                        continue
                    case = dict(A=list(w), L_km=L, R_min=Rm, **p)
                    ok, g = ctx.call(case, fn, np.array(w), L, R_min=Rm, **p)
                    ctx.state((L, Rm, tuple(sorted(p.items())), n))
                    ctx.step(n)
                    if ok:
                        want = model(w, L, a, b, Rm)
                        ctx.eq("rain rate", g, want, case, rtol=1e-6)
                        ctx.trace(outcome=tuple("%.6g" % v for v in want))
        ctx.sample({"A": [2.5, nan, -3.0], "L_km": 5.5, "a": 0.1, "b": 1.0})
    if ctx.family("defaults_and_tables"):
        A = [nan, -1.0, 0.0, 0.01, 0.05, 0.1, 0.5, 1, 3, 8, 30, 90]
        for f, pol, tab, L, Rm in itertools.product(
            [1, 1.5, 2, 3.3, 6, 10, 13.7, 15, 18.2, 22, 23, 26, 32, 38, 42, 58, 70, 80, 81.0625, 86, 99.5, 100], ["H", "V", "h", "v", "horizontal", "vertical", "Horizontal", "Vertical"], [None, "ITU_2003", "ITU_2005"], (0.5, 12.3), (None, 0, 2)
        ):
            if not ctx.mine():
                continue
            kw = {}
            if tab:
                kw["a_b_approximation"] = tab
            if Rm is not None:
                kw["R_min"] = Rm
            a, b = ab(f, pol, tab or "ITU_2005")
            case = dict(A=A, L_km=L, f_GHz=f, pol=pol, **kw)
            ok, g = ctx.call(case, fn, np.array(A), L, f, pol, **kw)
            ctx.state((f, pol, tab, L, Rm))
            ctx.step(len(A))
            if ok:
                ctx.eq("rain rate", g, model(A, L, a, b, 0.1 if Rm is None else Rm), case, rtol=1e-6)
                ctx.trace(outcome=(f, pol, tab, L, Rm))
    if ctx.family("dense_scan"):
        A = np.concatenate([np.linspace(-2, 2, 401), np.linspace(2, 150, 1481)])
        for p, L, Rm in itertools.product(ab_params + fp[:8], (0.3, 2, 20), (0, 0.1, 5.0)):
            if not ctx.mine():
                continue
            a, b = (p["a"], p["b"]) if "a" in p else ab(p["f_GHz"], p["pol"])
            want = np.array(model(A, L, a, b, Rm))
            # do not judge values that fall on the cut-off within rounding
            raw = np.array(model(A, L, a, b, -1))
            sel = np.abs(raw - Rm) > 1e-7 * max(Rm, 1e-3)
            sel |= (Rm == 0)
            ok, g = ctx.call(dict(p, L=L, Rm=Rm), fn, A, L, R_min=Rm, **p)
            ctx.step(len(A))
            if ok:
                g = np.asarray(g)
                ctx.eq("rain rate", g[sel], want[sel], dict(p, L_km=L, R_min=Rm, A=A), rtol=1e-6)
                if np.any(np.diff(g) < -1e-9):
                    ctx.fail("rain rate is not monotone in attenuation", dict(p, L_km=L, R_min=Rm))
                ctx.trace(outcome=(L, Rm, str(p)))
    if ctx.family("cut_off_is_exact"):
        for Rm in (0.0, 0.1, 0.5, 1.0, 2.0):
            if not ctx.mine():
                continue
            A = np.array([np.nextafter(Rm, -1), Rm, np.nextafter(Rm, 9), nan, 0.0])
            ok, g = ctx.call({"A": A, "R_min": Rm}, fn, A, 1.0, a=1.0, b=1.0, R_min=Rm)
            ctx.step(5)
            if ok:
                ctx.eq("values below R_min are set to zero, R_min itself is kept", g, [0.0, Rm, A[2], nan, 0.0], {"A": A, "R_min": Rm}, rtol=0, atol=1e-300)
                ctx.trace()
    if ctx.family("argument_combinations"):
        vals = dict(f_GHz=23.0, pol="V", a=0.1, b=1.0)
        for k in range(16):
            names = [n for i, n in enumerate(("f_GHz", "pol", "a", "b")) if k >> i & 1]
            for explicit_none in (False, True):
                for x in (np.array([1.0, 2.0]), 1.0, xr.DataArray(np.array([1.0, 2.0]), dims="time")):
                    kw = {n: vals[n] for n in names}
                    if explicit_none:
                        for n in vals:
                            kw.setdefault(n, None)
                    case = {"given": names, "explicit_none": explicit_none, "type": type(x).__name__}
                    ctx.state((k, explicit_none, type(x).__name__))
                    ctx.step()
                    ctx.trace()
                    if names in (["f_GHz", "pol"], ["a", "b"]):
                        ctx.call(case, fn, x, 2.0, **kw)
                    else:
                        ctx.rejects(case, fn, x, 2.0, **kw)
        for bad in (dict(f_GHz=0.5, pol="H"), dict(f_GHz=101, pol="H"), dict(f_GHz=23, pol="X"), dict(f_GHz=23, pol="V", a_b_approximation="ITU")):
            ctx.rejects(bad, fn, np.array([1.0]), 1.0, **bad)
            ctx.trace()
    if ctx.family("containers_and_shapes"):
        for L, Rm, p in itertools.product((1.0, 3.7), (0.1, 0, 3), (dict(a=0.1, b=1.1), dict(f_GHz=23.0, pol="V"))):
            a, b = (p["a"], p["b"]) if "a" in p else ab(p["f_GHz"], p["pol"])
            base = [2.0, 0.0, -1.0, 5.0, 0.25, 12.0]
            nb = [2.0, nan, -1.0, 5.0, nan, 12.0]
            nc = np.full(12, 77.0)
            nc[::2] = nb
            ro = np.array(nb)
            ro.setflags(write=False)
            conts = {
                "list": (list(base), base),
                "int array": (np.array([2, 0, -1, 5, 7, 12]), [2, 0, -1, 5, 7, 12]),
                "float32": (np.array(base, np.float32), base),
                "2D": (np.array(nb).reshape(2, 3), np.array(model(nb, L, a, b, Rm)).reshape(2, 3)),
                "2D fortran": (np.asfortranarray(np.array(nb).reshape(2, 3)), np.array(model(nb, L, a, b, Rm)).reshape(2, 3)),
                "3D": (np.array(nb).reshape(1, 3, 2), np.array(model(nb, L, a, b, Rm)).reshape(1, 3, 2)),
                "noncontiguous": (nc[::2], nb),
                "readonly": (ro, nb),
                "series": (pd.Series(nb, index=pd.date_range("2020", periods=6)), nb),
                "empty": (np.array([]), []),
                "scalar": (4.0, [4.0]),
                "int scalar": (4, [4.0]),
                "nan scalar": (nan, [nan]),
                "negative scalar": (-4.0, [-4.0]),
                "np scalar": (np.float64(4), [4.0]),
            }
            for name, (x, want) in conts.items():
                if not ctx.mine():
                    continue
                if name not in ("2D", "2D fortran", "3D"):
                    want = model(want, L, a, b, Rm)
                ok, g = ctx.call({"container": name, **p}, fn, x, L, R_min=Rm, **p)
                ctx.step()
                if ok:
                    g = np.asarray(g)
                    if name.endswith("scalar"):
                        g = g.reshape(-1)
                    ctx.eq("rain rate", g, np.asarray(want, float), {"container": name, "L_km": L, "R_min": Rm, **p}, rtol=1e-6)
                    ctx.trace(outcome=(name, L, Rm, str(p)))
    if ctx.family("labelled_arrays"):
        A = np.array([[0.0, 1.0, nan, 5.0], [2.0, -1.0, 9.0, 0.2], [nan, 3.0, 3.0, 3.0]])
        Ls = np.array([1.0, 2.5, 10.0])
        fs = np.array([18.0, 23.0, 38.5])
        pols = np.array(["V", "H", "v"])
        for Lx, fx, px, Rm, order in itertools.product((0, 1), (0, 1), (0, 1), (0.1, 0, 1.5), (("cml_id", "time"), ("time", "cml_id"))):
            if not ctx.mine():
                continue
            co = {"cml_id": ["x", "y", "z"]}
            da = xr.DataArray(A, dims=("cml_id", "time"), coords=dict(co, time=np.arange(4))).transpose(*order)
            L = xr.DataArray(Ls, dims="cml_id", coords=co) if Lx else 4.0
            f = xr.DataArray(fs, dims="cml_id", coords=co) if fx else 25.0
            p = xr.DataArray(pols, dims="cml_id", coords=co) if px else "H"
            case = dict(per_link=dict(L=Lx, f=fx, pol=px), R_min=Rm, order=order)
            ok, g = ctx.call(case, fn, da, L, f, p, R_min=Rm)
            ctx.step(12)
            ctx.state((Lx, fx, px, Rm, order))
            if ok:
                for i, c in enumerate("xyz"):
                    a, b = ab(fs[i] if fx else 25.0, pols[i] if px else "H")
                    ctx.eq("rain rate of link %s" % c, g.sel(cml_id=c).transpose("time").values, model(A[i], Ls[i] if Lx else 4.0, a, b, Rm), case, rtol=1e-6)
                ctx.trace(outcome=(Lx, fx, px, Rm, order))
