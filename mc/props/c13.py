"""C13: ordinary kriging onto a grid."""
import itertools

import numpy as np
import pandas as pd
import xarray as xr

from ..core import nan, words
from .c11 import SYSTEMS
from .oracle_interp import grid, krige, krige_many

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "all value words over {missing, 0, 3, -5} for 2..5 points x variogram model and parameter grid x moving-window size x backend; "
    "all subsets of 2 to 6 points (thorough: 9) of a 3x3 lattice; estimates beyond the range of the data; estimate and kriging variance at exact hits, near and far points; generated grids; containers; 8 coordinate systems, also with two points very near to each other; all-missing values; up to 330 points and 9090 cells"
)
ASSUMPTIONS = ["at least two points with values, no two points at the same place", "explicit variogram parameters (automatic fitting is pykrige's)"]

PTS = [(0.13, 0.21), (1.07, 0.02), (0.31, 1.93), (2.41, 1.17), (1.52, 2.83)]
GX = np.array([[0.13, 1.5, 3.3], [0.9, 0.31, 40.0]])
GY = np.array([[0.21, 1.4, 3.1], [0.4, 1.93, -9.0]])
DEF = {"sill": 0.9, "range": 1, "nugget": 0.1}


def check(ctx, case, f, g, pts, z, gx, gy, model, par, nc=None):
    g = np.asarray(g, float)
    sg = np.asarray(getattr(f, "sigma", None), float) if hasattr(f, "sigma") else None
    if g.shape != gx.shape:
        ctx.fail("grid shape %s, expected %s" % (g.shape, gx.shape), case)
        return
    if sg is not None and sg.size == g.size:
        sg = sg.reshape(g.shape)
    for ij in np.ndindex(gx.shape):
        w = krige(pts, z, (float(gx[ij]), float(gy[ij])), model, par, nc)
        if w is None:
            continue
        if abs(g[ij] - w[0]) > 1e-6 * max(1, abs(w[0])) or g[ij] != g[ij]:
            ctx.fail("estimate at (%r, %r): got %r, expected %r" % (gx[ij], gy[ij], g[ij], w[0]), dict(case=case, points=pts, z=z))
            return
        if sg is not None and (abs(sg[ij] - w[1]) > 1e-6 * max(1, abs(w[1]))):
            ctx.fail("kriging variance at (%r, %r): got %r, expected %r" % (gx[ij], gy[ij], sg[ij], w[1]), dict(case=case, points=pts, z=z))
            return


def explore(ctx):
    from pycomlink.spatial.interpolator import OrdinaryKrigingInterpolator as OK

    big = ctx.thorough
    A = (nan, 0.0, 3.0, -5.0)
    if ctx.family("value_words"):
        for n in (2, 3, 4, 5):
            for z in words(A, n):
                if sum(v == v for v in z) < 2 or not ctx.mine():
                    continue
                pts = PTS[:n]
                f = OK()
                case = dict(z=z)
                ok, g = ctx.call(case, f, np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), np.array(z), GX, GY)
                ctx.state(tuple(map(str, z)))
                ctx.step(GX.size)
                if ok:
                    check(ctx, case, f, g, pts, z, GX, GY, "spherical", DEF)
                    ctx.trace(outcome=g.round(6).tobytes())
        ctx.sample({"points": PTS[:3], "z": [0.0, nan, 3.0]})
    if ctx.family("models_and_windows"):
        models = [("spherical", dict(sill=s, range=r, nugget=n)) for s in (0.9, 3.0) for r in (0.7, 2.5, 30.0) for n in (0.0, 0.25)]
        models += [("exponential", dict(sill=2.0, range=r, nugget=n)) for r in (0.7, 5.0) for n in (0.0, 0.5)]
        models += [("gaussian", dict(sill=2.0, range=r, nugget=0.5)) for r in (0.7, 2.0)]
        models += [("linear", dict(slope=0.7, nugget=n)) for n in (0.0, 0.2)]
        models += [("power", dict(scale=0.7, exponent=e, nugget=0.1)) for e in (0.5, 1.5)]
        for (m, par), nc, be, n in itertools.product(models, (None, 2, 3, 4), ("C", "loop"), (4, 5)):
            for z in ([1.0, 5.0, -2.0, 7.0, 0.5][:n], [1.0, nan, -2.0, 7.0, 0.5][:n], [nan, 2.0, 2.0, nan, 2.0][:n]):
                nv = sum(v == v for v in z)
                if not ctx.mine() or (nc is not None and nc > nv):
                    continue
                pts = PTS[:n]
                case = dict(model=m, par=par, n_closest_points=nc, backend=be, z=z)
                p0 = dict(par)
                f = OK(variogram_model=m, variogram_parameters=par, n_closest_points=nc, backend=be)
                ok, g = ctx.call(case, f, np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), np.array(z), GX, GY)
                ctx.state(str(case))
                ctx.step(GX.size)
                if ok:
                    check(ctx, case, f, g, pts, z, GX, GY, m, p0, nc)
                    ctx.trace(outcome=str(case))
                if par != p0:
                    ctx.fail("variogram parameters were modified", case)
    if ctx.family("all_missing_and_grids"):
        x, y = [1.0, 3.5, 2.25], [0.5, 0.75, 4.0]
        for res, z in itertools.product((0.5, 1.0, 4.0), ([1.0, 2.0, 5.0], [nan, 2.0, 5.0], [nan] * 3)):
            for cont in (list, np.array, pd.Series):
                f = OK()
                case = dict(resolution=res, z=z, container=cont.__name__)
                zz = pd.Series(z) if cont is pd.Series else np.array(z)
                ok, g = ctx.call(case, f, cont(x), cont(y), zz, resolution=res)
                wx, wy = grid(x, y, res)
                ctx.step(wx.size)
                ctx.trace(outcome=str(case))
                if not ok:
                    continue
                ctx.eq("xgrid", f.xgrid, wx, case)
                ctx.eq("ygrid", f.ygrid, wy, case)
                if all(v != v for v in z):
                    ctx.eq("all missing", g, np.full(wx.shape, nan), case)
                else:
                    check(ctx, case, f, g, list(zip(x, y)), z, wx, wy, "spherical", DEF)
        for gx, gy in ((GX, GY), (GX.astype(int), GY.astype(int)), (GX.T, GY.T), (np.array([[2.5]]), np.array([[2.5]]))):
            for z in (np.array([nan] * 3), np.array([1.0, 2.0, 5.0]), np.array([1, 2, 5])):
                f = OK()
                case = dict(grid=str(gx.dtype) + str(gx.shape), z=z)
                ok, g = ctx.call(case, f, np.array(x), np.array(y), z, gx, gy)
                ctx.step(gx.size)
                ctx.trace(outcome=str(case))
                if ok:
                    if np.isnan(z.astype(float)).all():
                        ctx.eq("all missing", g, np.full(gx.shape, nan), case)
                    else:
                        check(ctx, case, f, g, list(zip(x, y)), z.tolist(), gx.astype(float), gy.astype(float), "spherical", DEF)
        for kw in ({}, dict(xgrid=GX), dict(ygrid=GY)):
            ctx.rejects(str(kw.keys()), OK(), x, y, np.array([1.0, 2.0, 3.0]), **kw)
            ctx.trace()
    if ctx.family("coordinate_systems"):
        for (sc, ox, oy), z, close_by in itertools.product(SYSTEMS, ([1.0, 5.0, -2.0, 7.0], [1.0, nan, -2.0, 7.0]), (None, 1e-2, 1e-3)):
            if not ctx.mine():
                continue
            pts = [(ox + sc * q[0], oy + sc * q[1]) for q in PTS[:4]]
            zz = list(z)
            if close_by is not None:  # a further point very near to the first one
                pts.append((ox + sc * (PTS[0][0] + close_by), oy + sc * PTS[0][1]))
                zz.append(2.5)
            for par in (dict(sill=0.9, range=1.0 * sc, nugget=0.1), dict(sill=2.0, range=3.0 * sc, nugget=0.0)):
                gx, gy = GX * sc + ox, GY * sc + oy
                f = OK(variogram_parameters=dict(par))
                case = dict(scale=sc, offset=(ox, oy), z=zz, par=par)
                ok, g = ctx.call(case, f, np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), np.array(zz), gx, gy)
                ctx.state(str(case))
                ctx.step(gx.size)
                if ok:
                    check(ctx, case, f, g, pts, zz, gx, gy, "spherical", par)
                    ctx.trace(outcome=str(case))
    if ctx.family("large_sets_and_grids"):
        for (n, shape), (m, par), be, k in itertools.product(
            ((4, (90, 101)), (60, (20, 21)), (170, (9, 8)), (330, (3, 4)), (25, (1, 400)), (25, (400, 1))),
            (("spherical", dict(sill=2.0, range=25.0, nugget=0.1)), ("exponential", dict(sill=1.3, range=40.0, nugget=0.0)), ("linear", dict(slope=0.4, nugget=0.2))),
            ("C", "loop", None),
            range(2),
        ):
            if not ctx.mine() or (be == "loop" and n * shape[0] * shape[1] > 40000):
                continue
            i = np.arange(n)
            x = np.modf(i * 0.6180339887498949)[0] * 60 + 1e-3 * np.sin(i)
            y = np.modf(i * 0.7548776662466927 + 0.1)[0] * 50 + 1e-3 * np.cos(3 * i)
            z = 100.0 / 3 * np.sin(1.7 * i + k) + 0.1 * i
            z[k * 2 :: 9 if k else 100000] = nan
            if k == 0:
                z[0] = 123.456789012345
            gx, gy = np.meshgrid(np.linspace(-2.03, 63.1, shape[1]), np.linspace(-3.3, 52.7, shape[0]))
            case = dict(points=n, grid=shape, model=m, par=par, backend=be, pattern=k)
            kw = dict(backend=be) if be else {}
            f = OK(variogram_model=m, variogram_parameters=dict(par), **kw)
            ok, g = ctx.call(case, f, x, y, z, gx, gy)
            ctx.state(str(case))
            ctx.step(gx.size)
            if ok:
                want, var = krige_many(np.column_stack([x, y]), z, gx, gy, m, par)
                ctx.eq("estimates", g, want, case, rtol=1e-9, atol=1e-8)
                if hasattr(f, "sigma"):
                    ctx.eq("kriging variance", np.reshape(np.asarray(f.sigma, float), gx.shape), var, case, rtol=1e-9, atol=1e-8)
                ctx.trace(outcome=str(case))
    if ctx.family("exactness_of_large_sets"):
        # with and without nugget the estimate at a station is its value, however many stations there are
        for n, (m, par), be in itertools.product((120, 510, 1030), (("spherical", dict(sill=2.0, range=25.0, nugget=0.1)), ("exponential", dict(sill=1.3, range=40.0, nugget=0.3))), ("C", "loop")):
            if not ctx.mine():
                continue
            i = np.arange(n)
            x = np.modf(i * 0.6180339887498949)[0] * 60 + 1e-3 * np.sin(i)
            y = np.modf(i * 0.7548776662466927 + 0.1)[0] * 50 + 1e-3 * np.cos(3 * i)
            z = 20.0 * np.sin(1.7 * i) + 0.1 * i
            sel = np.array([0, 3, n // 2, n - 1])
            gx, gy = np.array([x[sel], x[sel] + 0.37]), np.array([y[sel], y[sel] + 0.21])
            case = dict(points=n, model=m, par=par, backend=be)
            f = OK(variogram_model=m, variogram_parameters=dict(par), backend=be)
            ok, g = ctx.call(case, f, x, y, z, gx, gy)
            ctx.state(str(case))
            ctx.step(gx.size)
            if ok:
                want, var = krige_many(np.column_stack([x, y]), z, gx[1:], gy[1:], m, par)
                ctx.eq("estimates", np.asarray(g)[1:], want, case, rtol=1e-8, atol=1e-7)
                ctx.eq("value at the stations", np.asarray(g)[0], z[sel], case, rtol=1e-8, atol=1e-7)
                ctx.trace(outcome=str(case))
    if ctx.family("moving_windows"):
        # any number of closest points
        for n, nc, be, k in itertools.product((15, 40), (2, 5, 9, 10, 11, 12, 14, 15, 16, 20, 21, 33, 40), ("C", "loop"), range(2)):
            i = np.arange(n)
            z = 100.0 / 3 * np.sin(1.7 * i + k) + 0.1 * i
            if k:
                z[3::7] = nan
            if nc > np.isfinite(z).sum() or not ctx.mine():
                continue
            x = np.modf(i * 0.6180339887498949)[0] * 60 + 1e-3 * np.sin(i)
            y = np.modf(i * 0.7548776662466927 + 0.1)[0] * 50 + 1e-3 * np.cos(3 * i)
            gx, gy = np.meshgrid(np.linspace(-2.03, 63.1, 4), np.linspace(-3.3, 52.7, 3))
            m, par = ("spherical", dict(sill=2.0, range=25.0, nugget=0.1)) if k else ("exponential", dict(sill=1.3, range=40.0, nugget=0.0))
            case = dict(points=n, n_closest_points=nc, backend=be, model=m)
            f = OK(variogram_model=m, variogram_parameters=dict(par), n_closest_points=nc, backend=be)
            ok, g = ctx.call(case, f, x, y, z, gx, gy)
            ctx.state(str(case))
            ctx.step(gx.size)
            if ok:
                check(ctx, case, f, g, list(zip(x.tolist(), y.tolist())), z.tolist(), gx, gy, m, par, nc)
                ctx.trace(outcome=str(case))
    if ctx.family("lattices"):
        # stations on a lattice: rows and columns share coordinates; smooth variograms give negative weights
        L = [(0.4 * i, 0.3 * j) for i in range(3) for j in range(3)]
        gx, gy = np.array([[0.5, 1.5, 0.41, -1.0, 0.2, 3.0]]), np.array([[0.6, 1.4, 0.29, 0.3, 0.15, -2.0]])
        for mask in range(1, 512):
            sel = [q for i, q in enumerate(L) if mask >> i & 1]
            if not 2 <= len(sel) <= (9 if big else 6):
                continue
            for par, vals in itertools.product((dict(sill=1.0, range=5.0, nugget=0.0), dict(sill=0.9, range=1.0, nugget=0.1)), ((0.0, 0.0, 1.0), (1.0, -2.0, 4.0, 3.0))):
                if not ctx.mine():
                    continue
                z = [vals[i % len(vals)] for i in range(len(sel))]
                case = dict(points=sel, z=z, par=par)
                f = OK(variogram_parameters=dict(par))
                ok, g = ctx.call(case, f, np.array([q[0] for q in sel]), np.array([q[1] for q in sel]), np.array(z), gx, gy)
                ctx.state((mask, par["range"], vals))
                ctx.step(gx.size)
                if ok:
                    check(ctx, case, f, g, sel, z, gx, gy, "spherical", par)
                    ctx.trace(outcome=np.asarray(g).round(6).tobytes())
    if ctx.family("screening"):
        # estimates outside the range of the data, on both sides
        base = [(0.4, 0.52), (1.16, 0.19), (0.54, 0.36), (0.66, 0.51)]
        gx, gy = np.array([[0.5, 1.0, 1.5, 0.3]]), np.array([[0.6, 1.1, 1.4, 0.55]])
        for z, m, be in itertools.product(words((0.0, 1.0, -3.0), 4), (("spherical", dict(sill=1.0, range=5.0, nugget=0.0)), ("exponential", dict(sill=1.0, range=5.0, nugget=0.0)), ("linear", dict(slope=0.7, nugget=0.0)), ("power", dict(scale=1.0, exponent=1.5, nugget=0.0))), ("C", "loop")):
            if not ctx.mine():
                continue
            case = dict(z=z, model=m, backend=be)
            f = OK(variogram_model=m[0], variogram_parameters=dict(m[1]), backend=be)
            ok, g = ctx.call(case, f, np.array([q[0] for q in base]), np.array([q[1] for q in base]), np.array(z), gx, gy)
            ctx.state(str(case))
            ctx.step(gx.size)
            if ok:
                check(ctx, case, f, g, base, z, gx, gy, m[0], m[1])
                ctx.trace(outcome=np.asarray(g).round(6).tobytes())
    if ctx.family("exactness"):
        # without nugget the estimate honours the data, and weights sum to one
        for z in itertools.product((0.0, 4.0, -1.0), repeat=4):
            if not ctx.mine():
                continue
            pts = PTS[:4]
            x, y = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
            f = OK(variogram_parameters={"sill": 1.0, "range": 2.0, "nugget": 0.0})
            ok, g = ctx.call(z, f, x, y, np.array(z), x.reshape(2, 2), y.reshape(2, 2))
            ctx.step(4)
            if ok:
                ctx.eq("value at the data points", g, np.array(z).reshape(2, 2), z, atol=1e-7)
            ok, g2 = ctx.call(z, f, x, y, np.array(z) + 10, GX, GY)
            ok2, g1 = ctx.call(z, f, x, y, np.array(z), GX, GY)
            if ok and ok2:
                ctx.eq("shift by a constant", g2, np.asarray(g1) + 10, z, atol=1e-6)
            ctx.trace(outcome=str(z))
