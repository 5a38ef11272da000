"""C11: inverse distance weighting onto a grid."""
import itertools

import numpy as np
import pandas as pd
import xarray as xr

from ..core import nan, words
from .oracle_interp import grid, idw, idw_many

MODES = ["nojit", "jit"]
SHARDS = {"nojit": 5, "jit": 3}
BOUNDS = (
    "all value words over {missing, 0, 2, -5} for 1..5 points (thorough: 6) x neighbour count x weight exponent x maximum distance x "
    "missing-value policy, evaluated on grids containing exact hits, near hits and far points; input containers and dtypes; "
    "generated grids over a resolution grid; 8 coordinate systems with points approaching a data point; point sets up to 12000 and grids up to 27430 cells"
)
ASSUMPTIONS = ["neighbour ties (two candidates at equal distance) and distances exactly at the maximum are not judged"]

PTS = [(0.13, 0.21), (1.07, 0.02), (0.31, 1.93), (2.41, 1.17), (1.52, 2.83), (-0.77, 0.58)]
GX = np.array([[0.13, 1.07, 3.3], [0.13 + 1e-12, 1.0, 50.0], [0.6, 0.31, -2.0]])
GY = np.array([[0.21, 0.02, 3.1], [0.21, 1.0, -50.0], [0.4, 1.93, 0.5]])

# scale and offset: degrees, small differences of degrees, kilometres, metric projections
SYSTEMS = [(1e-4, 0.0, 0.0), (1e-3, 11.0, 48.0), (0.1, -3.0, 51.0), (1.0, 11.0, 48.0), (10.0, 0.0, 0.0), (1e3, 6.5e5, 5.3e6), (50.0, 4.4e6, 5.3e6), (1e5, 0.0, 0.0)]


def compare(ctx, case, g, pts, z, gx, gy, nnear, p, md, ex):
    g = np.asarray(g, float)
    if g.shape != gx.shape:
        ctx.fail("grid shape %s, expected %s" % (g.shape, gx.shape), case)
        return
    for ij in np.ndindex(gx.shape):
        want = idw(pts, z, (float(gx[ij]), float(gy[ij])), nnear, p, md, ex)
        if want is None:
            continue
        got = float(g[ij])
        if not ((got != got and want != want) or abs(got - want) <= 1e-7 * max(1, abs(want))):
            ctx.fail("value at (%r, %r): got %r, expected %r" % (gx[ij], gy[ij], got, want), dict(case=case, points=pts, z=z))
            return
        valid = [v for v in z if v == v]
        if ex and got == got and not (min(valid) - 1e-9 <= got <= max(valid) + 1e-9):
            ctx.fail("interpolated value outside the range of the data", case)


def explore(ctx):
    from pycomlink.spatial.interpolator import IdwKdtreeInterpolator
    from pycomlink.spatial.idw import Invdisttree

    big = ctx.thorough
    if ctx.family("value_words"):
        A = (nan, 0.0, 2.0, -5.0)
        for n in range(1, 7 if big else 6):
            NN = (2, 3, 8) if n >= 5 else (2, 3, 4, 8)
            PP = (2,) if n >= 5 else (1, 2, 3, 0.5)
            MD = (None, 1.1) if n >= 5 else (None, 0.7, 1.1, 2.9)
            for nn, p, md, ex in itertools.product(NN, PP, MD, (True, False)):
                for z in words(A, n):
                    if not ctx.mine():
                        continue
                    if ctx.jit and not big and n != 3:
                        continue
                    case = dict(z=z, nnear=nn, p=p, max_distance=md, exclude_nan=ex)
                    f = IdwKdtreeInterpolator(nnear=nn, p=p, exclude_nan=ex, max_distance=md)
                    x, y = [q[0] for q in PTS[:n]], [q[1] for q in PTS[:n]]
                    ok, g = ctx.call(case, f, np.array(x), np.array(y), np.array(z), GX, GY)
                    ctx.state((n, nn, p, md, ex, tuple(map(str, z))))
                    ctx.step(9)
                    if ok:
                        compare(ctx, case, g, PTS[:n], z, GX, GY, nn, p, md, ex)
                        ctx.trace(outcome=np.asarray(g).round(6).tobytes())
        ctx.sample({"points": PTS[:3], "z": [2.0, nan, -5.0], "nnear": 2})
    if ctx.family("defaults_and_larger_sets"):
        for n in (2, 7, 8, 9, 12, 30):
            for k in range(8):
                if not ctx.mine():
                    continue
                pts = [((i * 37 % 101) / 10.0 + 0.003 * i, (i * 53 % 97) / 9.0 + 0.007 * i * i) for i in range(n)]
                z = [nan if (i + k) % 5 == 0 and n > 2 else float((i * 7 + k) % 13) for i in range(n)]
                gx, gy = np.meshgrid(np.linspace(-1.03, 11.07, 7), np.linspace(-0.98, 12.11, 6))
                for args, kw in (((), {}), ((), dict(nnear=15)), ((), dict(exclude_nan=False)), ((3, 1, True, 4.1), {}), ((), dict(max_distance=2.03))):
                    f = IdwKdtreeInterpolator(*args, **kw)
                    nn, p, ex, md = (list(args) + [8, 2, True, None][len(args):])
                    nn, ex, md = kw.get("nnear", nn), kw.get("exclude_nan", ex), kw.get("max_distance", md)
                    case = dict(n=n, k=k, args=args, **kw)
                    ok, g = ctx.call(case, f, np.array([q[0] for q in pts]), np.array([q[1] for q in pts]), np.array(z), gx, gy)
                    ctx.step(gx.size)
                    if ok:
                        compare(ctx, case, g, pts, z, gx, gy, nn, p, md, ex)
                        ctx.trace(outcome=str(case))
    if ctx.family("large_sets_and_grids"):
        # a national network: thousands of points, grids of many thousand cells
        for (n, shape), (nn, p, md, ex), miss in itertools.product(
            ((5, (130, 211)), (4200, (9, 8)), (700, (70, 65)), (1, (80, 90)), (12000, (3, 5))), ((8, 2, None, True), (12, 2, 3.05, True), (3, 1, 0.91, False), (150, 2, None, True)), (0, 3)
        ):
            if not ctx.mine() or (ex is False and miss):
                continue
            i = np.arange(n)
            x = np.modf(i * 0.6180339887498949)[0] * 60 + 1e-3 * np.sin(i)
            y = np.modf(i * 0.7548776662466927 + 0.1)[0] * 50 + 1e-3 * np.cos(3 * i)
            z = np.where((i % 7 < miss) & (n > 1), nan, ((i * 31) % 211) * 0.7 - 20)
            gx, gy = np.meshgrid(np.linspace(-2.03, 63.1, shape[1]), np.linspace(-3.3, 52.7, shape[0]))
            case = dict(points=n, grid=shape, nnear=nn, p=p, max_distance=md, exclude_nan=ex, missing_per_7=miss)
            want, sure = idw_many(np.column_stack([x, y]), z, gx, gy, nn, p, md, ex)
            ok, g = ctx.call(case, IdwKdtreeInterpolator(nnear=nn, p=p, exclude_nan=ex, max_distance=md), x, y, z, gx, gy)
            ctx.state(str(case))
            ctx.step(gx.size)
            if ok:
                g = np.asarray(g, float)
                if g.shape != gx.shape:
                    ctx.fail("grid shape %s, expected %s" % (g.shape, gx.shape), case)
                else:
                    ctx.eq("grid values", np.where(sure, g, 0), np.where(sure, want, 0), case, rtol=1e-9, atol=1e-7)
                ctx.trace(outcome=str(case))
    if ctx.family("generated_grid"):
        for n, res, k in itertools.product((1, 2, 3, 5), (0.25, 0.5, 1.0, 2.0, 8.0), range(4)):
            if not ctx.mine():
                continue
            x = [((i * 3 + k) % 7) * 0.25 + 1 for i in range(n)]
            y = [((i * 5 + 2 * k) % 9) * 0.5 - 2 for i in range(n)]
            z = np.array([float(i * i + 1) for i in range(n)])
            wx, wy = grid(x, y, res)
            for xg, yg in ((None, None), (GX, None), (None, GY)):
                f = IdwKdtreeInterpolator(nnear=3)
                case = dict(x=x, y=y, resolution=res, grid=(xg is not None, yg is not None))
                ok, g = ctx.call(case, f, x, y, z, xgrid=xg, ygrid=yg, resolution=res)
                ctx.state(str(case))
                ctx.step(wx.size)
                if ok:
                    ctx.eq("xgrid", f.xgrid, wx, case)
                    ctx.eq("ygrid", f.ygrid, wy, case)
                    compare(ctx, case, g, list(zip(x, y)), z.tolist(), wx, wy, 3, 2, None, True)
                    ctx.trace(outcome=str(case))
        for kw in ({}, dict(xgrid=GX), dict(ygrid=GY)):
            ctx.rejects(kw.keys(), IdwKdtreeInterpolator(), [0.0, 1.0], [0.0, 1.0], np.array([1.0, 2.0]), **kw)
            ctx.trace()
    if ctx.family("containers"):
        n = 4
        pts = [(0.0, 0.0), (3.0, 1.0), (1.0, 4.0), (7.0, 2.0)]
        for z, cont in itertools.product(([1.0, 2.0, 3.0, 4.0], [1.0, nan, 3.0, 4.0], [nan, nan, 3.0, nan], [nan] * 4), ("array", "list", "series", "int", "float32", "dataarray", "strided", "readonly")):
            if cont == "int" and any(v != v for v in z):
                continue
            x, y = np.array([q[0] for q in pts]), np.array([q[1] for q in pts])
            zz = np.array(z)
            if cont == "list":
                x, y = list(x), list(y)
            elif cont == "series":
                x, y, zz = pd.Series(x, index=[5, 3, 9, 1]), pd.Series(y, index=[5, 3, 9, 1]), pd.Series(zz, index=[5, 3, 9, 1])
            elif cont == "int":
                x, y, zz = x.astype(int), y.astype(int), zz.astype(int)
            elif cont == "float32":
                x, y, zz = x.astype("f4"), y.astype("f4"), zz.astype("f4")
            elif cont == "dataarray":
                x, y, zz = (xr.DataArray(v, dims="cml_id") for v in (x, y, zz))
            elif cont == "strided":
                b = np.full((n, 3), 99.0)
                b[:, 0], b[:, 1], b[:, 2] = x, y, zz
                x, y, zz = b[:, 0], b[:, 1], b[:, 2]
            elif cont == "readonly":
                for v in (x, y, zz):
                    v.setflags(write=False)
            for gx, gy in ((GX, GY), (GX.astype(int) + 1, GY.astype(int)), (GX.T, GY.T), (GX[:1], GY[:1]), (GX[:, :1], GY[:, :1]), (np.array([[2.0]]), np.array([[2.5]]))):
                for ex, md in ((True, None), (False, None), (True, 2.2)):
                    case = dict(z=z, container=cont, exclude_nan=ex, max_distance=md, grid=str(gx.shape) + str(gx.dtype))
                    keep = [np.array(v, float) for v in (x, y, zz, gx, gy)]
                    ok, g = ctx.call(case, IdwKdtreeInterpolator(nnear=3, exclude_nan=ex, max_distance=md), x, y, zz, gx, gy)
                    ctx.step(gx.size)
                    if ok:
                        if all(v != v for v in z):
                            ctx.eq("all missing", g, np.full(gx.shape, nan), case)
                        else:
                            compare(ctx, case, g, pts, z, gx.astype(float), gy.astype(float), 3, 2, md, ex)
                        ctx.trace(outcome=str(case))
                        for a, b in zip((x, y, zz, gx, gy), keep):
                            if not np.array_equal(np.array(a, float), b, equal_nan=True):
                                ctx.fail("input modified", case)
    if ctx.family("coordinate_systems"):
        # the same geometry in degrees, kilometres or metres, far from the origin, and approaching a data point
        for (sc, ox, oy), p, md, ex in itertools.product(SYSTEMS, (1, 2, 0.5), (None, 1.1), (True, False)):
            if not ctx.mine():
                continue
            for z in ([0.0, 1e6, -3e5, 2.0], [nan, 1e6, 7.0, 0.0], [2.0, 0.0, nan, nan]):
                pts = [(ox + sc * q[0], oy + sc * q[1]) for q in PTS[:4]]
                near = [10.0 ** -k for k in range(1, 8) if sc * 10.0 ** -k > max(1e-7, 1e-12 * abs(oy))]
                gx = np.array([[ox + sc * (q[0] + d * c) for d in near for q in PTS[:2] for c in (0.6, -0.8)] + (GX * sc + ox).ravel().tolist()])
                gy = np.array([[oy + sc * (q[1] + d * c) for d in near for q in PTS[:2] for c in (0.8, 0.6)] + (GY * sc + oy).ravel().tolist()])
                m = None if md is None else md * sc
                case = dict(scale=sc, offset=(ox, oy), p=p, max_distance=m, exclude_nan=ex, z=z)
                f = IdwKdtreeInterpolator(nnear=3, p=p, exclude_nan=ex, max_distance=m)
                ok, g = ctx.call(case, f, np.array([q[0] for q in pts]), np.array([q[1] for q in pts]), np.array(z), gx, gy)
                ctx.state((sc, ox, p, md, ex, str(z)))
                ctx.step(gx.size)
                if ok:
                    compare(ctx, case, g, pts, z, gx, gy, 3, p, m, ex)
                    ctx.trace(outcome=np.asarray(g).round(6).tobytes())
    if ctx.family("no_reach"):
        # a maximum distance of zero, or tiny: nothing but (nearly) coincident cells can have a value
        for z, p, ex, md in itertools.product(words((0.0, 2.0, -5.0, nan), 3), (1, 2), (True, False), (0, 0.0, 1e-9, 1e-3)):
            if not ctx.mine() or all(v != v for v in z):
                continue
            pts = PTS[:3]
            gx, gy = np.array([[1.0, 3.3, -2.0, 0.2]]), np.array([[1.0, 3.1, 0.5, 0.2]])
            case = dict(z=z, p=p, exclude_nan=ex, max_distance=md)
            f = IdwKdtreeInterpolator(nnear=3, p=p, exclude_nan=ex, max_distance=md)
            ok, g = ctx.call(case, f, np.array([q[0] for q in pts]), np.array([q[1] for q in pts]), np.array(z), gx, gy)
            ctx.state(str(case))
            ctx.step(gx.size)
            if ok:
                ctx.eq("cells without a point within the maximum distance", g, np.full(gx.shape, nan), case)
                ctx.trace(outcome=str(case))
    if ctx.family("nearest_neighbour_tree"):
        for n, nn, p, md in itertools.product((2, 3, 5), (2, 3, 6), (1, 2, 3), (None, 0.9, 3.0)):
            if not ctx.mine():
                continue
            z = [float(3 * i - 4) for i in range(n)]
            tr = Invdisttree(PTS[:n])
            kw = dict(nnear=nn, p=p)
            if md is not None:
                kw["max_distance"] = md
            qs = list(zip(GX.ravel().tolist(), GY.ravel().tolist()))
            case = dict(n=n, **kw)
            ok, g = ctx.call(case, tr, qs, z, **kw)
            if ok:
                compare(ctx, case, np.reshape(g, GX.shape), PTS[:n], z, GX, GY, nn, p, md, True)
            for q in qs[::2]:
                ok, v = ctx.call(case, tr, np.array(q), np.array(z), **kw)
                ctx.step()
                want = idw(PTS[:n], z, q, nn, p, md, True)
                if ok and want is not None:
                    ctx.eq("single query point", v, want, dict(case, q=q), rtol=1e-7)
            ctx.trace(outcome=str(case))
        for bad in (1, 0, -3):
            ctx.rejects({"nnear": bad}, Invdisttree(PTS[:3]), [(0.0, 0.0)], [1.0, 2.0, 3.0], nnear=bad)
            ctx.rejects({"nnear": bad}, IdwKdtreeInterpolator(nnear=bad), np.array([0.0, 1.0]), np.array([0.0, 1.0]), np.array([1.0, 2.0]), GX, GY)
            ctx.trace(2)
        ctx.rejects("length mismatch", Invdisttree(PTS[:3]), [(0.0, 0.0)], [1.0, 2.0])
        ctx.rejects("length mismatch", IdwKdtreeInterpolator(), np.array([0.0, 1.0]), np.array([0.0, 1.0]), np.array([1.0, 2.0, 3.0]), GX, GY)
        ctx.trace(2)
