"""C27: great-circle distance."""
import itertools
import math

import numpy as np
import pandas as pd

from ..core import nan, words

MODES = ["nojit"]
SHARDS = 4
BOUNDS = (
    "all pairs of points on a lat/lon lattice (15 deg steps plus poles, date line, antipodes; thorough 5 deg) vs an independent formula; "
    "all antipodal (and nearly antipodal) pairs of a 0.25 deg lattice; all triples of a 60-point subset for the triangle inequality; short distances down to 1 m; array/scalar/broadcast forms"
)
ASSUMPTIONS = ["sphere of radius 6367 km"]
R = 6367.0


def ref(lon1, lat1, lon2, lat2):
    a, b = (np.radians(np.asarray(v, float)) for v in (lat1, lat2))
    d = np.radians(np.asarray(lon2, float) - np.asarray(lon1, float))
    y = np.hypot(np.cos(b) * np.sin(d), np.cos(a) * np.sin(b) - np.sin(a) * np.cos(b) * np.cos(d))
    x = np.sin(a) * np.sin(b) + np.cos(a) * np.cos(b) * np.cos(d)
    return R * np.arctan2(y, x)


def explore(ctx):
    from pycomlink.spatial.helper import haversine

    step = 5 if ctx.thorough else 15
    lats = sorted(set(range(-90, 91, step)) | {-89.9999, 89.9999, 47.123, 0})
    lons = sorted(set(range(-180, 181, step)) | {-179.9999, 179.9999, 11.456})
    pts = [(lo, la) for la in lats for lo in lons]
    if ctx.family("all_pairs"):
        LO, LA = np.array([p[0] for p in pts], float), np.array([p[1] for p in pts], float)
        for lo, la in pts:
            if not ctx.mine():
                continue
            case = {"from": (lo, la)}
            ok, d = ctx.call(case, haversine, lo, la, LO, LA)
            ok2, e = ctx.call(case, haversine, LO, LA, lo, la)
            ctx.step(len(pts))
            ctx.state((lo, la))
            if ok and ok2:
                w = ref(lo, la, LO, LA)
                ctx.eq("distance", d, w, case, rtol=1e-6, atol=2e-4)
                ctx.eq("symmetry", d, e, case, rtol=1e-9, atol=1e-6)
                d = np.asarray(d)
                if np.isnan(d).any() or (d < 0).any() or (d > math.pi * R * (1 + 1e-9)).any():
                    ctx.fail("distance out of range", case)
                ctx.trace(len(pts), outcome=(lo, la))
        ctx.sample({"from": [11.456, 47.123], "to": "all lattice points"})
    if ctx.family("triangle_inequality"):
        sub = pts[:: max(1, len(pts) // 60)]
        D = np.array([[float(haversine(a[0], a[1], b[0], b[1])) for b in sub] for a in sub])
        for i, j in itertools.product(range(len(sub)), repeat=2):
            if not ctx.mine():
                continue
            if (D[i, j] > D[i, :] + D[:, j] + 1e-3).any():
                ctx.fail("triangle inequality broken", {"from": sub[i], "to": sub[j]})
            ctx.step(len(sub))
            ctx.trace(len(sub))
    if ctx.family("antipodes_and_identity"):
        for lo, la in itertools.product(np.linspace(-180, 180, 73), np.linspace(-90, 90, 37)):
            if not ctx.mine():
                continue
            lo, la = float(lo), float(la)
            for sgn in (180, -180):
                ok, d = ctx.call({"point": (lo, la)}, haversine, lo, la, lo + sgn, -la)
                if ok and not abs(float(d) - math.pi * R) < 0.5:
                    ctx.fail("antipodal distance %r" % (d,), {"point": (lo, la)})
            ok, d = ctx.call({"point": (lo, la)}, haversine, lo, la, lo, la)
            if ok and not abs(float(d)) < 1e-6:
                ctx.fail("distance to itself %r" % (d,), {"point": (lo, la)})
            ok, d = ctx.call({"point": (lo, la)}, haversine, lo, la, lo + 360, la)
            if ok and not abs(float(d)) < 1e-4:
                ctx.fail("distance around the globe %r" % (d,), {"point": (lo, la)})
            ctx.step(4)
            ctx.trace(4)
        # a fine lattice, as arrays, also points close to the antipode
        lon = np.arange(-720, 721) * 0.25
        for k in range(-360, 361):
            if not ctx.mine():
                continue
            la = 0.25 * k
            for sgn, eps in itertools.product((180, -180), (0.0, 1e-9, 1e-7)):
                ok, d = ctx.call({"latitude": la}, haversine, lon, np.full(lon.shape, la), lon + sgn + eps, np.full(lon.shape, -la))
                ctx.step(len(lon))
                if ok:
                    bad = ~(np.abs(np.asarray(d, float) - math.pi * R) < 0.5)
                    if bad.any():
                        ctx.fail("antipodal distance %r" % (np.asarray(d)[bad][0],), {"point": (lon[bad][0], la), "other": (lon[bad][0] + sgn + eps, -la)})
            ctx.trace(6 * len(lon))
    if ctx.family("short_links"):
        for la, lo, k, b in itertools.product((-60.0, 0.0, 47.5, 70.0), (-179.99999, 11.0, 179.9995), range(0, 24), (0, 1, 2, 3)):
            if not ctx.mine():
                continue
            dx, dy = [(1, 0), (0, 1), (1, 1), (-1, 2)][b]
            s = 1e-5 * 1.7 ** k
            case = {"from": (lo, la), "step": (dx * s, dy * s)}
            ok, d = ctx.call(case, haversine, lo, la, lo + dx * s, la + dy * s)
            ctx.step()
            if ok:
                ctx.eq("short distance", d, float(ref(lo, la, lo + dx * s, la + dy * s)), case, rtol=1e-5, atol=1e-6)
                ctx.trace(outcome=(la, lo, k, b))
    if ctx.family("input_forms"):
        A = [(11.0, 47.0), (12.5, -3.0), (nan, 5.0)]
        B = [(11.5, 47.5), (180.0, 90.0), (0.0, 0.0)]
        for p in itertools.product(range(3), repeat=2):
            i, j = p
            w = float(ref(*A[i], *B[j]))
            for mk in (float, np.float64, lambda v: np.array([v]), lambda v: np.array(v), lambda v: pd.Series([v]), np.float32):
                ok, d = ctx.call({"a": A[i], "b": B[j]}, haversine, *(mk(v) for v in A[i] + B[j]))
                ctx.step()
                if ok:
                    ctx.eq("value", np.asarray(d, float).ravel(), [w], {"a": A[i], "b": B[j]}, rtol=1e-5, atol=1e-3)
                    ctx.trace()
        a = np.array([[1.0, 2.0, 3.0]])
        b = np.array([[4.0], [5.0]])
        ok, d = ctx.call("broadcast", haversine, a, b, a + 1, b + 1)
        if ok:
            ctx.eq("broadcast", d, ref(a, b, a + 1, b + 1), "broadcast", rtol=1e-6)
            ctx.trace()
        ok, d = ctx.call("ints", haversine, 11, 47, 12, 48)
        if ok:
            ctx.eq("ints", d, float(ref(11, 47, 12, 48)), "ints", rtol=1e-6)
            ctx.trace()
