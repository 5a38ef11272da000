"""C24: coverage mask around link paths."""
import itertools
import math

import numpy as np

from ..core import nan

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "all sets of 1..3 links with endpoints on a 3x3 lattice (single links: all 81 incl. zero length; pairs: all combinations of 12 paths; "
    "triples: a full sub-grid) x 4 distances, evaluated on a fine grid; points just inside, exactly on and just outside of the edge in 180 directions; 3-4 distant links with all 8/16 combinations of end point order; grid shapes, dtypes and memory layouts"
)
ASSUMPTIONS = ["grid points between 0.9985 and 1.0 times the maximum distance are not judged (round caps are approximated by polygons)"]


class Link:
    def __init__(self, a, b):
        self.metadata = dict(site_a_longitude=a[0], site_a_latitude=a[1], site_b_longitude=b[0], site_b_latitude=b[1])


def dist(p, a, b):
    ax, ay = b[0] - a[0], b[1] - a[1]
    L2 = ax * ax + ay * ay
    t = 0.0 if L2 == 0 else max(0.0, min(1.0, ((p[0] - a[0]) * ax + (p[1] - a[1]) * ay) / L2))
    return math.hypot(p[0] - a[0] - t * ax, p[1] - a[1] - t * ay)


def explore(ctx):
    from pycomlink.spatial.coverage import calc_coverage_mask

    big = ctx.thorough
    gx, gy = np.meshgrid(np.linspace(9.03, 13.07, 15), np.linspace(46.52, 50.49, 13))
    P = [(10.0 + i, 47.5 + j) for i in range(3) for j in range(3)]

    def one(links, d, X, Y, case):
        objs = [Link(a, b) for a, b in links]
        X0, Y0 = X.copy(), Y.copy()
        ok, m = ctx.call(case, calc_coverage_mask, objs, X, Y, d)
        ctx.step(X.size)
        ctx.state(str(case))
        if not ok:
            return
        m = np.asarray(m)
        if m.shape != X.shape:
            ctx.fail("mask shape %s, expected %s" % (m.shape, X.shape), case)
            return
        if m.dtype.kind not in "bO":
            ctx.fail("mask is not boolean", case)
        for ij in np.ndindex(X.shape):
            r = min(dist((float(X[ij]), float(Y[ij])), a, b) for a, b in links)
            if 0.9985 * d <= r <= d * (1 + 1e-9) + 1e-12:
                continue
            if bool(m[ij]) != (r < d):
                ctx.fail("point (%r, %r) at distance %r: covered=%r, maximum distance %r" % (X[ij], Y[ij], r, bool(m[ij]), d), dict(case=case, links=links))
                return
        ctx.trace(outcome=m.tobytes())
        if not (np.array_equal(X, X0) and np.array_equal(Y, Y0)):
            ctx.fail("grids were modified", case)

    if ctx.family("single_links"):
        for a, b, d in itertools.product(P, P, (0.05, 0.3, 0.8, 2.5)):
            if ctx.mine():
                one([(a, b)], d, gx, gy, {"link": (a, b), "distance": d})
        ctx.sample({"link": [P[0], P[5]], "distance": 0.3})
    if ctx.family("edge_of_the_area"):
        # just inside and just outside of the area in 180 directions around both ends and along the sides
        for (a, b), d in itertools.product([((10.0, 47.0), (12.0, 48.5)), ((10.0, 47.0), (10.0, 47.0)), ((3.0, -2.0), (-1.0, 5.0)), ((7.0, 50.0), (9.5, 50.0)), ((0.0, 0.0), (0.0, 3.0))], (0.05, 0.7, 3.0)):
            for f in (0.9984, 1.0001):
                if not ctx.mine():
                    continue
                pts = [(e[0] + f * d * math.cos(math.radians(2 * q + 0.7)), e[1] + f * d * math.sin(math.radians(2 * q + 0.7))) for e in (a, b) for q in range(180)]
                L = math.hypot(b[0] - a[0], b[1] - a[1])
                if L:
                    u = ((b[0] - a[0]) / L, (b[1] - a[1]) / L)
                    pts += [(a[0] + L * q / 20 * u[0] - sg * f * d * u[1], a[1] + L * q / 20 * u[1] + sg * f * d * u[0]) for q in range(21) for sg in (1, -1)]
                one([(a, b)], d, np.array([[p[0] for p in pts]]), np.array([[p[1] for p in pts]]), {"link": (a, b), "distance": d, "points at": f})
    if ctx.family("exact_distance"):
        # axis-parallel links and dyadic numbers: points exactly at the maximum distance are covered
        for (x0, y0), L, d, vertical, flip in itertools.product([(0.0, 0.0), (10.25, 47.5), (-3.5, -60.25)], (0.5, 2.0, 8.0), (0.125, 0.5, 1.0, 4.0), (0, 1), (0, 1)):
            if not ctx.mine():
                continue
            uv = [(q, sg * d) for q in np.linspace(0.0625, L - 0.0625, 9).tolist() for sg in (-1, 1)]
            pts = [(x0 + v, y0 + u) if vertical else (x0 + u, y0 + v) for u, v in uv]
            a, b = (x0, y0), ((x0, y0 + L) if vertical else (x0 + L, y0))
            lk = Link(b, a) if flip else Link(a, b)
            case = {"link": (a, b), "distance": d, "flip": flip}
            ok, m = ctx.call(case, calc_coverage_mask, [lk], np.array([[p[0] for p in pts]]), np.array([[p[1] for p in pts]]), d)
            ctx.step(len(pts))
            if ok and not np.all(m):
                ctx.fail("a point exactly at the maximum distance is not covered", case)
            ctx.trace()
    if ctx.family("link_sets"):
        paths = [(P[i], P[j]) for i, j in ((0, 1), (0, 8), (2, 6), (4, 4), (3, 5), (1, 7), (7, 8), (6, 7), (5, 2), (8, 8), (1, 2), (0, 3))]
        for k in (2, 3):
            for c in itertools.combinations(paths if k == 2 or big else paths[:7], k):
                for d in (0.2, 0.7):
                    if ctx.mine():
                        one(list(c), d, gx, gy, {"links": c, "distance": d})
    if ctx.family("coordinate_systems"):
        # degrees, metres, offsets that leave few digits for the distances
        for (sc, ox, oy), (i, j), d in itertools.product([(1.0, 0.0, 0.0), (0.001, 11.0, 48.0), (1e-4, 151.2, -33.8), (500.0, 4.4e6, 5.3e6), (2.0, 6.9e5, 5.34e6), (30.0, -2e5, 1e4), (1.0, -179.0, -60.0)], itertools.product((0, 2, 4), (1, 4, 6, 8)), (0.07, 0.4, 1.3)):
            if not ctx.mine():
                continue
            T = lambda p: (ox + sc * (p[0] - 10.0), oy + sc * (p[1] - 47.5))
            X, Y = ox + sc * (gx - 10.0), oy + sc * (gy - 47.5)
            one([(T(P[i]), T(P[j]))], d * sc, X, Y, {"scale": sc, "offset": (ox, oy), "link": (i, j), "distance": d})
    if ctx.family("many_links"):
        for n, d in itertools.product((60, 350) if not big else (60, 350, 1200), (0.02, 0.06)):
            for start in range(4):
                if not ctx.mine():
                    continue
                lk = []
                for q in range(n):
                    x, y = 9.1 + 3.9 * ((q * 37 + start) % n) / n, 46.6 + 3.8 * ((q * 101 + 3 * start) % n) / n
                    lk.append(((x, y), (x + 0.03 * (q % 5), y - 0.02 * (q % 3))))
                one(lk, d, gx, gy, {"links": n, "distance": d, "start": start})
    if ctx.family("orientations"):
        # three links far from each other, each given in either direction; nothing may depend on which end is called a
        sets = [
            [((9.2, 46.7), (10.3, 47.3)), ((12.9, 50.3), (11.6, 49.2)), ((10.1, 49.9), (9.4, 48.8))],
            [((9.3, 48.4), (12.8, 48.6)), ((11.0, 46.7), (11.1, 50.2)), ((12.7, 46.8), (12.7, 47.9))],
            [((10.9, 48.3), (9.2, 50.2)), ((11.1, 48.2), (12.9, 46.8)), ((11.0, 48.6), (12.8, 50.1)), ((10.8, 48.0), (9.3, 46.9))],
        ]
        for q, ls in enumerate(sets):
            for flips in itertools.product((0, 1), repeat=len(ls)):
                for order in itertools.permutations(range(len(ls))) if big else ((tuple(range(len(ls)))), tuple(range(len(ls)))[::-1]):
                    for d in (0.15, 0.6):
                        if ctx.mine():
                            lk = [ls[i][::-1] if flips[i] else ls[i] for i in order]
                            one(lk, d, gx, gy, {"links": lk, "distance": d})
    if ctx.family("grid_shapes"):
        link = [((10.0, 47.5), (12.0, 48.5)), ((9.5, 50.0), (9.5, 50.0))]
        for d in (0.1, 0.6):
            for X, Y in ((gx.T.copy(), gy.T.copy()), (gx[:1], gy[:1]), (gx[:, :1], gy[:, :1]), (gx[::3, ::2], gy[::3, ::2]), (np.array([[11.0]]), np.array([[48.0]])), (gx.astype(np.float32), gy.astype(np.float32)), (np.array([[10, 11, 12], [9, 10, 11]]), np.array([[47, 48, 49], [50, 51, 48]]))):
                one(link, d, X, Y, {"grid": X.shape, "dtype": str(X.dtype), "distance": d})
        # the same grid in other memory layouts, also different ones for both coordinates
        F = np.asfortranarray
        ro = [g.copy() for g in (gx, gy)]
        for g in ro:
            g.setflags(write=False)
        wide = [np.repeat(g, 2, axis=1)[:, ::2] for g in (gx, gy)]
        for d in (0.1, 0.6):
            for k, (X, Y) in enumerate(((F(gx), F(gy)), (F(gx), gy), (gx, F(gy)), (gx.T, gy.T), (gx.T, np.ascontiguousarray(gy.T)), (gx[::-1], gy[::-1]), (gx[:, ::-1], gy[:, ::-1]), (F(gx)[::-1, ::2], gy[::-1, ::2]), tuple(wide), tuple(ro), np.broadcast_arrays(gx[:1], gy[:, :1]))):
                one(link, d, X, Y, {"layout": k, "grid": X.shape, "distance": d})
    if ctx.family("monotone_in_distance"):
        for a, b in itertools.product(P[::2], P[1::2]):
            if not ctx.mine():
                continue
            prev = None
            for d in (0.1, 0.2, 0.4, 0.8, 1.6):
                ok, m = ctx.call({"link": (a, b), "distance": d}, calc_coverage_mask, [Link(a, b)], gx, gy, d)
                ctx.step(gx.size)
                if ok:
                    if prev is not None and np.any(prev & ~np.asarray(m, bool)):
                        ctx.fail("a larger distance covers fewer points", {"link": (a, b), "distance": d})
                    prev = np.asarray(m, bool)
            ctx.trace()
