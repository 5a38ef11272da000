"""C12: interpolation results do not depend on earlier calls."""
import itertools

import numpy as np

from ..core import nan
from .c11 import SYSTEMS, compare
from .oracle_interp import grid, idw, krige

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "all sequences of up to 3 (thorough 4) of 20 user actions between calls of one interpolator object (moving/replacing/reordering points "
    "in place or by new arrays, values appearing/vanishing, other grids, changed settings, writing into returned grids, using a second "
    "object), every call compared with the history-free model and every earlier result re-checked, also in metric and small-scale coordinate systems; same for the tree object and kriging"
)
ASSUMPTIONS = ["single-threaded use of one interpolator object", "kriging: no or at least two values present"]


class User:
    """The caller's side: arrays it owns, settings it chose."""

    def __init__(self, sc=1.0, ox=0.0, oy=0.0):
        self.sc = sc
        self.x = np.array([0.13, 1.07, 0.31, 2.41])
        self.y = np.array([0.21, 0.02, 1.93, 1.17])
        self.z = np.array([1.0, 5.0, -2.0, 7.0])
        self.gx = np.array([[0.13, 1.5, 3.3], [0.9, 0.31, 2.0]])
        self.gy = np.array([[0.21, 1.4, 3.1], [0.4, 1.93, 0.6]])
        self.s = dict(nnear=2, p=2, max_distance=None, exclude_nan=True)
        self.res = None
        if (sc, ox, oy) != (1.0, 0.0, 0.0):
            self.x, self.gx = self.x * sc + ox, self.gx * sc + ox
            self.y, self.gy = self.y * sc + oy, self.gy * sc + oy

    def key(self):
        return (self.x.tobytes(), self.y.tobytes(), self.z.tobytes(), self.gx.tobytes(), str(self.s), self.res)


def a_none(u, f):
    pass


def a_move_inplace(u, f):
    u.x[0] += 0.75 * u.sc
    u.y[1] += 0.5 * u.sc


def a_move_new(u, f):
    u.x = u.x + u.sc * np.array([0.0, 0.4, -0.3, 0.0])


def a_equal_copy(u, f):
    u.x, u.y, u.z, u.gx, u.gy = (v.copy() for v in (u.x, u.y, u.z, u.gx, u.gy))


def a_reverse(u, f):
    u.x, u.y = u.x[::-1].copy(), u.y[::-1].copy()


def a_swap_xy(u, f):
    u.x, u.y = u.y, u.x


def a_z_inplace(u, f):
    u.z[0] += 3
    u.z[2] = 9.5


def a_nan_toggle0(u, f):
    u.z[0] = 4.0 if u.z[0] != u.z[0] else nan


def a_nan_toggle1(u, f):
    u.z[1] = 6.0 if u.z[1] != u.z[1] else nan


def a_all_nan(u, f):
    u.z = np.full(4, nan) if not np.isnan(u.z).all() else np.array([2.0, nan, 1.0, 8.0])


def a_grid_inplace(u, f):
    u.gx[0, 0] += 0.6 * u.sc
    u.gy[-1, -1] -= 0.3 * u.sc


def a_nudge_points(u, f):
    u.x = u.x + u.sc * 1e-3


def a_nudge_grid(u, f):
    u.gx, u.gy = u.gx + u.sc * 1e-3, u.gy - u.sc * 1e-3


def a_grid_shape(u, f):
    u.gx, u.gy = u.gx.T.copy(), u.gy.T.copy()


def a_resolution(u, f):
    u.res = 0.5 * u.sc if u.res is None else None


def a_nnear(u, f):
    u.s["nnear"] = 3 if u.s["nnear"] == 2 else 2
    f.nnear = u.s["nnear"]


def a_p(u, f):
    u.s["p"] = 1 if u.s["p"] == 2 else 2
    f.p = u.s["p"]


def a_max_distance(u, f):
    m = [None, 1.13 * u.sc, 2.41 * u.sc]
    u.s["max_distance"] = m[(m.index(u.s["max_distance"]) + 1) % 3]
    f.max_distance = u.s["max_distance"]


def a_exclude(u, f):
    u.s["exclude_nan"] = not u.s["exclude_nan"]
    f.exclude_nan = u.s["exclude_nan"]


def a_scribble(u, f):
    u.last[:] = 77.0
    u.kept = u.kept[:-1]


IDW_ACTIONS = [a_none, a_move_inplace, a_move_new, a_equal_copy, a_reverse, a_swap_xy, a_z_inplace, a_nan_toggle0, a_nan_toggle1, a_all_nan, a_nudge_points, a_nudge_grid, a_grid_inplace, a_grid_shape, a_resolution, a_nnear, a_p, a_max_distance, a_exclude, a_scribble]
OK_ACTIONS = [a_move_inplace, a_move_new, a_equal_copy, a_reverse, a_z_inplace, a_nan_toggle0, a_all_nan, a_grid_inplace, a_grid_shape, a_resolution, a_scribble]


def do_call(ctx, u, f, case, kind="idw", par=None):
    args = (u.x, u.y, u.z)
    before = [v.copy() for v in (u.x, u.y, u.z, u.gx, u.gy)]
    if u.res is None:
        ok, g = ctx.call(case, f, *args, xgrid=u.gx, ygrid=u.gy)
        gx, gy = u.gx, u.gy
    else:
        ok, g = ctx.call(case, f, *args, resolution=u.res)
        gx, gy = np.meshgrid(np.arange(min(u.x) - u.res, max(u.x) + u.res, u.res), np.arange(min(u.y) - u.res, max(u.y) + u.res, u.res))
    ctx.step()
    if not ok:
        return False
    for v, b in zip((u.x, u.y, u.z, u.gx, u.gy), before):
        if not np.array_equal(v, b, equal_nan=True):
            ctx.fail("the call modified its inputs", case)
    for old, copy_ in u.kept:
        if not np.array_equal(old, copy_, equal_nan=True):
            ctx.fail("a result returned earlier was changed by a later call", case)
    z = u.z.tolist()
    if np.shape(g) != gx.shape:
        ctx.fail("grid shape %s, expected %s" % (np.shape(g), gx.shape), case)
        return False
    if np.isnan(u.z).all():
        ctx.eq("all missing", g, np.full(gx.shape, nan), case)
    elif kind == "idw":
        s = u.s
        compare(ctx, case, g, list(zip(u.x.tolist(), u.y.tolist())), z, gx, gy, s["nnear"], s["p"], s["max_distance"], s["exclude_nan"])
    else:
        for ij in np.ndindex(gx.shape):
            w = krige(list(zip(u.x.tolist(), u.y.tolist())), z, (gx[ij], gy[ij]), "spherical", par)
            if abs(g[ij] - w[0]) > 1e-6 * max(1, abs(w[0])):
                ctx.fail("kriging value got %r, expected %r" % (g[ij], w[0]), case)
                break
    u.last = g
    u.kept.append((g, g.copy()))
    return True


def explore(ctx):
    from pycomlink.spatial.idw import Invdisttree
    from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator

    big = ctx.thorough
    if ctx.family("idw_action_sequences"):
        depth = 4 if big else 3
        for seq in itertools.product(IDW_ACTIONS, repeat=depth):
            if not ctx.mine():
                continue
            case = {"actions": [a.__name__[2:] for a in seq]}
            u = User()
            u.kept = []
            f = IdwKdtreeInterpolator(**u.s)
            if not do_call(ctx, u, f, case):
                continue
            for a in seq:
                a(u, f)
                ctx.state(u.key())
                if not do_call(ctx, u, f, case):
                    break
            ctx.trace(outcome=u.last.tobytes())
        ctx.sample({"actions": ["move_inplace", "nan_toggle0", "max_distance"]})
    if ctx.family("coordinate_systems"):
        acts = [a_none, a_move_inplace, a_move_new, a_nudge_points, a_nudge_grid, a_reverse, a_nan_toggle0, a_grid_inplace, a_max_distance, a_resolution]
        for system in SYSTEMS:
            for seq in itertools.product(acts, repeat=3 if big else 2):
                if not ctx.mine():
                    continue
                case = {"scale and offset": system, "actions": [a.__name__[2:] for a in seq]}
                u = User(*system)
                u.kept = []
                f = IdwKdtreeInterpolator(**u.s)
                if not do_call(ctx, u, f, case):
                    continue
                for a in seq:
                    a(u, f)
                    ctx.state(u.key())
                    if not do_call(ctx, u, f, case):
                        break
                ctx.trace(outcome=u.last.tobytes())
    if ctx.family("two_objects_interleaved"):
        # which of two objects with different settings / data is used at each step
        acts = [a_none, a_move_inplace, a_nan_toggle0, a_grid_inplace, a_max_distance, a_scribble]
        for who in itertools.product((0, 1), repeat=4):
            for seq in itertools.product(acts, repeat=2 if not big else 3):
                if not ctx.mine():
                    continue
                us = [User(), User()]
                us[1].x = us[1].x * 1.25 + 0.11
                us[1].s = dict(nnear=3, p=1, max_distance=2.41, exclude_nan=True)
                if seq[0] is a_none:  # shared arrays
                    us[1].x, us[1].y, us[1].gx, us[1].gy, us[1].z = us[0].x, us[0].y, us[0].gx, us[0].gy, us[0].z
                fs = [IdwKdtreeInterpolator(**u.s) for u in us]
                for u in us:
                    u.kept = []
                case = {"used": who, "actions": [a.__name__[2:] for a in seq]}
                for k, w in enumerate(who):
                    if k and hasattr(us[w], "last"):
                        seq[k % len(seq)](us[w], fs[w])
                    if not do_call(ctx, us[w], fs[w], case):
                        break
                    ctx.state((w, us[w].key()))
                ctx.trace()
    if ctx.family("tree_call_sequences"):
        pts = [(0.13, 0.21), (1.07, 0.02), (0.31, 1.93), (2.41, 1.17)]
        q1 = [(0.6, 0.4), (0.13, 0.21), (2.0, 1.9)]
        q2 = [(0.61, 0.4), (0.13, 0.21), (2.0, 1.9)]
        z1, z2 = [1.0, 5.0, -2.0, 7.0], [3.0, 0.0, 4.0, -7.0]
        ops = [(q, z, nn, p, md, eps) for q in (0, 1) for z in (z1, z2) for nn, p, md, eps in ((2, 1, None, 0), (3, 1, None, 0), (2, 2, None, 0), (2, 1, 1.1, 0), (2, 1, None, 3.0), (3, 2, 0.9, 0), (6, 1, None, 0))]
        for seq in itertools.product(ops, repeat=2):
            for extra in (None, ops[3], ops[18]) if not big else ops:
                if not ctx.mine():
                    continue
                tr = Invdisttree(pts)
                qa = [np.array(q1), np.array(q2)]
                kept = []
                for q, z, nn, p, md, eps in seq + ((extra,) if extra else ()):
                    kw = dict(nnear=nn, p=p, eps=eps)
                    if md is not None:
                        kw["max_distance"] = md
                    case = {"sequence": [(o[0], o[2:]) for o in seq], "then": extra and extra[2:]}
                    ok, g = ctx.call(case, tr, qa[q], z, **kw)
                    ctx.step()
                    if not ok:
                        break
                    if eps == 0:
                        want = [idw(pts, z, tuple(v), nn, p, md, True) for v in qa[q].tolist()]
                        ctx.eq("tree result", g, want, case, rtol=1e-7)
                    for a, b in kept:
                        if not np.array_equal(a, b):
                            ctx.fail("earlier result changed", case)
                    kept.append((g, np.array(g)))
                    ctx.state((q, str(z), nn, p, md, eps))
                    qa[q][0, 0] += 0.25  # caller changes its query points in place afterwards
                ctx.trace(outcome=np.asarray(g).tobytes())
    if ctx.family("large_grids"):
        # two large sets of query points (or of sites) that differ in one place only
        def R(n, k):
            return np.array([((i * (k + 2) * 0.61803398875) % 1, (i * (k + 3) * 0.41421356237 + 0.2) % 1) for i in range(1, n + 1)])

        for n, where, what in itertools.product((300, 5000), (0, 100, 299, -1), ("query", "site", "value")):
            if not ctx.mine():
                continue
            m = 900
            sites, q = R(m, 1), R(n, 4)
            zz = np.array([((i * 37) % 41) * 0.5 for i in range(m)])
            f = IdwKdtreeInterpolator(nnear=3, p=2)
            tr = Invdisttree(sites)
            gx, gy = q[:, 0].reshape(-1, 20), q[:, 1].reshape(-1, 20)
            for k in range(3):
                if k:
                    if what == "query":
                        gx, gy = gx.copy(), gy.copy()
                        gx.ravel()[where] += 0.3
                    elif what == "site":
                        sites = sites.copy()
                        sites[where] += 0.17
                    else:
                        zz = zz.copy()
                        zz[where] += 100
                case = {"query points": n, "changed": what, "at": where, "call": k}
                qq = np.column_stack([gx.ravel(), gy.ravel()])
                # independent: all distances, three smallest
                look = sorted({0, 1, 100, 255, 256, 299, n - 1, where % n} | set(np.argsort(np.hypot(*(qq - sites[where]).T))[:4].tolist()))
                want = []
                for i in look:
                    d = np.hypot(*(sites - qq[i]).T)
                    o = np.argsort(d)[:3]
                    want.append(float((zz[o] / d[o] ** 2).sum() / (1 / d[o] ** 2).sum()))
                ok, g = ctx.call(case, f, sites[:, 0].copy(), sites[:, 1].copy(), zz.copy(), xgrid=gx, ygrid=gy)
                ctx.step(n)
                if ok:
                    ctx.eq("interpolator", np.ravel(g)[look], want, case, rtol=1e-7)
                if what == "site" and k:
                    tr = Invdisttree(sites)
                ok, g = ctx.call(case, tr, qq, zz, nnear=3, p=2)
                if ok:
                    ctx.eq("tree", np.asarray(g)[look], want, case, rtol=1e-7)
                ctx.state((n, where, what, k))
            ctx.trace(outcome=(n, where, what))
    if ctx.family("kriging_action_sequences"):
        par = {"sill": 0.9, "range": 1, "nugget": 0.1}
        for seq in itertools.product(OK_ACTIONS, repeat=3 if big else 2):
            if not ctx.mine():
                continue
            case = {"kriging actions": [a.__name__[2:] for a in seq]}
            u = User()
            u.kept = []
            f = OrdinaryKrigingInterpolator()
            if not do_call(ctx, u, f, case, "kriging", par):
                continue
            for a in seq:
                a(u, f)
                ctx.state(u.key())
                if np.isfinite(u.z).sum() == 1:
                    break  # kriging needs two values
                # another object with its own parameters is used in between
                ctx.call(case, OrdinaryKrigingInterpolator(variogram_parameters={"sill": 2.0, "range": 3.0, "nugget": 0.5}), u.x, u.y, np.array([1.0, 2.0, 3.0, 4.0]), u.gx, u.gy)
                if not do_call(ctx, u, f, case, "kriging", par):
                    break
            ctx.trace(outcome=u.last.tobytes())
