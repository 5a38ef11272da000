"""C30: path-averaged reference series from gridded data and resampling onto it."""
import itertools
import math
from collections import namedtuple

import numpy as np
import pandas as pd
import xarray as xr

from ..core import nan

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "all ordered pairs of 16 irregular end points as link paths over a 4x5 grid (inside and partly outside) x value patterns x all "
    "start/end relations of the link data to 6 grid times; all 255 subsets of 8 sample times x label side x time zone for the resampling; "
    "all sequences of two links on one validator object; links moved, data or grid exchanged between calls; two channels of different periods; all ordered pairs of 20 lattice points as paths over 11 grids of other shape, orientation and resolution; "
    "all pairs of subsets of 6 time stamps of link and reference for the correlation; cells and weights drawn for every 9th (thorough: 3rd) path"
)
ASSUMPTIONS = ["regular grid, coordinates are cell centres", "the path is not parallel to and on a cell border", "grid values on the path are present", "at least three cells in each direction, longitudes ascending and not finer than latitudes (limits of the grid library used)"]

Coords = namedtuple("Coords", "lon_a lat_a lon_b lat_b")
LON = np.array([10.0, 10.5, 11.0, 11.5, 12.0])
LAT = np.array([47.0, 47.5, 48.0, 48.5])
T = pd.date_range("2021-06-01 00:00", periods=6, freq="15min")


class Ch:
    def __init__(self, ix):
        self.data = pd.DataFrame({"v": 0.0}, index=ix)


class Cml:
    def __init__(self, a, b, ix1, ix2=None):
        self.c = Coords(a[0], a[1], b[0], b[1])
        self.channel_1 = Ch(ix1)
        self.channel_2 = Ch(ix1 if ix2 is None else ix2)

    def get_coordinates(self):
        return self.c


def clip(a, b, x0, x1, y0, y1):
    t0, t1 = 0.0, 1.0
    for p, q in ((a[0] - b[0], a[0] - x0), (b[0] - a[0], x1 - a[0]), (a[1] - b[1], a[1] - y0), (b[1] - a[1], y1 - a[1])):
        if p == 0:
            if q < 0:
                return 0.0
        else:
            r = q / p
            if p < 0:
                t0 = max(t0, r)
            else:
                t1 = min(t1, r)
    return max(0.0, t1 - t0)


def weights(a, b, LON=LON, LAT=LAT):
    h, g = abs(LON[1] - LON[0]) / 2, abs(LAT[1] - LAT[0]) / 2
    return np.array([[clip(a, b, x - h, x + h, y - g, y + g) for x in LON] for y in LAT])


def grid_ds(k, LON=LON, LAT=LAT, T=T):
    n = len(T)
    v = np.array([[[(t * 7 + j * 3 + i * 5 + k) % 11 + 0.5 * ((i + j + t) % 2) for i in range(len(LON))] for j in range(len(LAT))] for t in range(n)], float)
    lo, la = np.meshgrid(LON, LAT)
    return xr.Dataset({"R": (("time", "y", "x"), v), "Q": (("time", "y", "x"), -2 * v)}, coords=dict(time=T.values, longitudes=(("y", "x"), lo), latitudes=(("y", "x"), la)))


def explore(ctx):
    from pycomlink.validation.validator import GridValidator

    PT = [(9.93 + 0.137 * i + (0.41 if i % 3 else 0.0), 46.87 + 0.093 * ((i * 7) % 16) + 0.011 * i) for i in range(13)] + [(12.1, 48.61), (9.5, 47.1), (12.9, 48.2)]
    full = pd.date_range("2021-05-31 23:00", "2021-06-01 03:00", freq="1min")

    def judge(case, ds, var, a, b, tmask, got):
        w = weights(a, b)
        if not isinstance(got, (pd.DataFrame, pd.Series)):
            ctx.fail("unexpected result type", case)
            return
        col = got[var] if isinstance(got, pd.DataFrame) else got
        want = [float((w * np.nan_to_num(ds[var].values[t])).sum()) for t in range(len(T)) if tmask[t]]
        ix = [T[t] for t in range(len(T)) if tmask[t]]
        if list(pd.DatetimeIndex(col.index)) != ix:
            ctx.fail("time steps: got %s, expected %s" % (list(col.index), ix), case)
            return
        ctx.eq("path average", col.values, want, case, rtol=1e-6, atol=1e-7)

    if ctx.family("paths"):
        for a, b in itertools.permutations(PT, 2):
            if not ctx.mine():
                continue
            w = weights(a, b)
            if w.sum() == 0:
                continue
            for k, var in ((0, "R"), (3, "Q")):
                ds = grid_ds(k)
                if k == 3:
                    # missing values off the path must not matter
                    ds["Q"] = ds.Q.where(xr.DataArray(w > 0, dims=("y", "x")))
                ds0 = ds.copy(deep=True)
                gv = GridValidator(xr_ds=ds)
                case = {"a": a, "b": b, "variable": var}
                ok, g = ctx.call(case, gv.get_time_series, Cml(a, b, full), var)
                ctx.step(w.size)
                if ok:
                    judge(case, ds, var, a, b, [True] * len(T), g)
                    ctx.eq("weights", gv.intersect_weights, w, case, atol=1e-7)
                    ctx.state((a, b))
                    ctx.trace(outcome=(a, b, k))
                if not ds.identical(ds0):
                    ctx.fail("grid data was modified", case)
        ctx.sample({"a": PT[0], "b": PT[5]})
    if ctx.family("tiny_shares"):
        # paths that cut off a corner of a cell or end just behind its border
        full2 = full
        for ex in (0.1, 1e-2, 1e-3, 1e-4, 1e-5):
            for cx, cy in itertools.product((10.25, 11.25), (47.25, 47.75)):
                for a, b in (((cx - 0.4, cy + 0.4 + ex), (cx + 0.4, cy - 0.4 + ex)), ((cx - 0.3, cy - 0.3 + ex), (cx + 0.3, cy + 0.3 + ex)), ((cx - 0.9, cy + 0.1), (cx + ex, cy + 0.1037)), ((cx + 0.13, cy - 0.7), (cx + 0.1341, cy + ex))):
                    if not ctx.mine():
                        continue
                    ds = grid_ds(0)
                    ds["R"] = ds.R * 100 + 1
                    gv = GridValidator(xr_ds=ds)
                    case = {"a": a, "b": b, "excess": ex}
                    ok, g = ctx.call(case, gv.get_time_series, Cml(a, b, full2), "R")
                    ctx.step(20)
                    if ok:
                        judge(case, ds, "R", a, b, [True] * len(T), g)
                        ctx.eq("weights", gv.intersect_weights, weights(a, b), case, atol=1e-9, rtol=1e-7)
                        ctx.state((a, b))
                        ctx.trace(outcome=(a, b))
    if ctx.family("periods"):
        offs = sorted({m + d for m in range(0, 90, 15) for d in (-1, 0, 1)})
        a, b = PT[0], PT[6]
        ds = grid_ds(1)
        for s, e in itertools.product(offs, offs):
            if e <= s or not ctx.mine():
                continue
            ix = pd.date_range(T[0] + pd.Timedelta(minutes=s), T[0] + pd.Timedelta(minutes=e), freq="1min")
            c = Cml(a, b, ix)
            tm = [T[0] + pd.Timedelta(minutes=s) < t < T[0] + pd.Timedelta(minutes=e) for t in T]
            case = {"start": s, "end": e}
            ok, g = ctx.call(case, GridValidator(xr_ds=ds).get_time_series, c, "R")
            ctx.step(len(T))
            if ok:
                judge(case, ds, "R", a, b, tm, g)
                ctx.state((s, e))
                ctx.trace(outcome=tuple(tm))
    if ctx.family("period_limits"):
        # link stamps a fraction of a second before, at and after the stamps of the grid
        for i, j, d, e in itertools.product(range(5), range(6), (-10**9, -(10**6), -1, 0, 1, 250 * 10**6, 10**9), (-10**9, -1, 0, 10**6, 10**9)):
            if j < i or not ctx.mine():
                continue
            t0, t1 = T[i] + pd.Timedelta(d, unit="ns"), T[j] + pd.Timedelta(e, unit="ns")
            if t1 <= t0:
                continue
            ds = grid_ds(1)
            case = {"start": str(t0), "end": str(t1)}
            ok, g = ctx.call(case, GridValidator(xr_ds=ds).get_time_series, Cml(PT[0], PT[6], pd.DatetimeIndex([t0, t1])), "R")
            ctx.step(len(T))
            if ok:
                tm = [t0 < t < t1 for t in T]
                judge(case, ds, "R", PT[0], PT[6], tm, g)
                ctx.state((i, j, d, e))
                ctx.trace(outcome=tuple(tm))
    if ctx.family("grids"):
        # other grid shapes, resolutions, orientations and numbers of time steps
        lons = [np.array([10.0, 10.5, 11.0, 11.5, 12.0]), np.arange(13) * 0.17 - 0.9, np.array([-71.2, -70.0, -68.8])]
        lats = [np.array([48.5, 48.0, 47.5, 47.0]), np.arange(9) * 0.15 - 1.3, np.arange(11) * 0.05 + 47, np.arange(3) * 0.17 - 60]
        fr = (-0.31, 0.03, 0.42, 0.77, 1.21)
        for lo, la, n in itertools.product(lons, lats, (1, 2, 40)):
            if abs(la[1] - la[0]) > abs(lo[1] - lo[0]) + 1e-9:
                continue
            TT = pd.date_range("2021-06-01 00:00", periods=n, freq="5min")
            ds = grid_ds(2, lo, la, TT)
            for fa, fb in itertools.permutations(list(itertools.product(fr, (-0.27, 0.13, 0.61, 1.18))), 2):
                if n != 2 and (fa[0] > fb[0] or fa[1] > fb[1]):
                    continue
                if not ctx.mine():
                    continue
                a, b = [(float(lo[0] + f[0] * (lo[-1] - lo[0])) + 0.0013, float(la[0] + f[1] * (la[-1] - la[0])) - 0.0017) for f in (fa, fb)]
                if a[0] == b[0] or a[1] == b[1]:
                    b = (b[0] + 0.0031, b[1] + 0.0043)
                w = weights(a, b, lo, la)
                if w.sum() == 0:
                    continue
                case = {"a": a, "b": b, "grid": (len(la), len(lo)), "lon": lo[:2], "lat": la[:2], "times": n}
                ix = pd.date_range(TT[0] - pd.Timedelta(minutes=1), TT[-1] + pd.Timedelta(minutes=1), freq="1min")
                ok, g = ctx.call(case, GridValidator(xr_ds=ds).get_time_series, Cml(a, b, ix), "R")
                ctx.step(w.size)
                if ok:
                    want = (ds.R.values * w).sum(axis=(1, 2))
                    if list(pd.DatetimeIndex(g.index)) != list(TT):
                        ctx.fail("time steps: got %s, expected %s" % (list(g.index), list(TT)), case)
                    else:
                        ctx.eq("path average", g["R"].values, want, case, rtol=1e-6, atol=1e-7)
                    ctx.state((a, b, n))
                    ctx.trace(outcome=(a, b, n))
    if ctx.family("one_validator_several_links"):
        for (a, b), (c, d) in itertools.permutations([(PT[i], PT[j]) for i, j in ((0, 5), (3, 11), (12, 1), (7, 8), (2, 14))], 2):
            if not ctx.mine():
                continue
            ds = grid_ds(2)
            gv = GridValidator(xr_ds=ds)
            for p, q, var, ix in ((a, b, "R", full), (c, d, "R", full[:100]), (a, b, "Q", full), (c, d, "R", full)):
                case = {"links": [(a, b), (c, d)], "now": (p, q), "variable": var}
                ok, g = ctx.call(case, gv.get_time_series, Cml(p, q, ix), var)
                ctx.step(len(T))
                if ok:
                    judge(case, ds, var, p, q, [ix[0] < t < ix[-1] for t in T], g)
            ctx.trace()
    if ctx.family("changed_objects"):
        # the link is moved, its data or the grid exchanged between calls on the same objects
        ab = [(PT[i], PT[j]) for i, j in ((0, 5), (3, 11), (12, 1), (7, 8))]
        for (a, b), (c, d), what in itertools.product(ab, ab, ("moved", "data", "grid", "values")):
            if (a, b) == (c, d) or not ctx.mine():
                continue
            ds = grid_ds(2)
            gv = GridValidator(xr_ds=ds)
            cml = Cml(a, b, full)
            p, q, ix = a, b, full
            for step in range(3):
                case = {"link": (a, b), "then": what, "to": (c, d), "step": step}
                ok, g = ctx.call(case, gv.get_time_series, cml, "R")
                ctx.step(len(T))
                if not ok:
                    break
                judge(case, gv.xr_ds, "R", p, q, [ix[0] < t < ix[-1] for t in T], g)
                if what == "moved":
                    (p, q) = (c, d) if step == 0 else (a, b)
                    cml.c = Coords(p[0], p[1], q[0], q[1])
                elif what == "data":
                    ix = full[30:101] if step == 0 else full[:90]
                    cml.channel_1, cml.channel_2 = Ch(ix), Ch(ix)
                elif what == "grid":
                    gv.xr_ds = grid_ds(5 + step)
                else:
                    gv.xr_ds["R"].values[:] = grid_ds(7 + step).R.values
            ctx.state((a, b, c, d, what))
            ctx.trace(outcome=(a, b, c, d, what))
        # two channels with different periods: from the start of the first to the end of the second
        for s1, e1, s2, e2 in itertools.product((0, 70, 100), (130, 150, 240), repeat=2):
            if not ctx.mine():
                continue
            ds = grid_ds(2)
            c = Cml(PT[0], PT[5], full[s1:e1], full[s2:e2])
            case = {"channel 1": (s1, e1), "channel 2": (s2, e2)}
            ok, g = ctx.call(case, GridValidator(xr_ds=ds).get_time_series, c, "R")
            ctx.step(len(T))
            if ok:
                judge(case, ds, "R", PT[0], PT[5], [full[s1] < t < full[e2 - 1] for t in T], g)
                ctx.trace(outcome=(s1, e1, s2, e2))
    if ctx.family("correlation"):
        # link and reference share some time stamps only, in any order; reference times as instants or as text
        from pycomlink.validation.validator import Validator

        lv, rv = [3.0, 1.0, 4.0, 1.5, 5.0, 9.0], [2.0, 7.0, 1.0, 8.0, 2.5, 8.0]
        base = pd.Timestamp("2021-06-01 23:58")
        for lm, rm in itertools.product(range(1, 64), range(1, 64)):
            for k, (kind, rev, tz, gap) in enumerate(itertools.product(("instants", "text"), (False, True), (None, "UTC"), (None, 1))):
                if (lm * 5 + rm * 3 + k) % (4 if ctx.thorough else 16) or not ctx.mine():
                    continue
                st = pd.Timedelta(seconds=(60, 7, 86400, 1, 3600)[(lm + 2 * rm + k) % 5])
                li, ri = [i for i in range(6) if lm >> i & 1], [i for i in range(6) if rm >> i & 1]
                if rev:
                    li = li[::-1]
                a = {i: (nan if gap is not None and i == gap else lv[i]) for i in li}
                c = {i: (nan if gap is not None and i == gap + 2 else rv[i]) for i in ri}
                ix = pd.DatetimeIndex([base + i * st for i in li], tz=tz)
                link = Cml(PT[0], PT[5], full)
                link.data = pd.DataFrame({"txrx_nf": [a[i] for i in li], "other": 1.0}, index=ix)
                rt = pd.DatetimeIndex([base + i * st for i in ri])
                ref = xr.DataArray([c[i] for i in ri], dims="time", coords={"time": rt.strftime("%Y-%m-%d %H:%M:%S") if kind == "text" else rt})
                case = {"link steps": li, "reference steps": ri, "step": str(st), "reference times as": kind, "zone of link": tz, "missing": gap}
                pairs = [(a[i], c[i]) for i in range(6) if i in a and i in c and a[i] == a[i] and c[i] == c[i]]
                want = nan
                if len(pairs) > 1:
                    ma, mc = sum(p[0] for p in pairs) / len(pairs), sum(p[1] for p in pairs) / len(pairs)
                    va, vc = sum((p[0] - ma) ** 2 for p in pairs), sum((p[1] - mc) ** 2 for p in pairs)
                    if va * vc > 0:
                        want = sum((p[0] - ma) * (p[1] - mc) for p in pairs) / math.sqrt(va * vc)
                for who in (Validator(), GridValidator(xr_ds=grid_ds(0))):
                    ok, r = ctx.call(case, who.calc_stats, link, ref)
                    ctx.step(len(pairs))
                    if ok:
                        ctx.eq("correlation", float(r), want, case)
                ctx.state((lm, rm, kind, rev, tz, gap))
                ctx.trace(2, outcome=repr(want))
    if ctx.family("plotted_weights"):
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot as plt

        for k, (a, b) in enumerate(itertools.permutations(PT, 2)):
            w = weights(a, b)
            if k % (3 if ctx.thorough else 9) or w.sum() == 0 or not ctx.mine():
                continue
            gv = GridValidator(xr_ds=grid_ds(1))
            link = Cml(a, b, full)
            link.plot_line = lambda ax: ax.plot([a[0], b[0]], [a[1], b[1]])
            fig, ax = plt.subplots() if k % 2 else (None, None)
            case = {"a": a, "b": b, "given axes": k % 2}
            ok, r = ctx.call(case, gv.plot_intersections, link, **({"ax": ax} if ax is not None else {}))
            ctx.step(w.size)
            if ok:
                if ax is not None and r is not ax:
                    ctx.fail("not drawn into the axes given", case)
                m = [c for c in r.collections if isinstance(c, matplotlib.collections.QuadMesh)]
                if len(m) != 1:
                    ctx.fail("%d meshes drawn" % len(m), case)
                else:
                    got = np.asarray(m[0].get_array(), float)
                    if ctx.eq("weights drawn", got.reshape(-1), w.reshape(-1), case, atol=1e-7):
                        # each weight is drawn at the cell it belongs to
                        corners = m[0].get_coordinates()
                        mid = (corners[:-1, :-1] + corners[1:, 1:]) / 2
                        ctx.eq("longitudes of the cells", mid[..., 0], np.meshgrid(LON, LAT)[0], case)
                        ctx.eq("latitudes of the cells", mid[..., 1], np.meshgrid(LON, LAT)[1], case)
                ctx.state((a, b))
                ctx.trace(outcome=(a, b))
            plt.close("all")
    if ctx.family("resampling"):
        a, b = PT[0], PT[6]
        for mask in range(1, 256):
            mins = [-7, 0, 10, 15, 40, 45, 75, 90]
            sel = [m for k, m in enumerate(mins) if mask >> k & 1]
            for side, tz in itertools.product(("right", "left"), (None, "UTC", "Europe/Berlin")):
                if not ctx.mine():
                    continue
                gv = GridValidator(xr_ds=grid_ds(0))
                ok, _ = ctx.call(mask, gv.get_time_series, Cml(a, b, full), "R")
                if not ok:
                    continue
                ix = pd.DatetimeIndex([T[0] + pd.Timedelta(minutes=m) for m in sel], tz=tz)
                vals = [nan if (mask % 5 == 0 and i == 1) else float(2 ** i) for i in range(len(sel))]
                df = pd.DataFrame({"R": vals}, index=ix)
                df0 = df.copy()
                case = {"sample minutes": sel, "label": side, "zone": tz}
                ok, g = ctx.call(case, gv.resample_to_grid_time_series, df, side, **({} if tz is None else {"grid_time_zone": tz}))
                ctx.step(len(sel))
                if not ok:
                    continue
                groups = {}
                for m, v in zip(sel, vals):
                    c = [15 * k for k in range(6) if (15 * k >= m if side == "right" else 15 * k <= m)]
                    if c:
                        groups.setdefault(c[0] if side == "right" else c[-1], []).append(v)
                lab = sorted(groups)
                gi = pd.DatetimeIndex(g.index)
                if gi.tz is not None:
                    gi = gi.tz_convert(tz).tz_localize(None)
                if list(gi) != [T[0] + pd.Timedelta(minutes=k) for k in lab]:
                    ctx.fail("time stamps: got %s, expected minutes %s" % (list(gi), lab), case)
                    continue
                want = []
                for k in lab:
                    v = [x for x in groups[k] if x == x]
                    want.append(sum(v) / len(v) if v else nan)
                ctx.eq("mean per grid step", g["R"].values, want, case)
                if not df.equals(df0) or list(df.columns) != ["R"]:
                    ctx.fail("input was modified", case)
                ctx.state((mask, side, tz))
                ctx.trace(outcome=str(lab) + str(want))
        gv = GridValidator(xr_ds=grid_ds(0))
        gv.get_time_series(Cml(a, b, full), "R")
        for bad in ("center", "", None):
            ctx.rejects(bad, gv.resample_to_grid_time_series, pd.DataFrame({"R": [1.0]}, index=T[:1]), bad)
            ctx.trace()
