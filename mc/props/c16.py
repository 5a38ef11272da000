"""C16: aggregation of a time series onto given time stamps."""
import itertools
import math

import numpy as np
import pandas as pd

from ..core import nan

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "all 255 subsets of 8 sample times (plus repeated times) x regular and irregular target indices with every offset and all 63 "
    "subsets of 6 target times x both label sides; all combinations of time zones of data and target index incl. a clock change and data without zone; "
    "sample distances from 1 microsecond to 31 days, up to 3000 samples per interval; aggregation functions, several columns, missing values, plain series"
)
ASSUMPTIONS = ["sorted time stamps, unique target time stamps; data without time zone are in UTC"]
T0 = pd.Timestamp("2021-05-05 00:00", tz="UTC")
MIN = pd.Timedelta("1min")


def assign(times, labels, side):
    """sample index lists per label (all values in UTC)"""
    out = {}
    if not times or not labels:
        return out
    lo, hi = max(min(times), min(labels)), min(max(times), max(labels))
    lab = sorted(x for x in labels if lo <= x <= hi)
    for i, t in enumerate(times):
        if not lo <= t <= hi:
            continue
        c = [x for x in lab if (x >= t if side == "right" else x <= t)]
        if c:
            out.setdefault(c[0] if side == "right" else c[-1], []).append(i)
    return out


def agg(how, v):
    w = [x for x in v if x == x]
    if how == "sum":
        return math.fsum(w)
    if how == "count":
        return len(w)
    if how == "size":
        return len(v)
    if not w:
        return nan
    return {"mean": math.fsum(w) / len(w), "max": max(w), "min": min(w), "first": w[0], "last": w[-1]}[how]


def judge(ctx, case, res, times, labels, side, cols, how):
    """times, labels: UTC instants"""
    a = assign(times, labels, side)
    want = sorted(a)
    try:
        idx = res.index if res.index.tz is not None or len(res) == 0 else res.index.tz_localize("UTC")
        got = list(idx.tz_convert("UTC")) if len(res) else []
    except Exception as e:
        ctx.fail("result index is no time index: %s" % e, case)
        return
    if got != want:
        ctx.fail("time stamps: got %s, expected %s" % ([str(x) for x in got], [str(x) for x in want]), case)
        return
    for c, vals in cols.items():
        w = [agg(how, [vals[i] for i in a[l]]) for l in want]
        if c not in res.columns:
            ctx.fail("column %r missing" % (c,), case)
            return
        if not ctx.eq("column %s" % c, np.array(res[c], float), w, case):
            return


def explore(ctx):
    from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as fn

    big = ctx.thorough
    VAL = [1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0]

    def run(times, labels, side, case, how="sum", tz="UTC", new_index=None, vals=None, **kw):
        vals = VAL[: len(times)] if vals is None else vals
        ix = pd.DatetimeIndex(times, name="stamp").tz_convert(tz)
        df = pd.DataFrame({"R": vals, "Q": [v * 3 - 7 for v in vals]}, index=ix)
        ni = pd.DatetimeIndex(labels) if new_index is None else new_index
        df0, ni0 = df.copy(), ni.copy()
        m = {"npsum": np.sum, "npmean": np.mean, "npmax": np.max}.get(how, how)
        args = dict(kw)
        if side is not None:
            args["label"] = side
        ok, res = ctx.call(case, fn, df, ni, m, **args)
        ctx.step(len(times))
        if ok:
            judge(ctx, case, res, list(times), list(labels), side or "right", {"R": vals, "Q": [v * 3 - 7 for v in vals]}, how.replace("np", ""))
            if res.index.name != "stamp":
                ctx.fail("index name changed: %r" % (res.index.name,), case)
            if not df.equals(df0) or not ni.equals(ni0) or list(df.columns) != ["R", "Q"]:
                ctx.fail("inputs were modified", case)
        return ok

    if ctx.family("sample_subsets"):
        idx = []
        for step, off in ((2, 0), (2, 1), (3, 0), (3, 1), (3, -2), (4, -3), (5, 0), (7, 0), (30, -60)):
            idx.append([T0 + MIN * (off + step * k) for k in range(0, 12) if -6 <= off + step * k <= 13] or [T0])
        idx.append([T0 + MIN * k + pd.Timedelta("30s") for k in (-1, 0, 2, 3, 6)])
        idx.append([T0 + MIN * 3])
        idx.append([T0 - MIN * 1, T0 + MIN * 20])
        idx.append([T0 - MIN * 20, T0 - MIN * 10])
        for mask in range(1, 256):
            times = [T0 + MIN * k for k in range(8) if mask >> k & 1]
            for j, labels in enumerate(idx):
                for side in ("right", "left"):
                    if not ctx.mine() or (not big and j >= 6 and (mask + j) % 3):
                        continue
                    case = {"samples": [str(t) for t in times], "targets": [str(t) for t in labels], "label": side}
                    run(times, labels, side, case)
                    ctx.state((mask, j, side))
                    ctx.trace(outcome=str(sorted(assign(times, labels, side).items())))
        ctx.sample({"sample minutes": [0, 1, 4, 7], "target minutes": [0, 3, 6, 9], "label": "right"})
    if ctx.family("target_subsets"):
        for mask in range(1, 64):
            labels = [T0 + pd.Timedelta(seconds=100) * k for k in range(6) if mask >> k & 1]
            for k, times in enumerate(([T0 + MIN * i for i in range(8)], [T0 + pd.Timedelta(seconds=50) * i for i in range(-3, 5)], [T0 + MIN * i for i in (0, 0, 1, 2, 2, 5)], [T0 + pd.Timedelta(seconds=100) * i for i in (0, 0, 3)])):
                for side in ("right", "left", None):
                    if not ctx.mine():
                        continue
                    run(times, labels, side, {"samples": [str(t) for t in times], "targets": [str(t) for t in labels], "label": side})
                    ctx.state(("t", mask, k, side))
                    ctx.trace(outcome=str(sorted(assign(times, labels, side or "right").items())))
    if ctx.family("time_scales"):
        for unit in ("1us", "1ms", "1s", "1h", "1D", "31D"):
            u = pd.Timedelta(unit)
            for step, off in ((2, 0), (3, 1), (4, -3), (7, 0)):
                labels = [T0 + u * (off + step * k) for k in range(0, 12) if -6 <= off + step * k <= 13]
                for mask in range(1, 256, 1 if big else 2):
                    times = [T0 + u * k for k in range(8) if mask >> k & 1]
                    for side in ("right", "left"):
                        if not ctx.mine():
                            continue
                        case = {"samples": [str(t) for t in times], "targets": [str(t) for t in labels], "label": side}
                        run(times, labels, side, case)
                        ctx.state((unit, mask, step, off, side))
                        ctx.trace(outcome=(unit, str(sorted(assign(times, labels, side).items()))))
    if ctx.family("many_samples_per_interval"):
        # fine sampling aggregated to coarse stamps: thousands of samples in one interval
        for n, per, off, side, hole, first in itertools.product((300, 1500, 4321) + ((50000,) if big else ()), (60, 1440, 3000), (0, 17, -400), ("right", "left"), (0, 1), (-1, 1)):
            if not ctx.mine():
                continue
            k = [i for i in range(n) if not (hole and (i % 1100) in range(40, 75))]
            times = [T0 + MIN * i for i in k]
            vals = [float((i * 7919) % 101) if i % 13 else nan for i in k]
            # the stamps cover the whole series, or begin later and end earlier than the series
            labels = [T0 + MIN * (off + per * j) for j in range(first, n // per + 2)]
            labels = labels if first < 0 else labels[:-2] or labels[:1]
            case = {"first stamp": first, "samples (one per minute)": n, "minutes per interval": per, "offset": off, "label": side, "holes": hole}
            for how in ("sum", "count", "last"):
                run(times, labels, side, dict(case, method=how), how=how, vals=vals)
            ctx.state(str(case))
            ctx.trace(3, outcome=str(case))
    if ctx.family("functions_and_missing"):
        for mask in range(64):
            vals = [nan if mask >> i & 1 else float(i * i + 1) for i in range(6)]
            times = [T0 + MIN * i for i in (0, 1, 2, 3, 5, 6)]
            labels = [T0 + MIN * i for i in (0, 3, 6)]
            for how in ("sum", "mean", "max", "min", "count", "first", "last", "npsum", "npmean", "npmax"):
                if not ctx.mine():
                    continue
                run(times, labels, "left" if mask % 2 else "right", {"values": vals, "method": how}, how=how, vals=vals)
                ctx.trace(outcome=(mask, how))
        s = pd.Series([1.0, 2.0, 3.0, 4.0], index=pd.DatetimeIndex([T0 + MIN * i for i in range(4)]), name="rain")
        for side in ("left", "right"):
            ok, res = ctx.call("series", fn, s, pd.DatetimeIndex([T0, T0 + MIN * 2]), "sum", label=side)
            ctx.step(4)
            if ok:
                judge(ctx, {"series": True, "label": side}, res, list(s.index), [T0, T0 + MIN * 2], side, {"rain": [1.0, 2.0, 3.0, 4.0]}, "sum")
                ctx.trace()
        for bad in ("center", "Right", None, ""):
            ctx.rejects({"label": bad}, fn, s, pd.DatetimeIndex([T0, T0 + MIN * 2]), "sum", label=bad)
            ctx.trace()
    if ctx.family("names"):
        # column and index names are the caller's
        times = [T0 + MIN * i for i in (0, 1, 2, 4, 5, 7)]
        for (labels, side), cols, iname, nname in itertools.product(
            (([T0 + MIN * k for k in (0, 3, 6)], "right"), ([T0 + MIN * k for k in (1, 2, 5)], "left")),
            (("time", "R"), ("index", "level_0"), ("R", "date"), (0, 1), ("values", "count"), ("label", "time_ix"), ("truth_time_ix", "new_time"), ("R",)),
            (None, "time", "date", "index", "R"),
            (None, "time", "R"),
        ):
            if iname in cols or not ctx.mine():
                continue
            vals = {c: [v * (1 + 2 * k) for v in VAL[: len(times)]] for k, c in enumerate(cols)}
            df = pd.DataFrame(vals, index=pd.DatetimeIndex(times, name=iname))
            df0 = df.copy()
            case = {"columns": cols, "index name": iname, "name of target index": nname, "label": side}
            ok, res = ctx.call(case, fn, df, pd.DatetimeIndex(labels, name=nname), "sum", label=side)
            ctx.step(len(times))
            if ok:
                judge(ctx, case, res, times, labels, side, vals, "sum")
                if list(res.columns) != list(cols) or res.index.name != iname:
                    ctx.fail("names changed: columns %s, index %r" % (list(res.columns), res.index.name), case)
                if not df.equals(df0):
                    ctx.fail("inputs were modified", case)
                ctx.state(str(case))
                ctx.trace(outcome=str(case))
    if ctx.family("time_zones"):
        starts = [pd.Timestamp("2021-05-05 12:00", tz="UTC"), pd.Timestamp("2021-10-31 00:10", tz="UTC"), pd.Timestamp("2021-03-28 00:30", tz="UTC")]
        zones = ["UTC", "Europe/Berlin", "Asia/Kolkata", "America/New_York"]
        # data without zone (None) are in UTC
        for s0, ztz, off, step, side in itertools.product(starts, zones + [None], (-30, -20, -10, 0, 10, 37), (15, 60), ("left", "right")):
            times = [s0 + MIN * 5 * i for i in range(8)]
            labels = [s0 + MIN * (off + step * k) for k in range(4)]
            vals = VAL
            # target index with its own zone
            for nz in zones:
                if not ctx.mine():
                    continue
                case = {"data zone": ztz, "target zone": nz, "start": str(s0), "offset": off, "step": step, "label": side}
                run(times, labels, side, case, tz=ztz, new_index=pd.DatetimeIndex(labels).tz_convert(nz))
                # ignored for an index that has a zone
                run(times, labels, side, dict(case, ignored=True), tz=ztz, new_index=pd.DatetimeIndex(labels).tz_convert(nz), new_index_tz="Asia/Tokyo")
                ctx.state((str(s0), ztz, off, step, side, nz))
                ctx.trace(2, outcome=str(case))
            # target index without zone, meant in new_index_tz
            for nz in [None] + zones:
                if not ctx.mine():
                    continue
                naive = pd.DatetimeIndex(labels).tz_convert(nz or "UTC").tz_localize(None)
                try:
                    if not naive.is_unique or list(naive.tz_localize(nz or "UTC").tz_convert("UTC")) != labels:
                        continue
                except Exception:
                    continue  # ambiguous wall clock time
                case = {"data zone": ztz, "target without zone, new_index_tz": nz, "start": str(s0), "offset": off, "step": step, "label": side}
                run(times, labels, side, case, tz=ztz, new_index=naive, **({} if nz is None else {"new_index_tz": nz}))
                ctx.state((str(s0), ztz, off, step, side, "naive", nz))
                ctx.trace(outcome=str(case))
