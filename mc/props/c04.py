"""C04: blackout gap detection."""
import itertools

import numpy as np
import xarray as xr

from ..core import nan, words

MODES = ["nojit", "jit"]
SHARDS = {"nojit": 5, "jit": 3}
BOUNDS = "all words over {below, at, above threshold, NaN} up to length 7 (9 thorough), forward and time-reversed, thresholds -65/-80.5/0; words over the representable neighbours of odd thresholds and infinite levels; long gaps; DataArrays"
ASSUMPTIONS = [
    "a sample that closes one gap does not open the next one (behaviour pinned by the repository's tests)",
    "the mask function is used with the markers of the detection function, forward or reversed in time together with the signal",
]


def markers(x, thr):
    n = len(x)
    low = [v == v and v < thr for v in x]
    s = [low[i] and i + 1 < n and x[i + 1] != x[i + 1] for i in range(n)]
    e = [low[i] and i > 0 and x[i - 1] != x[i - 1] for i in range(n)]
    return s, e


def mask_model(x, s, e, ctx=None):
    n = len(x)
    out = [False] * n
    inside = False
    for i in range(n):
        if x[i] != x[i]:
            out[i] = inside
        else:
            inside = bool(s[i]) and not e[i]
        if ctx is not None:
            ctx.state((x[i] != x[i], bool(s[i]), bool(e[i]), inside))
            ctx.step()
    return out


def explore(ctx):
    from pycomlink.processing.blackout_gap_detection import (
        created_blackout_gap_mask_from_start_end_markers as mk,
        get_blackout_start_and_end as det,
    )

    def one(x, thr, case=None, kw=False):
        x = np.asarray(x, float)
        case = case or {"rsl": x, "threshold": thr}
        ok, r = ctx.call(case, det, *([] if kw else [x, thr]), **({"rsl": x, "rsl_threshold": thr} if kw else {}))
        if not ok:
            return
        s, e = markers(list(x), thr)
        gs, ge = r
        a = ctx.eq("gap start markers", np.asarray(gs, float), np.array(s, float), case)
        b = ctx.eq("gap end markers", np.asarray(ge, float), np.array(e, float), case)
        if not (a and b):
            return
        ok, m = ctx.call(case, mk, x, gs, ge)
        if ok:
            ctx.eq("gap mask", np.asarray(m, float), np.array(mask_model(list(x), s, e, ctx), float), case)
        xr_, sr, er = x[::-1], np.asarray(ge)[::-1], np.asarray(gs)[::-1]
        ok, m2 = ctx.call(case, mk, xr_, sr, er)
        if ok:
            ctx.eq("gap mask (reversed)", np.asarray(m2, float), np.array(mask_model(list(xr_), sr, er, ctx), float), case)
            ctx.trace(2, outcome=(tuple(np.asarray(m).tolist()), tuple(np.asarray(m2).tolist())))

    vals = {-65: [-70.0, -65.0, -60.0, nan], -80.5: [-80.51, -80.5, -80.49, nan], 0: [-1.0, 0.0, 1.0, nan]}
    if ctx.family("words"):
        for L in range(1, 8 if not ctx.thorough else 10):
            for thr in (-65, -80.5, 0) if L < 6 else (-65,):
                for w in words(vals[thr], L):
                    if ctx.mine():
                        one(w, thr)
        ctx.sample({"words over": vals[-65]})
    if ctx.family("close_to_the_threshold"):
        # one representable step below, at and above the threshold, infinite levels (which are not missing)
        for thr in (-65.0, -65.1, -80.3, -1e-3, 0.1):
            al = [np.nextafter(thr, -np.inf), thr, np.nextafter(thr, np.inf), np.inf, -np.inf, nan]
            for w in words(al, 3):
                if ctx.mine():
                    one(w, thr)
    if ctx.family("long_gaps"):
        for pre, gap, post, lo1, lo2 in itertools.product((0, 1, 3, 50), (1, 2, 7, 60, 500, 7000), (0, 1, 4, 40), (-70.0, -50.0, -65.0), (-70.0, -50.0)):
            if not ctx.mine():
                continue
            x = [-45.0] * pre + ([lo1] if pre else []) + [nan] * gap + ([lo2] if post else []) + [-45.0] * post
            one(x, -65.0, {"pre": pre, "gap": gap, "post": post, "before": lo1, "after": lo2})
            one(x + x, -65.0, {"pre": pre, "gap": gap, "post": post, "before": lo1, "after": lo2, "twice": True})
    if ctx.family("gaps_in_very_long_series"):
        # weeks to months of one-minute data (lengths up to and beyond 2^16), a gap at the end, in the middle or at both
        for n, gap, where, lo1, lo2 in itertools.product((70000, 140000) if ctx.thorough else (70000,), (1, 7, 1500), ("end", "middle", "both"), (-70.0, -50.0), (-70.0, -50.0)):
            if not ctx.mine():
                continue
            x = [-45.0 - (i % 3) for i in range(n)]
            for q in {"end": [n - gap - 5], "middle": [n // 2], "both": [20, n - gap - 5]}[where]:
                x[q : q + gap] = [nan] * gap
                x[q - 1], x[q + gap] = lo1, lo2
            one(x, -65.0, {"samples": n, "gap": gap, "where": where, "before": lo1, "after": lo2})
    if ctx.family("dtypes_and_keywords"):
        for w in words(vals[-65], 4):
            if not ctx.mine():
                continue
            x = np.array(w, np.float32)
            one(x, np.float64(-65), kw=True)
            nc = np.full(8, 3.0)
            nc[::2] = w
            ok, r = ctx.call({"rsl": w}, det, nc[::2], -65)
            if ok:
                s, e = markers(list(w), -65)
                ctx.eq("start (non contiguous)", np.asarray(r[0], float), np.array(s, float), {"rsl": w})
                ctx.eq("end (non contiguous)", np.asarray(r[1], float), np.array(e, float), {"rsl": w})
    if ctx.family("labelled_arrays"):
        L = 5
        W = [w for w in words(vals[-65], L)]
        for k in range(0, len(W), 128):
            if not ctx.mine():
                continue
            block = np.array(W[k : k + 128])
            for dims in (("cml_id", "time"), ("time", "cml_id")):
                da = xr.DataArray(block, dims=("cml_id", "time"), coords={"cml_id": np.arange(len(block)), "time": np.arange(L)}).transpose(*dims)
                ok, r = ctx.call({"dims": dims}, det, da, -65)
                if not ok:
                    continue
                for q in range(len(block)):
                    s, e = markers(list(block[q]), -65)
                    case = {"rsl": block[q], "dims": dims}
                    ctx.eq("start", r[0].sel(cml_id=q).transpose("time").values.astype(float), np.array(s, float), case)
                    ctx.eq("end", r[1].sel(cml_id=q).transpose("time").values.astype(float), np.array(e, float), case)
                    ctx.step(L)
                    ctx.trace()
