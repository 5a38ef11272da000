"""C22: MLP wet-dry classification: which samples each prediction uses."""
import itertools
import os
import pickle

import numpy as np
import xarray as xr

from ..core import nan

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "4 models x every position of one missing sample in either channel, every pair of missing samples in a 60-step series (online models), "
    "every position of steps/spikes; detrending models: series of 120..800 steps with every missing-sample position (stride 1 up to 160 "
    "steps), missing blocks around the minimum count; series with 63..8194 windows (80 lengths around round numbers); every length from 1 to 45"
)
ASSUMPTIONS = ["the trained networks themselves are given (read from the repository's model files)"]
W = 40


def med_center(x, n=720, mp=120):
    out = np.full(len(x), nan)
    for t in range(len(x)):
        v = x[max(0, t - n // 2) : t + n // 2]
        v = v[~np.isnan(v)]
        if len(v) >= mp:
            out[t] = np.median(v)
    return out


def features(x1, x2, kind):
    n = len(x1)
    X = np.full((n, 2 * W), nan)
    if kind.endswith("online"):
        d1, d2 = (np.array([x[i + 1] - x[i] for i in range(n - 1)]) for x in (x1, x2))
        for t in range(W, n):  # the 40 differences up to and including the one into t
            X[t, :W], X[t, W:] = d1[t - W : t], d2[t - W : t]
    else:
        d1, d2 = x1 - med_center(x1), x2 - med_center(x2)
        for t in range(W // 2, n - W // 2 + 1):
            X[t, :W], X[t, W:] = d1[t - W // 2 : t + W // 2], d2[t - W // 2 : t + W // 2]
    return X


def explore(ctx):
    from pycomlink.processing.wet_dry.mlp import mlp_wet_dry

    d = os.path.join(os.environ["VERIF_REPO"], "pycomlink/processing/wet_dry/mlp_model_files")
    M = {}
    for k in ("rg", "rad", "rg_online", "rad_online"):
        with open(os.path.join(d, "model_%s.pkl" % k), "rb") as f:
            M[k] = pickle.load(f)

    def da(x):
        return xr.DataArray(np.array(x), dims="time", coords={"time": np.datetime64("2021-01-01", "ns") + np.arange(len(x)) * np.timedelta64(60, "s")})

    def one(x1, x2, kind, case, default=False):
        a, b = da(x1), da(x2)
        ok, g = ctx.call(case, mlp_wet_dry, a, b, **({} if default else {"model_sel": kind}))
        ctx.step(len(x1))
        if not ok:
            return
        X = features(np.array(x1), np.array(x2), kind)
        want = np.full((len(x1), 2), nan)
        v = ~np.isnan(X).any(axis=1)
        if v.any():
            want[v] = M[kind].predict_proba(X[v])
        ctx.eq("wet-dry probabilities", g, want, case, rtol=1e-5, atol=1e-6)
        g = np.asarray(g)
        if g.shape == want.shape and v.any() and not (np.all(g[v] >= 0) and np.all(g[v] <= 1)):
            ctx.fail("not a probability", case)
        if not (np.array_equal(a.values, np.array(x1), equal_nan=True) and np.array_equal(b.values, np.array(x2), equal_nan=True)):
            ctx.fail("inputs were modified", case)
        ctx.trace(outcome=v.tobytes())
        ctx.state((kind, v.tobytes(), str(case)[:80]))

    def sig(n, k):
        i = np.arange(n)
        return 50 + 0.3 * ((i * (3 + k)) % 7) + (4.0 + k) * ((i > n // 3) & (i < n // 3 + 15)), 52 + 0.3 * ((i * (5 + k)) % 11) + 3.0 * ((i > n // 3 + 2) & (i < n // 3 + 18))

    big = ctx.thorough
    if ctx.family("online_missing_samples"):
        n = 60
        for kind in ("rg_online", "rad_online"):
            for n in (41, 42, 60, 95):
                for ch in (0, 1):
                    for m in range(-1, n):
                        if not ctx.mine():
                            continue
                        x = [v.copy() for v in sig(n, 0)]
                        if m >= 0:
                            x[ch][m] = nan
                        one(x[0], x[1], kind, {"model": kind, "n": n, "missing": (ch, m)})
            n = 100
            for m1 in range(0, n, 1 if big else 4):
                for m2 in range(m1, n, 1 if big else 5):
                    if not ctx.mine():
                        continue
                    x = [v.copy() for v in sig(n, 1)]
                    x[0][m1] = nan
                    x[1][m2] = nan
                    one(x[0], x[1], kind, {"model": kind, "n": n, "missing": (m1, m2)})
        ctx.sample({"model": "rad_online", "n": 60, "missing": [0, 17]})
    if ctx.family("online_events"):
        n = 90
        for kind, s, ln, h in itertools.product(("rg_online", "rad_online"), range(0, n, 2), (1, 3, 30), (5.0, -2.0)):
            if not ctx.mine():
                continue
            x1, x2 = (v.copy() for v in sig(n, 2))
            x1[s : s + ln] += h
            x2[s + 1 : s + 1 + ln] += h / 2
            one(x1, x2, kind, {"model": kind, "event": (s, ln, h)})
    if ctx.family("magnitudes"):
        # from digits below the usual resolution to outages and extreme attenuation
        n = 75
        for kind, s, h in itertools.product(("rg_online", "rad_online"), range(5, n, 7), (0.0437, 12.0, 22.0, 31.0, 55.0, 90.0, -24.0, -47.0, -120.0)):
            if not ctx.mine():
                continue
            x1, x2 = (v.copy() for v in sig(n, 1))
            x1[s : s + 4] += h
            x2[s : s + 9] += 0.7 * h
            one(x1, x2, kind, {"model": kind, "event": (s, h)})
        for kind, s, h in itertools.product(("rg", "rad"), (10, 60, 100), (0.0437, 22.0, 45.0, -30.0, -90.0)):
            if not ctx.mine():
                continue
            x1, x2 = (v.copy() for v in sig(130, 1))
            x1[s : s + 12] += h
            x2[s : s + 9] += 0.7 * h
            one(x1, x2, kind, {"model": kind, "event": (s, h)})
    if ctx.family("series_lengths"):
        # the result of a series is the beginning of the result of a longer one, whatever the number of windows
        N = 8250
        x1, x2 = (v.copy() for v in sig(N, 5))
        x1 += 6.0 * ((np.arange(N) // 37) % 5 == 0)
        x2 += 4.0 * ((np.arange(N) // 31) % 6 == 0)
        base = sorted({b + e for b in (64, 100, 128, 200, 256, 500, 512, 1000, 1024, 1440, 2000, 2048, 3000, 4000, 4096, 5000, 6000, 7000, 8000, 8192) for e in (-1, 0, 1, 2)})
        for kind in ("rg_online", "rad_online"):
            want = None
            for m in base:
                if not ctx.mine():
                    continue
                if want is None:
                    want = np.full((N, 2), nan)
                    X = features(x1, x2, kind)
                    want[W:] = M[kind].predict_proba(X[W:])
                n = m + W  # m windows
                case = {"model": kind, "windows": m}
                ok, g = ctx.call(case, mlp_wet_dry, da(x1[:n]), da(x2[:n]), model_sel=kind)
                ctx.step(n)
                if ok:
                    ctx.eq("wet-dry probabilities", g, want[:n], case, rtol=1e-5, atol=1e-6)
                    ctx.trace(outcome=(kind, m))
                    ctx.state((kind, m))
    if ctx.family("short_series"):
        # every length around and below that of one window
        for kind, n in itertools.product(("rg_online", "rad_online", "rg", "rad"), range(1, 46)):
            if ctx.mine():
                one(*sig(n, 1), kind, {"model": kind, "n": n})
    if ctx.family("default_model_and_rejection"):
        for k in range(6):
            x1, x2 = sig(70 + k, k)
            one(x1, x2, "rad_online", {"default": True, "k": k}, default=True)
        for bad in ("", "RAD", "rad_Online", None, "radar"):
            ctx.rejects({"model_sel": bad}, mlp_wet_dry, da(x1), da(x2), model_sel=bad)
            ctx.trace()
    if ctx.family("detrended_missing_samples"):
        for kind in ("rg", "rad"):
            for n in (119, 120, 121, 160):
                for m in range(-1, n, 1 if (big or n <= 121) else 3):
                    for ch in (0, 1):
                        if not ctx.mine():
                            continue
                        x = [v.copy() for v in sig(n, 3)]
                        if m >= 0:
                            x[ch][m] = nan
                        one(x[0], x[1], kind, {"model": kind, "n": n, "missing": (ch, m)})
    if ctx.family("detrended_long"):
        for kind, n, s, ln in itertools.product(("rg", "rad"), (500, 760, 900), (0, 200, 330, 420), (0, 1, 30, 300)):
            if not ctx.mine():
                continue
            x1, x2 = (v.copy() for v in sig(n, 4))
            x1 += np.where(np.arange(n) > 400, 5.0, 0.0) + 0.01 * np.arange(n)
            x2 += np.where(np.arange(n) > 520, -3.0, 0.0)
            x1[s : s + ln] = nan
            x2[(s + 100) % n : (s + 100) % n + ln // 2] = nan
            one(x1, x2, kind, {"model": kind, "n": n, "missing block": (s, ln)})
        for kind, n in itertools.product(("rg", "rad"), (1445, 3000, 5050, 8200, 10100)):
            if ctx.mine():
                x1, x2 = (v.copy() for v in sig(n, 2))
                x1 += 6.0 * ((np.arange(n) // 37) % 5 == 0)
                x2 += 4.0 * ((np.arange(n) // 31) % 6 == 0)
                x1[n // 2 : n // 2 + 90] = nan
                one(x1, x2, kind, {"model": kind, "n": n})
