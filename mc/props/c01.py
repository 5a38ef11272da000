"""C01: constant baseline during wet periods.

Reference model: a transducer whose state is the sequence of the last n baseline
values plus the previous wet/dry/unknown state. All words over
{signal, missing} x {dry, wet, unknown} up to the bound are enumerated.
"""
import itertools

import numpy as np
import pandas as pd
import xarray as xr

from ..core import expand, nan, run_words as rle_words, words

MODES = ["nojit", "jit"]
SHARDS = {"nojit": 5, "jit": 3}
BOUNDS = (
    "all words over {finite,NaN} signal x {dry,wet,NaN} up to length 6 (7 thorough), n_average_last_dry 1..4; "
    "all dry/wet/NaN words up to length 8 (10) on a finite signal; all single and double wet periods in long series; "
    "containers and dtypes"
)
ASSUMPTIONS = ["n_average_last_dry >= 1", "wet is boolean/0/1/NaN"]


def model(trsl, wet, n, ctx=None):
    out = []
    prev = None
    for i, (s, w) in enumerate(zip(trsl, wet)):
        unknown = w != w
        if unknown:
            b = nan
        elif i < n:
            b = s
        elif not w:
            b = s
        elif prev == "dry":
            b = sum(out[i - n : i]) / n
        else:
            b = out[i - 1]
        out.append(b)
        prev = "unk" if unknown else ("wet" if w else "dry")
        if ctx is not None:
            ctx.state((n, prev, tuple("%.6g" % v for v in out[-n:])))
            ctx.step()
    return out


def level(i, kind=0):
    if kind == 0:
        return [60.25, 61.0, 59.5, 63.75, 58.0, 66.5, 57.25, 70.0, 55.5, 64.25][i % 10]
    return [-40.0, -43.5, -39.25, -47.0, -52.75, -41.5, -60.0, -38.5, -44.25, -71.0][i % 10]


def run_words(ctx, fn, L, sig, wetalpha, ns, kind=0, chunk=4000):
    alpha = list(itertools.product(sig, wetalpha))
    buf = []
    for n in ns:
        def flush():
            if not buf:
                return
            tr = np.array([[nan if a[0] else level(i, kind) for i, a in enumerate(w)] for w in buf])
            we = np.array([[a[1] for a in w] for w in buf])
            want = [model(t, v, n, ctx) for t, v in zip(tr, we)]
            case = {"n_average_last_dry": n, "words": "%d words of length %d" % (len(buf), L)}
            da_t = xr.DataArray(tr, dims=("cml_id", "time"))
            da_w = xr.DataArray(we, dims=("cml_id", "time"))
            ok, got = ctx.call(case, fn, da_t, da_w, n_average_last_dry=n)
            if ok:
                g = got.transpose("cml_id", "time").values
                from ..core import elem_close
                bad = np.where(~elem_close(g, np.array(want)).all(axis=1))[0]
                for k in bad[:2]:
                    ctx.eq("baseline", g[k], want[k], {"trsl": tr[k], "wet": we[k], "n_average_last_dry": n})
                ctx.sample({"trsl": tr[0], "wet": we[0], "n": n, "baseline": g[0]})
            # a sparse subset of the very same words directly as 1D arrays
            for k in range(0, len(buf), 97):
                ok, g1 = ctx.call({"trsl": tr[k], "wet": we[k], "n": n}, fn, tr[k], we[k], n)
                if ok:
                    ctx.eq("baseline (1D array)", g1, want[k], {"trsl": tr[k], "wet": we[k], "n_average_last_dry": n})
                    ctx.trace()
            ctx.trace(len(buf))
            for w in want:
                ctx.trace(0, tuple("%.9g" % v for v in w))
            buf.clear()

        for w in words(alpha, L):
            if ctx.mine():
                buf.append(w)
                if len(buf) >= chunk:
                    flush()
        flush()


def explore(ctx):
    from pycomlink.processing.baseline import baseline_constant as fn

    big = ctx.thorough
    W3 = [0.0, 1.0, nan]
    if ctx.family("words_signal_x_wet"):
        for L in range(1, 6 if not big else 8):
            run_words(ctx, fn, L, [0, 1], W3, [1, 2, 3] if L < 6 else [1, 2], kind=L % 2)
        if not big:
            run_words(ctx, fn, 6, [0, 1], W3, [2] if ctx.jit else [1, 2])
    if ctx.family("words_wet_only"):
        for L in ([7, 8] if not big else [7, 8, 9, 10]):
            run_words(ctx, fn, L, [0], W3, [1, 3] if L < 8 else [4], kind=1)
    if ctx.family("long_series_wet_intervals"):
        T = 48 if not big else 80
        sig = np.array([50 + 3 * np.sin(i) + 0.01 * i for i in range(T)])
        for n in (1, 2, 5, 10, 20):
            for i in range(0, T):
                for j in range(i + 1, T + 1, 1 if big else 3):
                    if not ctx.mine():
                        continue
                    wet = np.zeros(T, dtype=bool)
                    wet[i:j] = True
                    ok, g = ctx.call({"wet": [i, j], "n": n}, fn, sig, wet, n)
                    if ok:
                        ctx.eq("baseline", g, model(sig, wet, n, ctx), {"wet_interval": [i, j], "n": n, "T": T})
                        ctx.trace(outcome=(n, i, j))
    if ctx.family("long_series_two_wet_intervals"):
        T = 40
        sig = np.array([-50 + 3 * np.cos(i) + 0.01 * i for i in range(T)])
        for n in (1, 3, 8):
            for i, a, g_, b in itertools.product(range(0, 12, 3), (1, 2, 7), (1, 2, 3, 5, 9), (1, 4, 9)):
                if not ctx.mine():
                    continue
                wet = np.zeros(T)
                wet[i : i + a] = 1
                wet[i + a + g_ : i + a + g_ + b] = 1
                ok, g = ctx.call({"n": n}, fn, sig, wet, n)
                if ok:
                    ctx.eq("baseline", g, model(sig, wet, n, ctx), {"i": i, "a": a, "gap": g_, "b": b, "n": n})
                    ctx.trace(outcome=(n, i, a, g_, b))
    if ctx.family("very_long_series"):
        T = 3000
        sig = np.array([50 + 3 * np.sin(i * 0.37) + 0.001 * i for i in range(T)])
        for n, start, length, period in itertools.product((1, 4, 60), (1, 70, 1500), (1, 30, 900), (97, 1441)):
            if not ctx.mine():
                continue
            wet = np.zeros(T)
            for q in range(start, T, period):
                wet[q : q + min(length, period - 2)] = 1
            for hole in (None, T // 2):
                if hole is not None:
                    wet[hole] = nan
                ok, g = ctx.call({"n": n}, fn, sig, wet, n)
                if ok:
                    ctx.eq("baseline", g, model(sig, wet, n), {"T": T, "start": start, "length": length, "period": period, "n": n, "nan": hole})
                    ctx.step(T)
                    ctx.trace(outcome=(n, start, length, period, hole))
    if ctx.family("many_samples_averaged"):
        # averaging windows up to a day and more of one-minute data
        for n, lead, event in itertools.product((600, 1441, 2100), (0, 300, 599, 600, 1441, 2500), (1, 700)):
            if not ctx.mine():
                continue
            T = lead + event + 900
            wet = np.zeros(T)
            wet[lead : lead + event] = 1
            wet[lead + event + 400 : lead + event + 500] = 1
            sig = 55 + 4 * np.sin(np.arange(T) * 0.37) + 0.013 * np.arange(T)
            ok, g = ctx.call({"n": n, "lead": lead, "event": event}, fn, sig, wet, n)
            ctx.step(T)
            if ok:
                ctx.eq("baseline", g, model(sig, wet, n), {"n": n, "lead": lead, "event": event})
                ctx.trace(outcome=(n, lead, event))
    if ctx.family("run_length_sequences"):
        # every sequence of 2..4 dry/wet runs with durations from one sample to weeks
        for depth, lens in ((2, (1, 700, 9000)), (3, (1, 30, 6000)), (4, (2, 40, 3500))):
            for runs in rle_words((0.0, 1.0), lens, depth):
                for n in (1, 7, 500):
                    if not ctx.mine():
                        continue
                    wet = expand(runs)
                    sig = 55 + 4 * np.sin(np.arange(len(wet)) * 0.37) + 0.0013 * np.arange(len(wet))
                    case = {"runs": runs, "n": n}
                    ok, g = ctx.call(case, fn, sig, wet, n)
                    if ok:
                        ctx.eq("baseline", g, model(sig.tolist(), wet.tolist(), n), case)
                        ctx.step(len(wet))
                        ctx.state((runs, n))
                        ctx.trace(outcome=(runs, n))
    if ctx.family("containers_and_dtypes"):
        sigs = [[60.0, 62.0, 61.0, 65.0, 64.0, 70.0], [60.0, nan, 61.0, 65.0, nan, 70.0], [-40.0, -41.0, -45.0, -48.0, -42.0, -40.0]]
        wets = [[0, 0, 1, 1, 0, 1], [0, 1, 0, 1, 1, 0], [1, 1, 0, 0, 1, 1], [0, 0, 0, 0, 0, 0], [1] * 6]
        for s, w, n in itertools.product(sigs, wets, (1, 2, 3, 6, 7)):
            if not ctx.mine():
                continue
            want = model(s, w, n, ctx)
            idx = pd.date_range("2020-01-01", periods=6, freq="min")
            noncontig = np.full(12, 99.0)
            noncontig[::2] = s
            ro = np.array(s)
            ro.setflags(write=False)
            conts = {
                "list": (list(s), [bool(x) for x in w]),
                "float64/bool": (np.array(s), np.array(w, bool)),
                "float64/int": (np.array(s), np.array(w, int)),
                "float32/float": (np.array(s, np.float32), np.array(w, float)),
                "series": (pd.Series(s, index=idx), pd.Series(w, index=idx).astype(bool)),
                "noncontiguous": (noncontig[::2], np.array(w, bool)),
                "readonly": (ro, np.array(w, bool)),
                "object wet": (np.array(s), np.array([bool(x) for x in w], dtype=object)),
                "reversed view": (np.array(s[::-1])[::-1], np.array(w[::-1], float)[::-1]),
            }
            if not any(x != x for x in s):
                conts["int signal"] = (np.array(s, int), np.array(w, bool))
            for name, (a, b) in conts.items():
                ok, g = ctx.call({"container": name, "trsl": s, "wet": w, "n": n}, fn, a, b, n_average_last_dry=n)
                if ok:
                    ctx.eq("baseline", np.asarray(g), want, {"container": name, "trsl": s, "wet": w, "n": n})
                    ctx.trace(outcome=(name, n))
            # default of n_average_last_dry is one
            if n == 1:
                ok, g = ctx.call({"default n": True}, fn, np.array(s), np.array(w, bool))
                if ok:
                    ctx.eq("baseline (default)", g, want, {"trsl": s, "wet": w, "n": "default"})
