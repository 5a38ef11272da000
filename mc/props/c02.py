"""C02: linear baseline across wet periods."""
import itertools

import numpy as np
import pandas as pd

from ..core import expand, nan, run_words, words
from .c01 import level

MODES = ["nojit", "jit"]
SHARDS = {"nojit": 5, "jit": 3}
BOUNDS = (
    "all words over {finite,NaN} signal x {dry,wet,NaN} up to length 6 (7 thorough) and all dry/wet/NaN words up to "
    "length 8 (10), both NaN treatments; all wet intervals in long series; containers and dtypes"
)
ASSUMPTIONS = [
    "the state of the very first sample is taken as dry (it is the start value of the baseline)",
    "for a wet period with an undefined end value the flanking dry samples may be reported as NaN or as the signal",
]

ANY = object()


def model(rsl, wet, ignore_nan, ctx=None):
    """Return a list of sets of accepted values."""
    n = len(rsl)
    st = [0] * n  # 0 dry, 1 wet, 2 unknown
    for i in range(1, n):
        w = wet[i]
        if w != w:
            st[i] = (1 if st[i - 1] == 1 else 0) if ignore_nan else 2
        else:
            st[i] = 1 if w else 0
    if ctx is not None:
        for i in range(n):
            ctx.step()
    out = [[rsl[i]] if st[i] == 0 else None for i in range(n)]
    i = 1
    while i < n:
        if st[i] == 0:
            i += 1
            continue
        j = i
        while j < n and st[j] != 0:
            j += 1
        # wet/unknown run i..j-1, flanked by i-1 and j
        bad = (2 in st[i:j]) or j == n
        if j < n and (rsl[i - 1] != rsl[i - 1] or rsl[j] != rsl[j]):
            bad = True
        for k in range(i, j):
            if bad:
                out[k] = [nan]
            else:
                out[k] = [rsl[i - 1] + (rsl[j] - rsl[i - 1]) * (k - (i - 1)) / (j - (i - 1))]
        if bad:
            if j < n:
                out[i - 1] = out[i - 1] + [nan]
                out[j] = out[j] + [nan]
        if ctx is not None:
            ctx.state((ignore_nan, tuple(st[i - 1 : j + 1]), "%.6g" % out[i][0]))
        i = j
    return out


def accept(got, want):
    if len(got) != len(want):
        return False
    for g, ws in zip(got, want):
        if not any((g != g and w != w) or abs(g - w) <= 1e-9 * (1 + abs(w)) for w in ws):
            return False
    return True


def one(ctx, fn, rsl, wet, ign, case=None, want=None):
    case = case or {"rsl": rsl, "wet": wet, "ignore_nan": ign}
    ok, got = ctx.call(case, fn, rsl, wet, ignore_nan=ign)
    if not ok:
        return
    want = want or model(list(np.asarray(rsl, float)), list(np.asarray(wet, float)), ign, ctx)
    g = np.asarray(got, float)
    if g.shape != (len(want),) or not accept(list(g), want):
        ctx.fail("linear baseline: got %s, accepted values per sample %s" % (g.tolist(), want), case)
    ctx.trace(outcome=tuple("%.9g" % v for v in g))


def explore(ctx):
    from pycomlink.processing.baseline import baseline_linear as fn

    big = ctx.thorough
    W3 = [0.0, 1.0, nan]
    if ctx.family("words_signal_x_wet"):
        for L in range(1, 7 if not big else 8):
            for w in words(list(itertools.product([0, 1], W3)), L):
                if not ctx.mine():
                    continue
                rsl = np.array([nan if a[0] else level(i, L % 2) for i, a in enumerate(w)])
                wet = np.array([a[1] for a in w])
                for ign in (False, True) if L < 6 or big else (False,):
                    one(ctx, fn, rsl, wet, ign)
    if ctx.family("words_wet_only"):
        for L in (7, 8) if not big else (7, 8, 9, 10):
            for w in words(W3, L):
                if ctx.mine():
                    rsl = np.array([level(i, 0) for i in range(L)])
                    for ign in (False, True):
                        one(ctx, fn, rsl, np.array(w), ign)
        ctx.sample({"rsl": [level(i) for i in range(8)], "wet": "all 3^8 words"})
    if ctx.family("long_series_wet_intervals"):
        T = 40 if not big else 80
        sig = np.array([50 + 3 * np.sin(i) + 0.01 * i for i in range(T)])
        for i in range(0, T):
            for j in range(i + 1, T + 1, 1 if big else 2):
                if not ctx.mine():
                    continue
                wet = np.zeros(T)
                wet[i:j] = 1
                one(ctx, fn, sig, wet, False)
                wet[(i + j) // 2] = nan
                one(ctx, fn, sig, wet, True)
                one(ctx, fn, sig, wet, False)
    if ctx.family("very_long_series"):
        T = 3000
        sig = np.array([50 + 3 * np.sin(i * 0.37) + 0.001 * i for i in range(T)])
        for start, length, period in itertools.product((1, 70, 1500), (1, 30, 900), (97, 1441)):
            if not ctx.mine():
                continue
            wet = np.zeros(T)
            for q in range(start, T, period):
                wet[q : q + min(length, period - 2)] = 1
            one(ctx, fn, sig, wet, False, {"T": T, "start": start, "length": length, "period": period})
            wet[T // 2] = nan
            one(ctx, fn, sig, wet, True, {"T": T, "start": start, "length": length, "period": period, "ignore_nan": True})
            one(ctx, fn, sig, wet, False, {"T": T, "start": start, "length": length, "period": period, "nan": T // 2})
    if ctx.family("run_length_sequences"):
        for depth, lens in ((2, (1, 700, 9000)), (3, (1, 30, 6000)), (4, (2, 40, 3500))):
            for runs in run_words((0.0, 1.0), lens, depth):
                if not ctx.mine():
                    continue
                wet = expand(runs)
                sig = 55 + 4 * np.sin(np.arange(len(wet)) * 0.37) + 0.0013 * np.arange(len(wet))
                one(ctx, fn, sig, wet, False, {"runs": runs, "ignore_nan": False})
                q = len(wet) // 2
                wet[q] = nan
                one(ctx, fn, sig, wet, True, {"runs": runs, "ignore_nan": True, "unknown at": q})
                one(ctx, fn, sig, wet, False, {"runs": runs, "ignore_nan": False, "unknown at": q})
    if ctx.family("very_long_wet_periods"):
        for lead, length, tail in itertools.product((0, 1, 700), (17000, 33000, 70000), (0, 1, 40)):
            if ctx.mine():
                wet = np.zeros(lead + length + tail)
                wet[lead : lead + length] = 1
                sig = 55 + 4 * np.sin(np.arange(len(wet)) * 0.37) + 0.0013 * np.arange(len(wet))
                one(ctx, fn, sig, wet, False, {"dry before": lead, "wet": length, "dry after": tail})
    if ctx.family("containers_and_dtypes"):
        sigs = [[60.0, 62.0, 61.0, 65.0, 64.0, 70.0], [-40.0, -41.0, -45.0, -48.0, -42.0, -40.0]]
        wets = [[0, 0, 1, 1, 0, 0], [0, 1, 0, 1, 1, 0], [1, 1, 0, 0, 1, 1], [0] * 6, [1] * 6]
        for s, w, ign in itertools.product(sigs, wets, (False, True)):
            if not ctx.mine():
                continue
            idx = pd.date_range("2020-01-01", periods=6, freq="min")
            want = model(s, w, ign, ctx)
            nc = np.full(12, 99.0)
            nc[::2] = s
            ro = np.array(s)
            ro.setflags(write=False)
            for name, (a, b) in {
                "bool": (np.array(s), np.array(w, bool)),
                "int wet": (np.array(s), np.array(w, int)),
                "int signal": (np.array(s, int), np.array(w, bool)),
                "float32": (np.array(s, np.float32), np.array(w, float)),
                "series": (pd.Series(s, index=idx), pd.Series(w, index=idx).astype(bool)),
                "noncontiguous": (nc[::2], np.array(w, bool)),
                "readonly": (ro, np.array(w, bool)),
            }.items():
                one(ctx, fn, a, b, ign, {"container": name, "rsl": s, "wet": w, "ignore_nan": ign}, want)
            ok, g = ctx.call({"default": True}, fn, np.array(s), np.array(w, float))
            if ok and not accept(list(g), model(s, w, False)):
                ctx.fail("default ignore_nan: got %s" % (list(g),), {"rsl": s, "wet": w})
    if ctx.family("default_does_not_ignore_nan"):
        for w in words(W3, 5):
            if ctx.mine():
                rsl = np.array([level(i, 1) for i in range(5)])
                ok, g = ctx.call({"wet": w}, fn, rsl, np.array(w))
                ctx.step(5)
                if ok:
                    if not accept(list(g), model(rsl, w, False)):
                        ctx.fail("default ignore_nan: got %s" % (list(g),), {"rsl": rsl, "wet": w})
                    ctx.trace()
