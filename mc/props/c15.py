"""C15: rainfall performance metrics."""
import itertools
import math

import numpy as np
import pandas as pd

from ..core import nan, words

MODES = ["nojit"]
SHARDS = 6
BOUNDS = (
    "all pairs of reference/prediction words over 4 rain amounts incl. the threshold itself and missing, length 1..3 (thorough 4) x "
    "4 thresholds; all single/double pairs over a fine alphabet around the threshold; 2-D/3-D layouts; containers; large amounts with small exact differences; long series"
)
ASSUMPTIONS = ["amounts are multiples of 1/8, so threshold comparisons are exact", "quantities with an empty or zero denominator are not judged beyond being no finite number"]

FIELDS = ["pearson_correlation", "coefficient_of_variation", "root_mean_square_error", "mean_absolute_error", "R_sum_reference", "R_sum_predicted", "R_mean_reference", "R_mean_predicted", "false_wet_rate", "missed_wet_rate", "false_wet_precipitation_rate", "missed_wet_precipitation_rate", "rainfall_threshold_wet", "N_all_pairs", "N_nan_pairs", "N_nan_reference_only", "N_nan_predicted_only"]


def mean(v):
    return math.fsum(v) / len(v) if v else nan


def div(a, b):
    if b == 0 or b != b:
        return nan
    return a / b


def model(ref, pred, thr):
    ok = [(r, p) for r, p in zip(ref, pred) if r == r and p == p]
    R, P = [r for r, _ in ok], [p for _, p in ok]
    d = [p - r for r, p in ok]
    mr, mp, md = mean(R), mean(P), mean(d)
    if ok:
        srr = math.fsum((r - mr) ** 2 for r in R)
        spp = math.fsum((p - mp) ** 2 for p in P)
        srp = math.fsum((r - mr) * (p - mp) for r, p in ok)
        cor = div(srp, math.sqrt(srr * spp))
        sd = math.sqrt(mean([(x - md) ** 2 for x in d]))
        rmse = math.sqrt(mean([x * x for x in d]))
        mae = mean([abs(x) for x in d])
    else:
        cor = sd = rmse = mae = nan
    fw = [p for r, p in ok if r < thr and p >= thr]
    mw = [r for r, p in ok if r >= thr and p < thr]
    return dict(
        pearson_correlation=cor, coefficient_of_variation=div(sd, mr), root_mean_square_error=rmse, mean_absolute_error=mae,
        R_sum_reference=math.fsum(R), R_sum_predicted=math.fsum(P), R_mean_reference=mr, R_mean_predicted=mp,
        false_wet_rate=div(len(fw), sum(r < thr for r in R)), missed_wet_rate=div(len(mw), sum(r >= thr for r in R)),
        false_wet_precipitation_rate=mean(fw), missed_wet_precipitation_rate=mean(mw), rainfall_threshold_wet=thr,
        N_all_pairs=len(ref), N_nan_pairs=len(ref) - len(ok),
        N_nan_reference_only=sum(r != r for r in ref), N_nan_predicted_only=sum(p != p for p in pred),
    )


def judge(ctx, case, res, want, tol=1e-9):
    for f in FIELDS:
        g = getattr(res, f, None)
        if g is None:
            ctx.fail("field %s missing" % f, case)
            return
        g, w = float(g), float(want[f])
        if w != w:
            if math.isfinite(g):
                ctx.fail("%s: got %r for an undefined quantity" % (f, g), case)
                return
        elif not abs(g - w) <= tol * max(1, abs(w)):
            ctx.fail("%s: got %r, expected %r" % (f, g, w), case)
            return


def explore(ctx):
    from pycomlink.validation.stats import calc_rain_error_performance_metrics as fn

    big = ctx.thorough

    def one(r, p, thr, case, tol=1e-9, shape=None):
        a, b = np.array(r, float), np.array(p, float)
        if shape:
            a, b = a.reshape(shape), b.reshape(shape)
        a0, b0 = a.copy(), b.copy()
        ok, res = ctx.call(case, fn, a, b, thr)
        ctx.step(len(r))
        if ok:
            want = model(list(r), list(p), thr)
            judge(ctx, case, res, want, tol)
            ctx.trace(outcome=str(want))
            ctx.state(str(want))
            if not (np.array_equal(a, a0, equal_nan=True) and np.array_equal(b, b0, equal_nan=True)):
                ctx.fail("inputs were modified", case)

    if ctx.family("word_pairs"):
        A = (0.0, 0.5, 2.25, nan)
        for n in (1, 2, 3, 4) if big else (1, 2, 3):
            for w in words(A, 2 * n):
                for thr in (0.5,) if n == 4 else (0.0, 0.25, 0.5, 2.25):
                    if ctx.mine():
                        one(w[:n], w[n:], thr, {"reference": w[:n], "predicted": w[n:], "threshold": thr})
        ctx.sample({"reference": [0.5, 0.0, nan], "predicted": [0.5, 2.25, 0.0], "threshold": 0.5})
    if ctx.family("around_threshold"):
        for thr in (0.125, 0.5, 1.0):
            V = (0.0, thr / 2, float(np.nextafter(thr, 0)), thr, float(np.nextafter(thr, 9)), 2 * thr, -thr)
            for w in words(V, 4):
                if ctx.mine():
                    one(w[:2], w[2:], thr, {"reference": w[:2], "predicted": w[2:], "threshold": thr}, tol=1e-7)
    if ctx.family("layouts"):
        A = (0.0, 1.5, nan)
        p = [1.5, 0.0, 0.25, nan, 4.0, 0.5]
        for w in words(A, 6):
            for shape in ((2, 3), (3, 2), (1, 6), (3, 1, 2)):
                if ctx.mine() and (big or shape in ((2, 3), (3, 1, 2))):
                    one(w, p, 0.5, {"reference": w, "predicted": p, "shape": shape}, shape=shape)
        for w in words((0.0, 2.0, nan), 4):
            q = [0.5, 2.5, nan, 1.0]
            for mk in (pd.Series, lambda v: np.array(v, np.float32), lambda v: np.repeat(np.array(v), 3)[::3]):
                if ctx.mine():
                    ok, res = ctx.call({"reference": w}, fn, mk(list(w)), mk(q), 0.5)
                    ctx.step(4)
                    if ok:
                        judge(ctx, {"reference": w, "predicted": q}, res, model(list(w), q, 0.5), 1e-5)
                        ctx.trace()
        for w in words((0, 1, 3), 6):
            if ctx.mine():
                ok, res = ctx.call({"reference": w[:3], "predicted": w[3:]}, fn, np.array(w[:3]), np.array(w[3:]), 1)
                ctx.step(3)
                if ok:
                    judge(ctx, {"reference": w[:3], "predicted": w[3:]}, res, model(w[:3], w[3:], 1))
                    ctx.trace()
    if ctx.family("long_series"):
        for n, k, thr in itertools.product((50, 1000, 20000), range(12), (0.125, 1.0)):
            if ctx.mine() and (n < 5000 or k < 4):
                r = [nan if (i * 7 + k) % 23 == 0 else ((i * 37 + k) % 41) * 0.125 * ((i // 7) % 2) for i in range(n)]
                p = [nan if (i * 5 + k) % 19 == 0 else ((i * 29 + 3 * k) % 31) * 0.125 * ((i // 5) % 2) for i in range(n)]
                one(r, p, thr, {"n": n, "k": k, "threshold": thr})
                # values with no short binary representation
                one([v * 0.37 for v in r], [v * 0.37 for v in p], thr, {"n": n, "k": k, "threshold": thr, "times": 0.37})
    if ctx.family("small_differences"):
        # totals that are large compared with their differences; the differences are exact in binary
        for base, h in itertools.product((0.5, 64.0, 4096.0, 2.0**20), (0.125, 2.0**-10, 2.0**-16)):
            for w in words((-1, 0, 1, 3), 4):
                if ctx.mine():
                    r, p = [base, base + 8 * h, base + 3 * h, base + 2 * h], [base + h * (v + q) for q, v in enumerate(w)]
                    case = {"reference": r, "predicted": p}
                    ok, res = ctx.call(case, fn, np.array(r), np.array(p), base)
                    ctx.step(4)
                    if ok:
                        want = model(r, p, base)
                        for f in ("root_mean_square_error", "mean_absolute_error", "coefficient_of_variation"):
                            g, e = float(getattr(res, f)), want[f]
                            if not abs(g - e) <= 1e-6 * e + 1e-300:
                                ctx.fail("%s: got %r, expected %r" % (f, g, e), case)
                        ctx.trace(outcome=str((base, h, w)))
    if ctx.family("shape_mismatch_rejected"):
        for s1, s2 in itertools.permutations([(2,), (3,), (2, 3), (3, 2), (6,), (1, 6)], 2):
            ctx.rejects({"shapes": (s1, s2)}, fn, np.zeros(s1), np.zeros(s2), 0.1)
            ctx.trace()
            ctx.step()
