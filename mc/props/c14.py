"""C14: wet-dry performance metrics."""
import itertools
import math
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from ..core import nan, words

MODES = ["nojit"]
SHARDS = 6
BOUNDS = (
    "all pairs of reference/prediction words over {dry, wet, missing} up to length 4 (thorough 5); all confusion tables with counts "
    "0..5 (thorough 0..7) and 0..2 missing pairs of each kind in shuffled order; 2-D/3-D layouts; dtypes and containers; large counts"
)
ASSUMPTIONS = ["rates whose denominator is zero are not numbers; the correlation is 0 when nothing is predicted wet"]

FIELDS = ["false_wet_rate", "missed_wet_rate", "matthews_correlation", "true_wet_rate", "true_dry_rate", "N_dry_reference", "N_wet_reference", "N_true_wet", "N_true_dry", "N_false_wet", "N_missed_wet", "N_all_pairs", "N_nan_pairs", "N_nan_reference_only", "N_nan_predicted_only"]


def div(a, b):
    return a / b if b else nan


def model(ref, pred):
    pairs = list(zip(ref, pred))
    ok = [(r > 0, p > 0) for r, p in pairs if r == r and p == p]
    tp = sum(r and p for r, p in ok)
    tn = sum((not r) and (not p) for r, p in ok)
    fp = sum((not r) and p for r, p in ok)
    fn = sum(r and (not p) for r, p in ok)
    den = (tp + fp) * (tp + fn) * (tn + fp) * (tn + fn)
    if tp + fp == 0:
        mcc = 0.0
    else:
        mcc = (tp * tn - fp * fn) / math.sqrt(den) if den else nan
    return dict(
        false_wet_rate=div(fp, tn + fp), missed_wet_rate=div(fn, tp + fn), matthews_correlation=mcc,
        true_wet_rate=div(tp, tp + fn), true_dry_rate=div(tn, tn + fp),
        N_dry_reference=tn + fp, N_wet_reference=tp + fn, N_true_wet=tp, N_true_dry=tn, N_false_wet=fp, N_missed_wet=fn,
        N_all_pairs=len(pairs), N_nan_pairs=len(pairs) - len(ok),
        N_nan_reference_only=sum(r != r for r in ref), N_nan_predicted_only=sum(p != p for p in pred),
    )


def judge(ctx, case, res, want):
    for f in FIELDS:
        g = getattr(res, f, None)
        if g is None:
            ctx.fail("field %s missing" % f, case)
            return
        g, w = float(g), float(want[f])
        if not ((g != g and w != w) or abs(g - w) <= 1e-9 * max(1, abs(w))):
            ctx.fail("%s: got %r, expected %r" % (f, g, w), case)
            return


def explore(ctx):
    from pycomlink.validation import stats
    from pycomlink.validation.validator import calc_wet_dry_error

    fn = stats.calc_wet_dry_performance_metrics
    big = ctx.thorough
    if ctx.family("word_pairs"):
        A = (0.0, 1.0, nan)
        for n in range(1, 6 if big else 5):
            for w in words(A, 2 * n):
                if not ctx.mine():
                    continue
                r, p = np.array(w[:n]), np.array(w[n:])
                case = {"reference": w[:n], "predicted": w[n:]}
                ok, res = ctx.call(case, fn, r, p)
                want = model(w[:n], w[n:])
                ctx.state(tuple(want[f] for f in FIELDS[5:]))
                ctx.step(n)
                if ok:
                    judge(ctx, case, res, want)
                    ctx.trace(outcome=str(want))
                    if not (np.array_equal(r, np.array(w[:n]), equal_nan=True) and np.array_equal(p, np.array(w[n:]), equal_nan=True)):
                        ctx.fail("inputs were modified", case)
        ctx.sample({"reference": [0, 1, nan], "predicted": [1, 1, 0]})
    if ctx.family("confusion_tables"):
        K = 8 if big else 6
        for tp, tn, fp, fn_ in itertools.product(range(K), repeat=4):
            for nn in ((0, 0, 0), (1, 0, 0), (0, 2, 1)):
                if not ctx.mine():
                    continue
                pairs = [(1, 1)] * tp + [(0, 0)] * tn + [(0, 1)] * fp + [(1, 0)] * fn_ + [(nan, 1)] * nn[0] + [(0, nan)] * nn[1] + [(nan, nan)] * nn[2]
                if not pairs:
                    continue
                m = len(pairs)
                pairs = [pairs[(i * 7919) % m] for i in range(m)] if m % 7919 else pairs
                r, p = np.array([float(x[0]) for x in pairs]), np.array([float(x[1]) for x in pairs])
                case = {"tp": tp, "tn": tn, "fp": fp, "fn": fn_, "nan": nn}
                ok, res = ctx.call(case, fn, r, p)
                ctx.state((tp, tn, fp, fn_, nn))
                ctx.step(m)
                if ok:
                    judge(ctx, case, res, model(r.tolist(), p.tolist()))
                    ctx.trace(outcome=(tp, tn, fp, fn_))
    if ctx.family("layouts_and_types"):
        for w in words((0.0, 1.0, nan), 6):
            if not ctx.mine():
                continue
            r = np.array(w)
            p = np.array([1.0, 0.0, 1.0, nan, 0.0, 1.0])
            want = model(w, p.tolist())
            for shape in ((2, 3), (3, 2), (1, 6), (3, 1, 2)):
                case = {"reference": w, "shape": shape}
                ok, res = ctx.call(case, fn, r.reshape(shape), p.reshape(shape))
                ctx.step(6)
                if ok:
                    judge(ctx, case, res, want)
                    ctx.trace(outcome=(shape, str(want)))
            case = {"reference": w, "layout": "fortran/strided"}
            ok, res = ctx.call(case, fn, np.asfortranarray(r.reshape(2, 3)), np.repeat(p.reshape(2, 3), 2, axis=1)[:, ::2])
            if ok:
                judge(ctx, case, res, want)
                ctx.trace()
            ok, res = ctx.call(case, fn, pd.Series(w), pd.Series(p))
            if ok:
                judge(ctx, {"reference": w, "layout": "series"}, res, want)
                ctx.trace()
        for w in words((0, 1), 8):
            if not ctx.mine():
                continue
            want = model(w[:4], w[4:])
            for dt in (bool, int, np.int8, np.uint8, np.float32):
                case = {"reference": w[:4], "predicted": w[4:], "dtype": str(dt)}
                ok, res = ctx.call(case, fn, np.array(w[:4]).astype(dt), np.array(w[4:]).astype(dt))
                ctx.step(4)
                if ok:
                    judge(ctx, case, res, want)
                    ctx.trace()
    if ctx.family("wet_is_positive"):
        V = (-1.0, 0.0, 1e-9, 0.5, 2.0, nan)
        for w in words(V, 4):
            if not ctx.mine():
                continue
            case = {"reference": w[:2], "predicted": w[2:]}
            ok, res = ctx.call(case, fn, np.array(w[:2]), np.array(w[2:]))
            ctx.step(2)
            if ok:
                judge(ctx, case, res, model(w[:2], w[2:]))
                ctx.trace()
    if ctx.family("large_counts"):
        for k, (a, b, c, d) in enumerate(itertools.product((1000, 40000), (70000, 200000), (1000, 90000), (2000, 60000))):
            if not ctx.mine():
                continue
            r = np.concatenate([np.ones(a), np.zeros(b), np.zeros(c), np.ones(d)])
            p = np.concatenate([np.ones(a), np.zeros(b), np.ones(c), np.zeros(d)])
            for dt in (float, bool):
                case = {"tp": a, "tn": b, "fp": c, "fn": d, "dtype": str(dt)}
                ok, res = ctx.call(case, fn, r.astype(dt), p.astype(dt))
                ctx.step(len(r))
                if ok:
                    tp, tn, fp, f_ = a, b, c, d
                    want = dict(false_wet_rate=fp / (tn + fp), missed_wet_rate=f_ / (tp + f_), matthews_correlation=(tp * tn - fp * f_) / math.sqrt((tp + fp) * (tp + f_) * (tn + fp) * (tn + f_)), true_wet_rate=tp / (tp + f_), true_dry_rate=tn / (tn + fp), N_dry_reference=tn + fp, N_wet_reference=tp + f_, N_true_wet=tp, N_true_dry=tn, N_false_wet=fp, N_missed_wet=f_, N_all_pairs=len(r), N_nan_pairs=0, N_nan_reference_only=0, N_nan_predicted_only=0)
                    judge(ctx, case, res, want)
                    ctx.trace()
    if ctx.family("shape_mismatch_rejected"):
        for s1, s2 in itertools.permutations([(2,), (3,), (2, 3), (3, 2), (6,), (1, 6)], 2):
            ctx.rejects({"shapes": (s1, s2)}, fn, np.zeros(s1), np.zeros(s2))
            ctx.trace()
            ctx.step()
    if ctx.family("older_error_rates"):
        warnings.simplefilter("ignore")
        for n in (1, 2, 3, 4):
            for w in words((False, True), 2 * n):
                if not ctx.mine():
                    continue
                t, p = w[:n], w[n:]
                dry, wet = t.count(False), t.count(True)
                fw, mw = sum((not a) and b for a, b in zip(t, p)), sum(a and not b for a, b in zip(t, p))
                for mk in (np.array, pd.Series):
                    case = {"truth": t, "predicted": p}
                    ok, res = ctx.call(case, stats.calc_wet_error_rates, mk(list(t)), mk(list(p)))
                    ctx.step(n)
                    if ok:
                        ctx.eq("error rates", [res.false, res.missed], [div(fw, dry), div(mw, wet)], case)
                    ok, res = ctx.call(case, calc_wet_dry_error, mk(list(t)), mk(list(p)))
                    if ok:
                        ctx.eq("wet, dry error", list(res), [div(mw, wet), div(fw, dry)], case)
                        ctx.trace()
