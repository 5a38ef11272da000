"""C10: reference level, signal correction and rain rate of the nearby-link retrieval (Overeem et al. 2016)."""
import itertools
import statistics

import numpy as np
import xarray as xr

from ..core import nan, words
from .oracle_ab import ab

MODES = ["nojit"]
SHARDS = 6
BOUNDS = (
    "reference level and correction: all words of length 4 (thorough 5) over signal/class symbols incl. missing class and missing "
    "signal x window/min_periods grid; long series with every wet interval; rain rate: full grid of reference x corrected minimum x "
    "maximum x outlier score x waa x alpha x threshold x k-R parameters; all presence combinations of the k-R arguments"
)
ASSUMPTIONS = ["where a raw level is missing the corrected level may be missing or a level, but is not above the reference and differs from it only in wet steps", "values are multiples of 1/8 dB, so comparisons are exact"]


def med(v):
    v = [x for x in v if x == x]
    return statistics.median(v) if v else nan


def ref_model(pmin, pmax, wet, n=96, mp=1):
    m = [(a + b) / 2 if w == 0 else nan for a, b, w in zip(pmin, pmax, wet)]
    out = []
    for t in range(len(m)):
        v = [x for x in m[max(0, t - n + 1) : t + 1] if x == x]
        out.append(statistics.median(v) if len(v) >= max(mp, 1) else nan)
    return out


def corr_model(pmin, pmax, wet, pref):
    """per sample; None: not judged"""
    if pref != pref:
        return nan, nan
    if pmin != pmin or pmax != pmax:
        return None, None
    c = pmin if (pmin < pref and wet == 1) else pref
    return c, (pmax if (c < pref and pmax < pref) else pref)


def rain_model(pref, cmin, cmax, F, L, a, b, waa=2.3, alpha=0.33, thr=-32.5):
    if thr is not None and F <= thr:
        return nan
    amin, amax = pref - cmax - waa, pref - cmin - waa
    if amin != amin or amax != amax:
        return nan
    rmin = (max(amin, 0.0) / (a * L)) ** (1 / b)
    rmax = (max(amax, 0.0) / (a * L)) ** (1 / b)
    return alpha * rmax + (1 - alpha) * rmin


def da(x, dims=("cml_id", "time")):
    x = np.array(x, float)
    c = {"time": np.datetime64("2021-01-01", "ns") + np.arange(x.shape[dims.index("time")]) * np.timedelta64(15, "m")}
    if "cml_id" in dims:
        c["cml_id"] = ["c%d" % i for i in range(x.shape[dims.index("cml_id")])]
    return xr.DataArray(x, dims=dims, coords=c)


def explore(ctx):
    from pycomlink.processing.nearby_rain_retrival import (
        nearby_correct_received_signals,
        nearby_determine_reference_level,
        nearby_rainfall_retrival,
    )

    big = ctx.thorough
    SYM = [(-50.0, -49.0, 0.0), (-50.0, -49.0, 1.0), (-50.0, -49.0, nan), (-52.0, -50.0, 0.0), (-52.0, -50.0, 1.0), (-54.0, -53.0, 0.0), (-54.0, -53.0, 1.0), (-54.0, -48.0, 1.0), (-49.5, -49.5, 0.0), (nan, -49.0, 0.0), (nan, nan, nan), (-60.0, -45.0, nan)]
    T = 5 if big else 4

    def run_ref(rows, name, params):
        pm, px, w = (np.array([[s[k] for s in r] for r in rows], float) for k in range(3))
        for n, mp in params:
            kw = {} if n is None else dict(n_average_dry=n, min_periods=mp)
            args = [da(pm), da(px), da(w)]
            keep = [x.copy(deep=True) for x in args]
            case = {"family": name, "n_average_dry": n, "min_periods": mp}
            ok, g = ctx.call(case, nearby_determine_reference_level, *args, **kw)
            ctx.step(pm.size)
            ctx.trace(len(rows))
            if not ok:
                continue
            want = np.array([ref_model(*x, **({} if n is None else dict(n=n, mp=mp))) for x in zip(pm.tolist(), px.tolist(), w.tolist())])
            gv = g.transpose("cml_id", "time").values
            if not np.array_equal(g.time.values, args[0].time.values) or not np.array_equal(g.cml_id.values, args[0].cml_id.values):
                ctx.fail("labels changed", case)
            bad = ~((np.abs(gv - want) < 1e-9) | (np.isnan(gv) & np.isnan(want)))
            if bad.any():
                i = int(np.argwhere(bad)[0][0])
                ctx.fail("reference level: got %s, expected %s" % (gv[i], want[i]), dict(case, pmin=pm[i], pmax=px[i], wet=w[i]))
            for r in want:
                ctx.outcomes.add(hash((name, str(r))))
                ctx.state((n, mp, str(r)))
            ok, res = ctx.call(case, nearby_correct_received_signals, *args, g)
            if not ok:
                continue
            cm, cx = (q.transpose("cml_id", "time").values for q in res)
            for i in range(len(rows)):
                for t in range(pm.shape[1]):
                    e = corr_model(pm[i, t], px[i, t], w[i, t], want[i, t])
                    if e[0] is None:
                        # a level is missing: the corrected values may be missing, but are never above the reference
                        # and differ from it only in wet steps
                        for got in (cm[i, t], cx[i, t]):
                            if got == got and (got > want[i, t] or (w[i, t] != 1 and got != want[i, t])):
                                ctx.fail("corrected level with a missing raw level: got %r, reference %r" % (got, want[i, t]), dict(pmin=pm[i, t], pmax=px[i, t], wet=w[i, t], pref=want[i, t]))
                        continue
                    for k, (got, ex) in enumerate(((cm[i, t], e[0]), (cx[i, t], e[1]))):
                        if not (abs(got - ex) < 1e-9 or (got != got and ex != ex)):
                            ctx.fail("corrected %s: got %r, expected %r" % (("minimum", "maximum")[k], got, ex), dict(pmin=pm[i, t], pmax=px[i, t], wet=w[i, t], pref=want[i, t]))
            for a_, b_ in zip(args, keep):
                if not a_.identical(b_):
                    ctx.fail("inputs were modified", case)

    if ctx.family("reference_and_correction_words"):
        rows = [r for r in itertools.product(SYM, repeat=T) if ctx.mine()]
        for b in range(0, len(rows), 20000):
            run_ref(rows[b : b + 20000], "words", [(None, None), (1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 2)])
        ctx.sample({"rows": [list(map(list, r)) for r in rows[5:7]]})
    if ctx.family("unusual_levels"):
        # minimum above maximum, one of the two missing, equal to the reference
        odd = [(-50.0, -50.0, 0.0), (-48.0, -53.0, 1.0), (-48.0, -53.0, 0.0), (-53.0, -48.0, 1.0), (-50.0, -50.0, 1.0), (nan, -53.0, 1.0), (-53.0, nan, 1.0), (nan, -53.0, 0.0), (-53.0, nan, 0.0), (nan, -53.0, nan), (-50.0, -54.0, 1.0), (-54.0, -50.0, 1.0)]
        rows = [r for r in itertools.product(odd, repeat=3) if ctx.mine()]
        run_ref(rows, "unusual", [(None, None), (2, 1), (3, 2)])
    if ctx.family("long_wet_interval"):
        n = 130 if not big else 300
        rows = []
        for s in range(0, n, 3):
            for ln in (1, 2, 20, 96, 97, 110):
                if ctx.mine():
                    rows.append([(-50.0 - 0.125 * (t * 7 % 11) - (5 if s <= t < s + ln else 0), -49.0 - 0.125 * (t * 5 % 7), nan if (t * 13 + s) % 29 == 0 else float(s <= t < s + ln)) for t in range(n)])
        run_ref(rows, "long", [(None, None), (96, 10), (24, 1), (10, 10)])
    if ctx.family("long_windows"):
        n = 1300
        rows = []
        for k in range(16):
            if ctx.mine():
                rows.append([(-50.0 - 0.125 * (t * (7 + k) % 11) - (5 if 300 <= t < 300 + 50 * k else 0), -49.0 - 0.125 * (t * 5 % (7 + k)) - t // 100, nan if (t * 13 + k) % 29 == 0 else float(300 <= t < 300 + 50 * k)) for t in range(n)])
        if rows:
            run_ref(rows, "long windows", [(250, 1), (672, 1), (1000, 400), (2880, 1)])
    if ctx.family("rain_rate_grid"):
        PREF = (-50.0, nan, -45.5)
        CM = (-50.0, -51.0, -52.25, -52.5, -58.0, -80.0, nan, -45.5, -230.0)
        CX = (-50.0, -51.5, -52.5, -56.0, nan, -40.0, -190.0)
        FF = (0.0, -32.5, -32.25, -33.0, nan, 10.0, -1.0, -100.0)
        G = np.array(list(itertools.product(PREF, CM, CX, FF)))
        kr = [dict(a=0.1, b=1.0), dict(a=0.5, b=0.8), dict(a=0.05, b=1.25), dict(f_GHz=23.0, pol="V"), dict(f_GHz=38.0, pol="H"), dict(f_GHz=15.5, pol="Horizontal", a_b_approximation="ITU_2003")]
        for k, L, waa, alpha, thr in itertools.product(kr, (0.5, 1.0, 7.25), (None, 0.0, 2.25, 1.5), (None, 0.0, 1.0, 0.5), ("default", None, -32.5, -1.0, 0.0)):
            if not ctx.mine():
                continue
            a, b = (k["a"], k["b"]) if "a" in k else ab(k["f_GHz"], k["pol"], k.get("a_b_approximation", "ITU_2005"))
            kw = dict(k)
            m = {}
            if waa is not None:
                kw["waa_max"] = m["waa"] = waa
            if alpha is not None:
                kw["alpha"] = m["alpha"] = alpha
            if thr != "default":
                kw["F_value_threshold"] = m["thr"] = thr
            case = dict(kw, length=L)
            cols = [G[:, i].copy() for i in range(4)]
            ok, g = ctx.call(case, nearby_rainfall_retrival, *cols, L, **kw)
            ctx.step(len(G))
            ctx.trace(outcome=str(case))
            ctx.state(str(case))
            if ok:
                want = [rain_model(*r, L, a, b, **m) for r in G.tolist()]
                g = np.asarray(g, float)
                e = ~((np.abs(g - want) <= 1e-6 * np.abs(want) + 1e-9) | (np.isnan(g) & np.isnan(want)))
                if g.shape != (len(G),) or e.any():
                    i = int(np.argwhere(e)[0][0]) if g.shape == e.shape and e.any() else 0
                    ctx.fail("rain rate: got %r, expected %r" % (g[i], want[i]), dict(case, pref=G[i, 0], p_c_min=G[i, 1], p_c_max=G[i, 2], F=G[i, 3]))
                for i in range(4):
                    if not np.array_equal(cols[i], G[:, i], equal_nan=True):
                        ctx.fail("inputs were modified", case)
    if ctx.family("argument_combinations"):
        vals = dict(f_GHz=23.0, pol="V", a=0.1, b=1.0)
        p = [np.array([-50.0, -50.0])] * 3 + [np.array([0.0, 0.0])]
        for mask in range(16):
            names = [n for i, n in enumerate(("f_GHz", "pol", "a", "b")) if mask >> i & 1]
            for lab in (False, True):
                args = [da(x, ("time",)) for x in p] if lab else p
                ctx.trace()
                ctx.step()
                if names in (["f_GHz", "pol"], ["a", "b"]):
                    ctx.call(names, nearby_rainfall_retrival, *args, 2.0, **{n: vals[n] for n in names})
                else:
                    ctx.rejects(names, nearby_rainfall_retrival, *args, 2.0, **{n: vals[n] for n in names})
    if ctx.family("labelled_links"):
        Ls = [1.0, 2.5, 8.0]
        fs, ps = [15.0, 23.0, 38.0], ["H", "V", "v"]
        base = [(-50.0, -50.0, -50.0, 0.0), (-50.0, -55.0, -51.0, 0.0), (-50.0, -60.0, -56.0, -40.0), (nan, -50.0, -50.0, 0.0), (-50.0, -58.0, -50.0, nan), (-50.0, -70.0, -69.0, -32.5)]
        for perm in itertools.permutations(range(6), 4):
            for order in (("cml_id", "time"), ("time", "cml_id")):
                for mode in ("fp", "ab", "scalar_ab"):
                    if not ctx.mine():
                        continue
                    rows = [[base[(i + k) % 6] for i in perm] for k in range(3)]
                    A = [da([[s[k] for s in r] for r in rows]).transpose(*order) for k in range(4)]
                    ids = A[0].cml_id
                    cd = {"cml_id": ids.values}
                    L = xr.DataArray(Ls, dims="cml_id", coords=cd)
                    if mode == "fp":
                        kw = dict(f_GHz=xr.DataArray(fs, dims="cml_id", coords=cd), pol=xr.DataArray(ps, dims="cml_id", coords=cd))
                        co = [ab(f, q) for f, q in zip(fs, ps)]
                    elif mode == "ab":
                        kw = dict(a=xr.DataArray([0.1, 0.2, 0.4], dims="cml_id", coords=cd), b=xr.DataArray([1.0, 0.9, 1.1], dims="cml_id", coords=cd))
                        co = [(0.1, 1.0), (0.2, 0.9), (0.4, 1.1)]
                    else:
                        kw = dict(a=0.1, b=1.0)
                        co = [(0.1, 1.0)] * 3
                    case = {"perm": perm, "order": order, "mode": mode}
                    ok, g = ctx.call(case, nearby_rainfall_retrival, *A, L, **kw)
                    ctx.step(12)
                    ctx.trace(outcome=str(case))
                    if ok:
                        want = [[rain_model(*s, Ls[i], *co[i]) for s in r] for i, r in enumerate(rows)]
                        ctx.eq("rain rate", g.transpose("cml_id", "time").values, want, case, rtol=1e-6)
    if ctx.family("retrieval_chain"):
        SY = [(-50.0, -49.0, 0.0, 0.0), (-56.0, -55.0, 1.0, 0.0), (-56.0, -48.0, 1.0, 0.0), (-56.0, -55.0, 0.0, 0.0), (-58.0, -57.0, 1.0, -40.0), (-50.0, -49.0, nan, 0.0)]
        rows = [((-50.0, -49.0, 0.0, 0.0),) + r for r in itertools.product(SY, repeat=4) if ctx.mine()]
        pm, px, w, F = (np.array([[s[k] for s in r] for r in rows]) for k in range(4))
        for n in (2, 96):
            ok, pref = ctx.call({"n": n}, nearby_determine_reference_level, da(pm), da(px), da(w), n)
            if not ok:
                continue
            ok, (cm, cx) = ctx.call({"n": n}, nearby_correct_received_signals, da(pm), da(px), da(w), pref)
            ok, R = ctx.call({"n": n}, nearby_rainfall_retrival, pref.values.ravel(), cm.values.ravel(), cx.values.ravel(), F.ravel(), 4.0, a=0.1, b=1.0)
            if not ok:
                continue
            R = np.asarray(R).reshape(pm.shape)
            ctx.step(pm.size)
            ctx.trace(len(rows))
            for i in range(len(rows)):
                pr = ref_model(pm[i].tolist(), px[i].tolist(), w[i].tolist(), n=n)
                for t in range(5):
                    e = rain_model(pr[t], *corr_model(pm[i, t], px[i, t], w[i, t], pr[t]), F[i, t], 4.0, 0.1, 1.0)
                    if not (abs(R[i, t] - e) < 1e-6 or (e != e and R[i, t] != R[i, t])):
                        ctx.fail("chain: rain rate got %r, expected %r" % (R[i, t], e), dict(pmin=pm[i], pmax=px[i], wet=w[i], F=F[i], step=t))
                    if w[i, t] == 0 and F[i, t] > -32 and pr[t] == pr[t] and R[i, t] != 0:
                        ctx.fail("rain in a dry step", dict(pmin=pm[i], wet=w[i], step=t))
