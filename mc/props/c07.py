"""C07: dynamic wet antenna attenuation (Schleiss et al. 2013)."""
import itertools

import numpy as np
import pandas as pd
import xarray as xr

from ..core import elem_close, expand, nan, run_words, words

MODES = ["nojit", "jit"]
SHARDS = {"nojit": 5, "jit": 3}
BOUNDS = "all words over 5 attenuation symbols (incl. negative and NaN) x {dry, wet, NaN} up to length 4 (5 thorough) x 4 parameter sets; all wet intervals in long series; containers, labelled arrays"
ASSUMPTIONS = ["an unknown wet state is handled like dry", "the first sample has zero wet antenna attenuation"]

PARAMS = [(2.3, 1, 15), (0.5, 5, 60), (3.0, 15, 15), (2.0, 60, 15 * 60)]


def model(A, wet, wmax, dt, tau, ctx=None):
    out = []
    for i, (a, w) in enumerate(zip(A, wet)):
        if i == 0:
            v = 0.0
        elif a != a:
            v = nan
        else:
            v = min(a, wmax)
            if w == 1 and out[-1] == out[-1]:
                v = min(v, out[-1] + (wmax - out[-1]) * 3 * dt / tau)
        out.append(v)
        if ctx is not None:
            ctx.state((wmax, tau, "%.6g" % v, w == 1))
            ctx.step()
    return out


def explore(ctx):
    from pycomlink.processing.wet_antenna import waa_schleiss_2013 as fn

    BASE = [60.0, 61.5, 59.0, 60.25, 62.0, 58.5]
    if ctx.family("words"):
        S = list(itertools.product([-1.0, 0.25, 1.25, 9.0, nan], [0.0, 1.0, nan]))
        for n in (1, 2, 3, 4) if not ctx.thorough else (1, 2, 3, 4, 5):
            for wmax, dt, tau in PARAMS if n < 4 else PARAMS[:2]:
                blk = []

                def flush():
                    if not blk:
                        return
                    base = np.broadcast_to(np.array(BASE[:n]), (len(blk), n)).copy()
                    # a missing attenuation comes either from the signal or the baseline
                    rsl = base + np.array([[a for a, _ in w] for w in blk])
                    for q in range(len(blk)):
                        if q % 2:
                            m = np.isnan(rsl[q])
                            rsl[q, m] = 60.0
                            base[q, m] = nan
                    wet = np.array([[b for _, b in w] for w in blk])
                    mk = lambda x: xr.DataArray(x, dims=("cml_id", "time"))
                    case = {"words": len(blk), "length": n, "params": (wmax, dt, tau)}
                    ok, g = ctx.call(case, fn, mk(rsl), mk(base), mk(wet), wmax, dt, tau)
                    want = np.array([model(r - b, w, wmax, dt, tau, ctx) for r, b, w in zip(rsl, base, wet)])
                    if ok:
                        g = g.transpose("cml_id", "time").values
                        for q in np.where(~elem_close(g, want).all(axis=1))[0][:2]:
                            ctx.eq("wet antenna attenuation", g[q], want[q], dict(rsl=rsl[q], baseline=base[q], wet=wet[q], waa_max=wmax, delta_t=dt, tau=tau))
                        ctx.trace(len(blk))
                        for w in want[::7]:
                            ctx.trace(0, tuple("%.6g" % v for v in w))
                        for q in range(0, len(blk), 53):
                            c1 = dict(rsl=rsl[q], baseline=base[q], wet=wet[q], waa_max=wmax, delta_t=dt, tau=tau)
                            ok, g1 = ctx.call(c1, fn, rsl=rsl[q], baseline=base[q], wet=wet[q], waa_max=wmax, delta_t=dt, tau=tau)
                            if ok:
                                ctx.eq("wet antenna attenuation (1D)", g1, want[q], c1)
                                ctx.trace()
                                ctx.sample(dict(c1, waa=g1))
                    blk.clear()

                for w in words(S, n):
                    if ctx.mine():
                        blk.append(w)
                        if len(blk) >= 3000:
                            flush()
                flush()
    if ctx.family("long_series_wet_intervals"):
        T = 40
        base = np.full(T, 60.0)
        A = np.array([4 * abs(np.sin(0.37 * i)) - 0.5 for i in range(T)])
        for (wmax, dt, tau), i, j in itertools.product(PARAMS, range(0, T, 2), range(1, T + 1, 3)):
            if j <= i or not ctx.mine():
                continue
            wet = np.zeros(T, bool)
            wet[i:j] = True
            case = dict(T=T, wet=[i, j], params=(wmax, dt, tau))
            ok, g = ctx.call(case, fn, base + A, base, wet, wmax, dt, tau)
            if ok:
                ctx.eq("wet antenna attenuation", g, model(A + 60.0 - 60.0, wet, wmax, dt, tau, ctx), case)
                ctx.trace(outcome=(wmax, i, j))
    if ctx.family("very_long_and_recovery"):
        T = 2500
        for (wmax, dt, tau), gap, big in itertools.product(PARAMS, (None, 100, 1700), (0.8, 20.0)):
            if not ctx.mine():
                continue
            A = np.array([big * (1 + np.sin(0.01 * i)) for i in range(T)])
            if gap:
                A[gap : gap + 5] = nan
            wet = (np.arange(T) % 400) > 30
            case = dict(T=T, gap=gap, params=(wmax, dt, tau), amplitude=big)
            ok, g = ctx.call(case, fn, A + 50.0, np.full(T, 50.0), wet, wmax, dt, tau)
            if ok:
                ctx.eq("wet antenna attenuation", g, model((A + 50.0) - 50.0, wet, wmax, dt, tau), case)
                ctx.step(T)
                ctx.trace(outcome=(wmax, gap, big))
    if ctx.family("run_length_sequences"):
        for depth, lens in ((2, (1, 40, 6000)), (3, (1, 30, 4000))):
            for runs in run_words((0.0, 1.0), lens, depth):
                for (wmax, dt, tau), amp in itertools.product(PARAMS + [(2.5, 1 / 60, 15), (4.0, 1, 1e5)], (0.3, 12.0)):
                    if not ctx.mine():
                        continue
                    wet = expand(runs)
                    n = len(wet)
                    A = amp * (1.1 + np.sin(np.arange(n) * 0.11))
                    base = 50 + np.cos(np.arange(n) * 0.01)
                    rsl = base + A
                    case = dict(runs=runs, params=(wmax, dt, tau), amplitude=amp)
                    ok, g = ctx.call(case, fn, rsl, base, wet, wmax, dt, tau)
                    if ok:
                        ctx.eq("wet antenna attenuation", g, model((rsl - base).tolist(), wet.tolist(), wmax, dt, tau), case)
                        ctx.step(n)
                        ctx.trace(outcome=(runs, wmax, tau, amp))
    if ctx.family("containers"):
        r = [60.0, 62.0, 61.0, 66.0, 70.0, 59.0]
        b = [60.0, 60.0, 60.0, 61.0, 61.0, 61.0]
        for w in itertools.product((0, 1), repeat=6):
            if not ctx.mine():
                continue
            A = [x - y for x, y in zip(r, b)]
            want = model(A, w, 2.3, 1, 15, ctx)
            idx = pd.date_range("2020", periods=6, freq="min")
            nc = np.full(12, 99.0)
            nc[::2] = r
            for name, a in {
                "lists": (list(r), list(b), list(w)),
                "int": (np.array(r, int), np.array(b, int), np.array(w, int)),
                "bool": (np.array(r), np.array(b), np.array(w, bool)),
                "float32": (np.array(r, np.float32), np.array(b, np.float32), np.array(w, np.float32)),
                "series": (pd.Series(r, idx), pd.Series(b, idx), pd.Series(w, idx)),
                "noncontiguous": (nc[::2], np.array(b), np.array(w, bool)),
            }.items():
                ok, g = ctx.call({"container": name, "wet": w}, fn, *a, 2.3, 1, 15)
                if ok:
                    ctx.eq("wet antenna attenuation", np.asarray(g), want, {"container": name, "wet": w})
                    ctx.trace(outcome=(name, w))
