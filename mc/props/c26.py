"""C26: rain from min/max sampled signal levels (bias-corrected attenuation and max power law)."""
import itertools
import math

import numpy as np

from ..core import nan, words
from .oracle_ab import ab

MODES = ["nojit"]
SHARDS = 6
BOUNDS = "all words over 4 signal levels incl. NaN up to length 5 (6 thorough) for windows 1..3 with every quantization bias of a menu; long series with window 7; attenuation words up to length 3 over 8 symbols for the max power law"
ASSUMPTIONS = ["at least one valid sample per signal", "array input"]


def A_model(txmin, txmax, rxmin, rxmax, gT, gR, window):
    g = (gT + gR) / 2

    def fill(x):
        ok = [v for v in x if v == v]
        m = sum(ok) / len(ok) if ok else nan
        m = float(np.rint(m))
        return [m if v != v else v for v in x]

    amax = fill([a - b - g for a, b in zip(txmax, rxmin)])
    amin = fill([a - b + g for a, b in zip(txmin, rxmax)])
    out = []
    for i in range(len(amax)):
        if i < window:
            out.append(nan)
        else:
            out.append(max(0.0, amax[i] - min(amin[i - window : i + 1])))
    return out


def R_model(A, L, a, b, R_min, k):
    am = a * (math.log(k) + 0.57721566) ** b
    out = []
    for x in A:
        if x != x:
            out.append(nan)
            continue
        r = 0.0 if x < 0 else (x / (am * L)) ** (1 / b)
        out.append(0.0 if r < R_min else r)
    return out


def explore(ctx):
    from pycomlink.processing.k_R_relation import calc_R_from_A_min_max as fR
    from pycomlink.processing.min_max import _calc_A_min_max as fA

    def one(tmin, tmax, rmin, rmax, gT, gR, w, kw):
        case = dict(tx_min=tmin, tx_max=tmax, rx_min=rmin, rx_max=rmax, gT=gT, gR=gR, window=w)
        args = [np.array(x, float) for x in (tmin, tmax, rmin, rmax)]
        keep = [x.copy() for x in args]
        ok, g = ctx.call(case, fA, *args, **kw)
        ctx.step(len(tmin))
        ctx.state((len(tmin), gT, gR, w, tuple(map(str, rmin[:6]))))
        if ok:
            want = A_model(tmin, tmax, rmin, rmax, gT, gR, w)
            ctx.eq("attenuation", g, want, case)
            for a, k in zip(args, keep):
                if not np.array_equal(a, k, equal_nan=True):
                    ctx.fail("input array was modified", case)
            ctx.trace(outcome=tuple("%.6g" % v for v in want))

    if ctx.family("attenuation_words"):
        LV = [-40.0, -43.0, -50.0, nan]
        for T in (2, 3, 4, 5) if not ctx.thorough else (2, 3, 4, 5, 6):
            for w in words(LV, T):
                if all(v != v for v in w) or not ctx.mine():
                    continue
                rmax = [v + d for v, d in zip(w, (1, 0, 2, 1, 3, 0))]
                tmin = [10.0] * T
                tmax = [10.0, 11.0, 10.0, 12.0, 10.0, 11.0][:T]
                for win in (1, 2, 3) if T > 3 else (1, 2):
                    one(tmin, tmax, list(w), rmax, 1.0, 0.6, win, dict(window=win))
                    ctx.state((w, win))
    if ctx.family("bias_and_independent_gaps"):
        base = [-40.0, -42.0, -47.5, -41.0, -60.0, -40.0]
        for gT, gR in itertools.product((0.0, 1.0, 0.5, 2.0), (0.0, 0.6, 0.3, 1.0)):
            for gap in range(64):
                if not ctx.mine():
                    continue
                rmin = [nan if gap >> i & 1 and i < 5 else v for i, v in enumerate(base)]
                rmax = [nan if (gap >> (5 - i)) & 1 and i > 0 else v + 1.5 for i, v in enumerate(base)]
                one([9.0] * 6, [9.5] * 6, rmin, rmax, gT, gR, 2, dict(gT=gT, gR=gR, window=2))
                ctx.state((gT, gR, gap))
    if ctx.family("long_windows"):
        for T, win, ph in itertools.product((40, 300), (13, 25, 96, 250), range(3)):
            if win + 5 > T or not ctx.mine():
                continue
            rx = [-45.0 - ((i * 7 + ph) % 23) * 0.3 - (12 if (i * 3 + ph) % 91 > 70 else 0) for i in range(T)]
            rmax = [v + 1 + ((i * 5) % 4) * 0.7 for i, v in enumerate(rx)]
            rx[T // 2] = nan
            rmax[T // 3] = nan
            one([10.0 - (i // 50) for i in range(T)], [10.0 + (i % 2) for i in range(T)], rx, rmax, 1.0, 0.6, win, dict(window=win))
    if ctx.family("defaults_long"):
        for T, ph in itertools.product((7, 8, 9, 20, 200), range(12)):
            if not ctx.mine():
                continue
            rx = [-45 - 8 * abs(math.sin(0.3 * i + ph)) for i in range(T)]
            rmax = [v + 1 + (i % 3) for i, v in enumerate(rx)]
            one([10.0] * T, [10.0 + (i % 2) for i in range(T)], rx, rmax, 1.0, 0.6, 7, {})
    AL = [nan, -2.0, 0.0, 1e-3, 0.5, 4.0, 30.0, 300.0]
    if ctx.family("rain_words"):
        P = [dict(a=0.1, b=1.0), dict(a=0.3, b=0.9), dict(f_GHz=23.0, pol="V"), dict(f_GHz=38.0), dict(f_GHz=10.5, pol="H"), dict(a=0.012345678, b=1.2345678), dict(f_GHz=22.71875, pol="V")]
        for n in (1, 2, 3):
            for p, L, Rm, k in itertools.product(P, (1.0, 7.5, 0.0731, 123.456), (None, 0, 2.0), (None, 1, 1.25, 2, 2.75, 10, 44.5, 90, 5000, 900000) if n < 3 else (None, 10)):
                a, b = (p["a"], p["b"]) if "a" in p else ab(p["f_GHz"], p.get("pol", "H"))
                for w in words(AL, n):
                    if not ctx.mine():
                        continue
                    kw = dict(p)
                    if Rm is not None:
                        kw["R_min"] = Rm
                    if k is not None:
                        kw["k"] = k
                    case = dict(A=w, L=L, **kw)
                    ok, g = ctx.call(case, fR, np.array(w), L, **kw)
                    ctx.step(n)
                    ctx.state((L, str(kw), n))
                    if ok:
                        want = R_model(w, L, a, b, 0.1 if Rm is None else Rm, 90 if k is None else k)
                        ctx.eq("rain rate", g, want, case, rtol=1e-9)
                        ctx.trace(outcome=tuple("%.6g" % v for v in want))
    if ctx.family("rain_chain"):
        for T, ph, win in itertools.product((12, 30), range(8), (2, 7)):
            if not ctx.mine():
                continue
            rx = [-45 - 9 * abs(math.sin(0.4 * i + ph)) for i in range(T)]
            rmax = [v + 1 for v in rx]
            tx = [10.0] * T
            ok, A = ctx.call({}, fA, np.array(tx), np.array(tx), np.array(rx), np.array(rmax), window=win)
            if not ok:
                continue
            ok, R = ctx.call({}, fR, A, 5.0, f_GHz=23.0, pol="V")
            a, b = ab(23.0, "V")
            want = R_model(A_model(tx, tx, rx, rmax, 1.0, 0.6, win), 5.0, a, b, 0.1, 90)
            if ok:
                ctx.eq("rain rate of chain", R, want, {"T": T, "phase": ph, "window": win}, rtol=1e-6)
                ctx.trace()
                ctx.step(T)
