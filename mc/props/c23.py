"""C23: rolling Fourier transform wet-dry classification."""
import itertools
import math

import numpy as np

from ..core import nan, words

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "all signal words over 3 levels of length 8 x window 3,4,5 x dividing frequency x dry period; thresholds around every score; mirrored "
    "ends; given spectra (also together with a mirrored end); all combinations of the dry-period arguments; lowest-variance period for all words of length 7 over 3 levels "
    "and missing; long series with one event at every position"
)
ASSUMPTIONS = ["scores are judged where the dry spectrum is not vanishing (ratio of powers above 1e-10)", "scores within 1e-6 of the threshold are not judged"]


def spectra(x, NFFT, win, mirror):
    n = len(x)
    cols = [None] * n
    m0 = (NFFT - 1) // 2
    for s in range(n - NFFT + 1):
        cols[s + m0] = x[s : s + NFFT]
    if mirror:
        for i in range(n - NFFT // 2, n):
            left = list(x[i - NFFT // 2 + 1 : i + 1])
            cols[i] = left + left[::-1]
    nf = NFFT // 2 + 1
    P = np.full((nf, n), nan)
    for t, c in enumerate(cols):
        if c is not None:
            P[:, t] = np.abs(np.fft.rfft(np.asarray(c, float) * win)) ** 2
    return P


def model(x, wl, fdiv, d0, d1, fs, mirror=False, win=None):
    NFFT = wl + (wl % 2) if mirror else wl
    w = np.hamming(NFFT) if win is None else win
    P = spectra(x, NFFT, w, mirror)
    f = np.arange(NFFT // 2 + 1) * fs / NFFT
    return score(P, f, fdiv, d0, d1)


def score(P, f, fdiv, d0, d1):
    D = np.array([np.mean([v for v in row[d0:d1] if v == v]) if any(v == v for v in row[d0:d1]) else nan for row in P])
    pm = np.nanmax(P) if np.isfinite(P).any() else nan
    if np.isfinite(D).all() and D.min() < 1e-10 * pm:
        return None
    if np.any(np.abs(f - fdiv) < 1e-12 * max(1e-3, fdiv)) and not any(v == fdiv for v in f):
        return None
    N = P / D[:, None]
    lo, hi = f <= fdiv, f > fdiv
    if not lo.any() or not hi.any():
        return np.full(P.shape[1], nan)
    return N[lo].mean(axis=0) - N[hi].mean(axis=0)


def explore(ctx):
    from pycomlink.processing.wet_dry.stft import find_lowest_std_dev_period, stft_classification

    big = ctx.thorough

    def one(x, wl, thr, fdiv, case, d=None, dry_length=None, fs=1.0, mirror=False, win=None):
        kw = dict(f_sampling=fs)
        if fs is None:
            kw = {}
        if d is not None:
            kw.update(t_dry_start=d[0], t_dry_stop=d[1])
        else:
            kw["dry_length"] = dry_length
        if mirror:
            kw["mirror"] = True
        if win is not None:
            kw["window"] = win
        x0 = np.array(x, float)
        xx = x0.copy()
        ok, r = ctx.call(case, stft_classification, xx, wl, thr, fdiv, **kw)
        ctx.step(len(x))
        if not ok:
            return
        wet, info = r
        if not np.array_equal(xx, x0, equal_nan=True):
            ctx.fail("input was modified", case)
        wet = np.asarray(wet)
        if wet.shape != (len(x),):
            ctx.fail("classification has shape %s" % (wet.shape,), case)
            return
        want = model(x, wl, fdiv, d[0], d[1], fs or 1 / 60, mirror, win)
        if want is None:
            return
        s = np.asarray(info["P_sum_diff"], float)
        if not ctx.eq("score", s, want, case, rtol=1e-6, atol=1e-7):
            return
        for t in range(len(x)):
            w = want[t]
            if w != w:
                if wet[t]:
                    ctx.fail("wet without data at step %d" % t, case)
            elif abs(w - thr) > 1e-6 and bool(wet[t]) != (w > thr):
                ctx.fail("step %d: wet=%r but score %r and threshold %r" % (t, wet[t], w, thr), case)
        ctx.trace(outcome=(wet.tobytes(), np.round(want, 6).tobytes()))

    if ctx.family("signal_words"):
        A = (-50.0, -51.0, -53.5)
        n = 8
        for w in words(A, n):
            for wl, fdiv, d in ((4, 0.25, (2, 5)), (4, 0.1, (0, 8)), (5, 0.25, (3, 6)), (3, 0.3, (0, 3))) + (((6, 0.17, (0, 8)), (4, 0.4, (5, 8))) if big else ()):
                if not ctx.mine():
                    continue
                for thr in (0.0, 1.5):
                    one(w, wl, thr, fdiv, {"rsl": w, "window": wl, "f_divide": fdiv, "dry": d, "threshold": thr}, d=d)
                ctx.state((w, wl))
        ctx.sample({"rsl": [-50, -51, -50, -53.5, -53.5, -50, -51, -50], "window": 4})
    if ctx.family("mirrored_end"):
        for w in words((-50.0, -51.0, -54.0), 7):
            if not ctx.mine():
                continue
            x = (-50.0, -51.5) + w
            for wl in (3, 4, 5):
                one(x, wl, 0.7, 0.2, {"rsl": x, "window": wl, "mirror": True}, d=(1, 6), mirror=True)
    if ctx.family("frequency_divide_and_window_function"):
        i = np.arange(40)
        x = -50 + np.sin(i) + 0.5 * (i * 7 % 5) - 6.0 * ((i > 22) & (i < 30))
        for wl, fs in itertools.product((6, 7, 8, 16), (1.0, None, 0.5)):
            F = fs or 1 / 60
            for k in range(0, 2 * wl + 3):
                fd = k * F / (2 * wl) * 0.5 + F * 1e-4
                for thr in (-1.0, 0.0, 2.0):
                    if ctx.mine():
                        one(x, wl, thr, fd, {"window": wl, "f_sampling": fs, "f_divide": fd, "threshold": thr}, d=(5, 20), fs=fs)
            for win in (np.ones(wl), np.hanning(wl + 2)[1:-1], np.bartlett(wl + 2)[1:-1]):
                if ctx.mine():
                    one(x, wl, 1.0, 0.2 * F, {"window": wl, "window function": win.tolist()}, d=(5, 20), fs=fs, win=win)
        for fd in (0.0, 0.125, 0.25, 0.375, 0.5):
            one(x, 8, 0.5, fd, {"window": 8, "f_divide": fd}, d=(5, 20))
    if ctx.family("events_at_every_position"):
        n = 120
        i = np.arange(n)
        for s, ln, wl in itertools.product(range(0, n, 3), (4, 25), (16, 31)):
            if not ctx.mine():
                continue
            x = -50 + 0.3 * ((i * 13) % 7) - 5.0 * ((i >= s) & (i < s + ln)) * (1 + (i - s) % 3)
            d = (0, 30) if s > 50 else (85, 120)
            one(x, wl, 1.0, 0.1, {"event": (s, ln), "window": wl}, d=d)
    if ctx.family("supplied_spectrum"):
        i = np.arange(50)
        x = -50 + np.sin(i * 1.3) + 0.5 * (i * 7 % 5) - 6.0 * ((i > 22) & (i < 30))
        for wl in (6, 9):
            P = spectra(x, wl, np.hamming(wl), False)
            m0 = (wl - 1) // 2
            core = P[:, m0 : m0 + 50 - wl + 1]
            f = np.arange(wl // 2 + 1) / wl
            for scale in (1.0, 17.0):
                for d in ((0, 20), (30, 50)):
                    case = {"window": wl, "supplied spectrum scale": scale}
                    ok, r = ctx.call(case, stft_classification, x, wl, 0.5, 0.2, t_dry_start=d[0], t_dry_stop=d[1], Pxx=core * scale, f=f)
                    ctx.step(50)
                    if ok:
                        ctx.eq("score", r[1]["P_sum_diff"], score(P, f, 0.2, *d), case, rtol=1e-6, atol=1e-7)
                        ctx.trace()
            ctx.rejects("spectrum without frequencies", stft_classification, x, wl, 0.5, 0.2, t_dry_start=0, t_dry_stop=20, Pxx=core)
            ctx.trace()
    if ctx.family("supplied_spectrum_mirrored_end"):
        # a supplied spectrogram (spectral density) gives the same result as the calculated one, also with a mirrored end
        n = 40
        i = np.arange(n)
        for wl, fs, start, own_window in itertools.product((3, 4, 7, 8, 12), (1.0, 0.5, None), (2, 12, 20, 33, 36), (False, True)):
            if not ctx.mine():
                continue
            NFFT, F = wl + wl % 2, fs or 1 / 60
            x = -50 + np.sin(i * 1.3) + 0.5 * (i * 7 % 5) - 6.0 * ((i >= start) & (i < start + 6))
            win = np.hanning(NFFT + 2)[1:-1] if own_window else None
            wv = np.hamming(NFFT) if win is None else win
            m0 = (NFFT - 1) // 2
            dens = np.full(NFFT // 2 + 1, 2.0) / (F * (wv**2).sum())
            dens[[0, -1]] /= 2
            core = spectra(x, NFFT, wv, False)[:, m0 : m0 + n - NFFT + 1] * dens[:, None]
            f = np.arange(NFFT // 2 + 1) * F / NFFT
            d = (22, 32) if start < 20 else (3, 15)
            want = model(x, wl, 0.2 * F, d[0], d[1], F, True, win)
            kw = {} if fs is None else {"f_sampling": fs}
            if own_window:
                kw["window"] = win
            case = {"window": wl, "f_sampling": fs, "event at": start, "own window function": own_window, "supplied spectrum": True, "mirror": True}
            ok, r = ctx.call(case, stft_classification, x, wl, 0.7, 0.2 * F, t_dry_start=d[0], t_dry_stop=d[1], mirror=True, Pxx=core, f=f, **kw)
            ctx.step(n)
            ctx.state(str(case))
            if ok and want is not None and ctx.eq("score", r[1]["P_sum_diff"], want, case, rtol=1e-6, atol=1e-7):
                for t in range(n):
                    if want[t] == want[t] and abs(want[t] - 0.7) > 1e-6 and bool(r[0][t]) != (want[t] > 0.7):
                        ctx.fail("step %d: wet=%r but score %r and threshold 0.7" % (t, r[0][t], want[t]), case)
                ctx.trace(outcome=(np.asarray(r[0]).tobytes(), np.round(want, 6).tobytes()))
    if ctx.family("dry_period_arguments"):
        i = np.arange(60)
        x = -50 + np.sin(i * 1.3) * (1 + (i % 20) / 10.0)
        for a, b, c in itertools.product((None, 5), (None, 20), (None, 12)):
            kw = {k: v for k, v in (("t_dry_start", a), ("t_dry_stop", b), ("dry_length", c)) if v is not None}
            case = {"given": kw}
            ctx.step()
            ctx.trace()
            if (a, b, c) in ((5, 20, None), (None, None, 12)):
                ok, r = ctx.call(case, stft_classification, x, 8, 0.5, 0.2, f_sampling=1.0, **kw)
                if ok:
                    d = (5, 20) if c is None else None
                    if d is None:
                        sd = [np.std(x[s : s + 12], ddof=1) for s in range(49)]
                        s = int(np.argmin(sd))
                        d = (s, s + 12)
                    ctx.eq("score", r[1]["P_sum_diff"], model(x, 8, 0.2, d[0], d[1], 1.0), case, rtol=1e-6, atol=1e-7)
            else:
                ctx.rejects(case, stft_classification, x, 8, 0.5, 0.2, f_sampling=1.0, **kw)
    if ctx.family("lowest_variance_period"):
        for n in (5, 7):
            for w in words((-50.0, -51.0, -56.0, nan), n):
                for wl in (2, 3, 4) if big else (3,):
                    if not ctx.mine():
                        continue
                    sd = [np.std(w[s : s + wl], ddof=1) for s in range(n - wl + 1)]
                    if not any(v == v for v in sd):
                        continue
                    case = {"rsl": w, "length": wl}
                    ok, r = ctx.call(case, find_lowest_std_dev_period, np.array(w), wl)
                    ctx.step(n)
                    if ok:
                        s, e = r
                        if e - s != wl or s < 0 or e > n or not (sd[int(s)] <= np.nanmin(sd) + 1e-5):
                            ctx.fail("period %r has spread %r, lowest is %r" % (r, sd[int(s)] if 0 <= s < len(sd) else None, np.nanmin(sd)), case)
                        ctx.trace(outcome=(int(s), int(e), n, wl))
                        ctx.state((w, wl))
        # very quiet periods: variations of 1e-6 still have to be ranked
        for w in words((0, 1, 3), 7):
            if ctx.mine():
                x = np.array(w) * 2.0**-20
                sd = [np.std(w[s : s + 3], ddof=1) for s in range(5)]
                ok, r = ctx.call({"rsl": x}, find_lowest_std_dev_period, x, 3)
                ctx.step(7)
                if ok and (r[1] - r[0] != 3 or not 0 <= r[0] <= 4 or sd[int(r[0])] > min(sd) + 1e-3):
                    ctx.fail("period %r has spread %r, lowest is %r (times 2**-20)" % (r, sd[int(r[0])] if 0 <= r[0] <= 4 else None, min(sd)), {"rsl": x})
                ctx.trace()
        for n, q in itertools.product((700, 900), (0, 37, 99)):
            i = np.arange(n)
            x = -50 + np.where((i >= q) & (i < q + 600), 0.01, 1.0) * ((i * 13) % 7)
            ok, r = ctx.call({"n": n, "quiet from": q}, find_lowest_std_dev_period, x)
            if ok and tuple(int(v) for v in r) != (q, q + 600):
                ctx.fail("default period %r, expected %r" % (r, (q, q + 600)), {"n": n, "quiet from": q})
            ctx.trace()
