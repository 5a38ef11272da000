"""C08: rain-rate dependent wet antenna attenuation (water film and power-law model)."""
import cmath
import itertools
import math

import numpy as np
import xarray as xr

from ..core import nan, words
from .oracle_ab import ab

MODES = ["nojit"]
SHARDS = 6
BOUNDS = "rain rates 0..200 mm/h on a fixed grid x frequencies 5..90 GHz x all model parameters of a menu; observed attenuation words up to length 3 over 8 symbols x link parameters; dense attenuation scans"
ASSUMPTIONS = ["look-up table relation between observed and wet antenna attenuation as documented (100 log-spaced nodes)"]


def eps_water(f_Hz, T):
    f = f_Hz * 1e-9
    th = 1 - 300.0 / T
    e0 = 77.66 - 103.3 * th
    e1 = 0.0671 * e0
    f1 = 20.2 + 146.4 * th + 316 * th * th
    e2 = 3.52 + 7.52 * th
    f2 = 39.8 * f1
    return e2 + (e1 - e2) / (1 - 1j * f / f2) + (e0 - e1) / (1 - 1j * f / f1)


def leijnse(R, f_Hz, T_K=293.0, gamma=2.06e-5, delta=0.24, n_antenna=complex(1.73, 0.014), l_antenna=0.001):
    if R != R:
        return nan
    if R == 0:
        return 0.0
    c = 299792458
    l = gamma * R**delta
    nw = cmath.sqrt(eps_water(f_Hz, T_K))
    na, nn = 1, n_antenna
    e = 1j * 2 * math.pi * f_Hz / c
    L = l_antenna
    x = (
        (na + nw) * (nw + nn) * (nn + na) * cmath.exp(-e * (nn * L + nw * l))
        + (na - nw) * (nw - nn) * (nn + na) * cmath.exp(-e * (nn * L - nw * l))
        + (na + nw) * (nw - nn) * (nn - na) * cmath.exp(e * (nn * L - nw * l))
        + (na - nw) * (nw + nn) * (nn - na) * cmath.exp(e * (nn * L + nw * l))
    )
    y = (na + nn) ** 2 * cmath.exp(-e * nn * L) - (na - nn) ** 2 * cmath.exp(e * nn * L)
    return 10 * math.log10(abs(x / (2 * nw * y)) ** 2)


def pastorek(R, A_max=14, zeta=0.55, d=0.1):
    if R != R:
        return nan
    return 0.0 if R == 0 else A_max * (1 - math.exp(-d * R**zeta))


def lut(waa_of_R, L, a, b):
    Ar = [10 ** (-10 + 13 * i / 99) for i in range(100)]
    Ar[0] = 0.0
    w = [waa_of_R((x / (a * L)) ** (1 / b)) for x in Ar]
    return [x + y for x, y in zip(Ar, w)], w


def interp(xs, ys, x):
    if x != x:
        return nan
    if x < xs[0] or x > xs[-1]:
        raise ValueError
    import bisect

    k = min(max(bisect.bisect_left(xs, x), 1), len(xs) - 1)
    return ys[k - 1] + (ys[k] - ys[k - 1]) * (x - xs[k - 1]) / (xs[k] - xs[k - 1])


def explore(ctx):
    from pycomlink.processing import wet_antenna as W

    RS = [0.0, 1e-4, 0.01, 0.1, 0.5, 1.0, 3.3, 10.0, 42.0, 100.0, 200.0, 0.0123456, 7.654321, 650.0]
    FS = [5e9, 10.5e9, 18e9, 23.5e9, 38e9, 60e9, 80e9, 90e9, 18.7037512e9, 71.0049e9]
    LEI = [{}, dict(T_K=275.0), dict(T_K=303.0), dict(gamma=1e-5), dict(gamma=4e-5, delta=0.5), dict(delta=0.1), dict(n_antenna=complex(1.5, 0.01)), dict(l_antenna=0.002), dict(l_antenna=0.00015), dict(l_antenna=0.006), dict(l_antenna=0.0005, n_antenna=complex(2.0, 0.0)), dict(T_K=285.0, gamma=3e-5, delta=0.3, n_antenna=complex(1.6, 0.02), l_antenna=0.0015)]
    PAS = [{}, dict(A_max=8), dict(A_max=2.5, zeta=0.3), dict(zeta=0.8), dict(d=0.05), dict(d=0.3, zeta=0.6, A_max=10)]
    if ctx.family("film_model_from_rain_rate"):
        for f, kw in itertools.product(FS, LEI):
            if not ctx.mine():
                continue
            case = dict(R=RS, f_Hz=f, **{k: str(v) for k, v in kw.items()})
            ok, g = ctx.call(case, W.waa_leijnse_2008, np.array(RS), f, **kw)
            ctx.step(len(RS))
            ctx.state((f, str(kw)))
            if ok:
                ctx.eq("wet antenna attenuation", g, [leijnse(r, f, **kw) for r in RS], case, rtol=1e-7)
                ctx.trace(outcome=(f, str(kw)))
            # scalar rain rates, permuted arrays, 2D arrays, lists
            for r in RS:
                ok, g = ctx.call(dict(R=r, f_Hz=f), W.waa_leijnse_2008, r, f, **kw)
                if ok:
                    ctx.eq("wet antenna attenuation (scalar)", np.reshape(np.asarray(g), ()), leijnse(r, f, **kw), dict(R=r, f_Hz=f, kw=str(kw)), rtol=1e-7)
                ctx.trace()
                ctx.step()
            perm = [3.0, 0.0, 50.0, 0.0, 0.7, nan]
            for x in (perm, np.array(perm), np.array(perm).reshape(2, 3)):
                ok, g = ctx.call(dict(R=perm, f_Hz=f), W.waa_leijnse_2008, x, f, **kw)
                if ok:
                    ctx.eq("wet antenna attenuation", g, np.reshape([leijnse(r, f, **kw) for r in perm], np.shape(x)), dict(R=perm, f_Hz=f, kw=str(kw)), rtol=1e-7)
                ctx.trace()
                ctx.step()
            ok, g = ctx.call(dict(R="int"), W.waa_leijnse_2008, np.array([0, 1, 20]), f, **kw)
            if ok:
                ctx.eq("wet antenna attenuation (int)", g, [leijnse(float(r), f, **kw) for r in (0, 1, 20)], dict(f_Hz=f, kw=str(kw)), rtol=1e-7)
        for r in (0.0, 0.5, 20.0):
            if ctx.mine():
                ok, g = ctx.call(dict(R=r, f_Hz=FS), W.waa_leijnse_2008, r, np.array(FS))
                if ok:
                    ctx.eq("frequency array", g, [leijnse(r, f) for f in FS], dict(R=r, f_Hz=FS), rtol=1e-7)
                ctx.trace()
    if ctx.family("power_law_from_rain_rate"):
        for kw in PAS:
            if not ctx.mine():
                continue
            case = dict(R=RS, **kw)
            ok, g = ctx.call(case, W.waa_pastorek_2021, np.array(RS), **kw)
            ctx.step(len(RS))
            ctx.state(str(kw))
            if ok:
                ctx.eq("wet antenna attenuation", g, [pastorek(r, **kw) for r in RS], case)
                ctx.trace(outcome=str(kw))
            for r in RS + [nan]:
                ok, g = ctx.call(dict(R=r), W.waa_pastorek_2021, r, **kw)
                if ok:
                    ctx.eq("wet antenna attenuation (scalar)", np.reshape(np.asarray(g), ()), pastorek(r, **kw), dict(R=r, **kw))
                ctx.trace()
            for x in ([2.0, 0.0, nan, 30.0], np.array([[2.0, 0.0], [nan, 30.0]]), np.array([0, 3, 5])):
                ok, g = ctx.call(dict(R=x), W.waa_pastorek_2021, x, **kw)
                if ok:
                    ctx.eq("wet antenna attenuation", g, np.reshape([pastorek(float(r), **kw) for r in np.ravel(x)], np.shape(x)), dict(R=x, **kw))
                ctx.trace()
    ALPHA = [0.0, 1e-6, 0.05, 0.7, 3.0, 12.0, 150.0, nan]
    links = list(itertools.product((7.5e9, 18e9, 38e9, 80e9), ("V", "H"), (0.3, 2.0, 15.0)))
    links += [(18.70375e9, "V", 1.23456), (23.456789e9, "H", 0.07312), (11.111111e9, "v", 47.12345), (71.00492e9, "h", 0.98765)]

    def funcs(f, pol, L):
        a, b = ab(f / 1e9, pol)
        for kw in LEI:
            yield "film", W.waa_leijnse_2008_from_A_obs, kw, lut(lambda R: leijnse(R, f, **kw), L, a, b)
        for kw in PAS:
            yield "power law", W.waa_pastorek_2021_from_A_obs, kw, lut(lambda R: pastorek(R, **kw), L, a, b)

    if ctx.family("from_observed_attenuation"):
        scan = np.concatenate([[0.0, nan], np.logspace(-8, 2.9, 120), np.linspace(0.01, 60, 200)])
        for f, pol, L in links:
            for name, fn, kw, (xs, ys) in funcs(f, pol, L):
                if not ctx.mine():
                    continue
                if any(q <= p for p, q in zip(xs, xs[1:])):
                    continue  # relation not invertible for this configuration
                case = dict(model=name, f_Hz=f, pol=pol, L_km=L, kw=str(kw))
                ctx.state((name, f, pol, L, str(kw)))
                ok, g = ctx.call(case, fn, scan, f, pol, L, **kw)
                ctx.step(len(scan))
                if ok:
                    want = [interp(xs, ys, x) for x in scan]
                    ctx.eq("wet antenna attenuation", g, want, case, rtol=1e-5, atol=1e-8)
                    g = np.asarray(g)
                    v = ~np.isnan(scan)
                    if np.any(g[v] < -1e-9) or np.any(g[v] > scan[v] + 1e-9):
                        ctx.fail("wet antenna attenuation not within 0..observed attenuation", case)
                    ctx.trace(outcome=(name, f, pol, L, str(kw)))
                for bad in ([-0.01], [1.0, -1e-9, 2.0], [nan, -5.0], [3.0, -2.0]):
                    ctx.rejects(dict(case, A_obs=bad), fn, np.array(bad), f, pol, L, **kw)
                    ctx.trace()
                    ctx.step()
        ctx.sample({"A_obs": scan[:5], "f_Hz": 18e9, "pol": "V", "L_km": 2.0})
    if ctx.family("words_and_containers"):
        for f, pol, L in links[::5]:
            for name, fn, kw, (xs, ys) in funcs(f, pol, L):
                if kw:
                    continue
                for n in (1, 2, 3):
                    for w in words(ALPHA, n):
                        if not ctx.mine():
                            continue
                        case = dict(model=name, A_obs=w, f_Hz=f, pol=pol, L_km=L)
                        ok, g = ctx.call(case, fn, A_obs=np.array(w), f_Hz=f, pol=pol, L_km=L)
                        ctx.step(n)
                        if ok:
                            ctx.eq("wet antenna attenuation", g, [interp(xs, ys, x) for x in w], case, rtol=1e-5, atol=1e-8)
                            ctx.trace(outcome=(name, w))
                for x in (np.array([[0.5, 3.0], [0.0, nan]]), np.array([0, 1, 7]), np.float64(2.5), 2.5, 0):
                    ok, g = ctx.call(dict(model=name, A_obs=x), fn, x, f, pol, L)
                    if ok:
                        ctx.eq("wet antenna attenuation", g, np.reshape([interp(xs, ys, float(v)) for v in np.ravel(x)], np.shape(x)), dict(model=name, A_obs=x), rtol=1e-5, atol=1e-8)
                    ctx.trace()
    if ctx.family("labelled_links"):
        fs, Ls, pols = [18e9, 38e9, 80e9], [1.0, 4.0, 0.5], ["V", "H", "v"]
        A = np.array([[0.0, 1.0, nan, 5.0], [2.0, 0.5, 9.0, 0.2], [nan, 3.0, 3.0, 0.0]])
        co = {"cml_id": ["x", "y", "z"]}
        da = xr.DataArray(A, dims=("cml_id", "time"), coords=dict(co, time=np.arange(4)))
        for pl, order in itertools.product(itertools.product((0, 1), repeat=3), (("cml_id", "time"), ("time", "cml_id"))):
            if not ctx.mine():
                continue
            f = xr.DataArray(fs, dims="cml_id", coords=co) if pl[0] else fs[0]
            L = xr.DataArray(Ls, dims="cml_id", coords=co) if pl[1] else Ls[0]
            p = xr.DataArray(pols, dims="cml_id", coords=co) if pl[2] else "H"
            for name, fn, m in (("film", W.waa_leijnse_2008_from_A_obs, leijnse), ("power law", W.waa_pastorek_2021_from_A_obs, lambda R, f: pastorek(R))):
                case = dict(model=name, per_link=pl, order=order)
                ok, g = ctx.call(case, fn, da.transpose(*order), f, p, L)
                ctx.step(12)
                ctx.state((name, pl, order))
                if not ok:
                    continue
                for i, c in enumerate("xyz"):
                    fi = fs[i] if pl[0] else fs[0]
                    pi_ = pols[i] if pl[2] else "H"
                    Li = Ls[i] if pl[1] else Ls[0]
                    a, b = ab(fi / 1e9, pi_)
                    xs, ys = lut(lambda R: m(R, fi), Li, a, b)
                    ctx.eq("wet antenna attenuation of link %s" % c, g.sel(cml_id=c).transpose("time").values, [interp(xs, ys, v) for v in A[i]], case, rtol=1e-5, atol=1e-8)
                ctx.trace(outcome=(name, pl, order))
    if ctx.family("water_permittivity"):
        for T in (273.5, 283.0, 293.0, 303.0, 310.0):
            for f in FS:
                if not ctx.mine():
                    continue
                ok, g = ctx.call(dict(f=f, T=T), W.eps_water, f, T)
                ctx.step()
                ctx.state((f, T))
                if ok:
                    w = eps_water(f, T)
                    ctx.eq("permittivity", [np.real(g), np.imag(g)], [w.real, w.imag], dict(f=f, T=T))
                    ctx.trace(outcome=(f, T))
