"""C31: the complete chain from signal level and wet/dry state to rain rate."""
import itertools

import numpy as np
import xarray as xr

from ..core import elem_close, expand, nan, run_words
from . import c01, c02, c07, c08
from .oracle_ab import ab

MODES = ["nojit", "jit"]
SHARDS = {"nojit": 7, "jit": 1}
BOUNDS = (
    "all words over {3 signal levels, missing} x {dry, wet, unknown} up to length 3 (length 4 over 9 symbols; thorough: all up to 5) through baseline (constant n=1,2; linear) -> wet "
    "antenna attenuation (none, dynamic, water film, power law) -> rain rate for 3 link configurations; every prefix of every word; link order"
)
ASSUMPTIONS = ["attenuation is clipped at zero before rain retrieval, as in the documentation's examples", "the dynamic wet antenna attenuation is compared with the uncorrected rain only for levels that never fall below the baseline"]

LEV = [60.0, 61.5, 70.0, nan]
WET = [0.0, 1.0, nan]
LINKS = [(2.0, 18.0, "H"), (7.5, 23.5, "V"), (0.5, 38.0, "V")]
DIMS = ("cml_id", "time")


def times(n):
    return np.datetime64("2021-01-01", "ns") + np.arange(n) * np.timedelta64(60, "s")


def arr(x):
    x = np.array(x, float)
    return xr.DataArray(x, dims=DIMS, coords={"cml_id": np.arange(x.shape[0]), "time": times(x.shape[1])})


def chain(t, w, base, waa, L, f, pol):
    """t, w: DataArrays (link, time)"""
    from pycomlink.processing import wet_antenna as W
    from pycomlink.processing.baseline import baseline_constant, baseline_linear
    from pycomlink.processing.k_R_relation import calc_R_from_A

    if base[0] == "constant":
        b = baseline_constant(t, w, n_average_last_dry=base[1])
        b = b.transpose(*t.dims)
    else:
        b = xr.full_like(t, nan)
        for i in range(t.sizes["cml_id"]):
            b[{"cml_id": i}] = baseline_linear(t.isel(cml_id=i).values, w.isel(cml_id=i).values, ignore_nan=base[1])
    A = t - b
    if waa == "schleiss":
        A = A - W.waa_schleiss_2013(t, b, w, waa_max=2.2, delta_t=1, tau=15).transpose(*t.dims)
    A = A.where(~(A < 0), 0.0)
    if waa == "leijnse":
        A = A - W.waa_leijnse_2008_from_A_obs(A, f_Hz=f * 1e9, pol=pol, L_km=L)
    elif waa == "pastorek":
        A = A - W.waa_pastorek_2021_from_A_obs(A, f_Hz=f * 1e9, pol=pol, A_max=4.0, L_km=L)
    A = A.where(~(A < 0), 0.0)
    return b, calc_R_from_A(A, L_km=L, f_GHz=f, pol=pol)


def model(trsl, wet, base, waa, L, f, pol, lut):
    """reference chain for one link; returns list of (list of accepted rain rates)"""
    a, b = ab(f, pol)
    if base[0] == "constant":
        bl = [[v] for v in c01.model(trsl, wet, base[1])]
    else:
        bl = c02.model(trsl, wet, base[1])
    if waa == "schleiss" and any(len(v) > 1 for v in bl):
        return None  # the accepted value of the baseline is not unique, the recursion is not judged
    wa = None
    if waa == "schleiss":
        wa = c07.model([t - v[0] for t, v in zip(trsl, bl)], wet, 2.2, 1, 15)
    out = []
    for i, t in enumerate(trsl):
        acc = []
        for v in bl[i]:
            A = t - v
            if A == A:
                if waa == "schleiss":
                    A = A - wa[i]
                A = max(A, 0.0)
                if waa in ("leijnse", "pastorek"):
                    A = A - c08.interp(lut[0], lut[1], A)
            if A != A:
                acc.append(nan)
            else:
                r = (max(A, 0.0) / (a * L)) ** (1 / b)
                acc.append(0.0 if r < 0.1 else r)
        out.append(acc)
    return out


def explore(ctx):
    S = list(itertools.product(LEV, WET))
    bases = [("constant", 1), ("constant", 2), ("linear", False), ("linear", True)]
    waas = ["none", "schleiss", "leijnse", "pastorek"]
    N = 5 if ctx.thorough else 4
    if ctx.jit:
        N = 2
    block = 300

    def lut(waa, L, f, pol):
        a, b = ab(f, pol)
        if waa == "leijnse":
            return c08.lut(lambda R: c08.leijnse(R, f * 1e9), L, a, b)
        if waa == "pastorek":
            return c08.lut(lambda R: c08.pastorek(R, A_max=4.0), L, a, b)

    big = ctx.thorough

    def blocks(n):
        if n >= 4 and not big:
            sym = [(l, w) for l, w in S if l != 61.5]
        else:
            sym = S
        it = itertools.product(sym, repeat=n)
        while True:
            b = list(itertools.islice(it, block))
            if not b:
                return
            yield b

    if ctx.family("words"):
        for n in range(1, N + 1):
            for words in blocks(n):
                tr = np.array([[s[0] for s in w] for w in words])
                we = np.array([[s[1] for s in w] for w in words])
                for base in bases if (n < 4 or big) else [("constant", 2), ("linear", False)]:
                    for waa, (L, f, pol) in itertools.product(waas if (n < 4 or big) else ["schleiss"], LINKS if n < 3 or big else LINKS[1:2]):
                        if base[0] == "constant" and base[1] > n:
                            continue
                        if not ctx.mine():
                            continue
                        case = {"baseline": base, "wet antenna": waa, "link": (L, f, pol), "length": n}
                        ok, r = ctx.call(case, chain, arr(tr), arr(we), base, waa, L, f, pol)
                        ctx.step(len(words) * n)
                        if not ok:
                            continue
                        b, R = r
                        R = R.transpose(*DIMS).values
                        b = b.transpose(*DIMS).values
                        if np.any(R < 0) or np.any(np.isinf(R)):
                            k = np.argwhere((R < 0) | np.isinf(R))[0][0]
                            ctx.fail("negative or infinite rain rate", dict(case, trsl=tr[k], wet=we[k], R=R[k]))
                        dry = (we == 0) & np.isfinite(tr) & np.isfinite(b)
                        if np.any(R[dry] != 0):
                            k = np.argwhere(dry & (R != 0))[0][0]
                            ctx.fail("rain in a dry time step", dict(case, trsl=tr[k], wet=we[k], R=R[k]))
                        if waa != "none":
                            ok, r0 = ctx.call(case, chain, arr(tr), arr(we), base, "none", L, f, pol)
                            if ok:
                                R0 = r0[1].transpose(*DIMS).values
                                inc = (R > R0 * (1 + 1e-9) + 1e-9) | (np.isnan(R0) & ~np.isnan(R))
                                if waa == "schleiss":  # the recursion carries negative attenuation along
                                    inc &= ~np.any(tr - b < 0, axis=1)[:, None]
                                if inc.any():
                                    k = np.argwhere(inc)[0][0]
                                    ctx.fail("wet antenna correction increases rain", dict(case, trsl=tr[k], wet=we[k], R=R[k], without=R0[k]))
                        miss = np.isnan(tr)
                        if not np.all(np.isnan(R[miss])):
                            k = np.argwhere(miss & ~np.isnan(R))[0][0]
                            ctx.fail("rain rate without a signal level", dict(case, trsl=tr[k], wet=we[k], R=R[k]))
                        tab = lut(waa, L, f, pol)
                        for k in range(len(words)):
                            want = model(tr[k], we[k], base, waa, L, f, pol, tab)
                            if want is None:
                                continue
                            g = R[k]
                            if not all(any((x != x and y != y) or abs(x - y) <= 1e-5 * (1 + abs(y)) or (waa != "none" and x == x and y == y and min(x, y) == 0 and max(x, y) < 0.1001) for y in acc) for x, acc in zip(g, want)):
                                ctx.fail("rain rate %s, expected %s" % (g.tolist(), want), dict(case, trsl=tr[k], wet=we[k]))
                                break
                        ctx.trace(len(words), outcome=(base, waa, L, R.tobytes()))
                        ctx.state((base, waa, L, n, words[0]))
                        ctx.outcomes.update(hash(R[k].tobytes()) for k in range(len(words)))
                        ctx.sample(dict(case, trsl=tr[0], wet=we[0], R=R[0]))
    if ctx.family("prefixes") and not ctx.jit:
        # what is known up to now does not depend on the future (constant baseline, dynamic wet antenna attenuation)
        n = 4 if big else 3
        for words in blocks(n):
            tr = np.array([[s[0] for s in w] for w in words])
            we = np.array([[s[1] for s in w] for w in words])
            for base, waa in itertools.product(bases[:2], waas):
                if not ctx.mine():
                    continue
                L, f, pol = LINKS[0]
                case = {"baseline": base, "wet antenna": waa, "prefixes": True}
                ok, r = ctx.call(case, chain, arr(tr), arr(we), base, waa, L, f, pol)
                if not ok:
                    continue
                R = r[1].transpose(*DIMS).values
                for m in range(base[1], n):
                    ok, r = ctx.call(case, chain, arr(tr[:, :m]), arr(we[:, :m]), base, waa, L, f, pol)
                    ctx.step(len(words) * m)
                    if ok:
                        g = r[1].transpose(*DIMS).values
                        bad = ~elem_close(g, R[:, :m]).all(axis=1)
                        if bad.any():
                            k = int(np.argwhere(bad)[0][0])
                            ctx.fail("rain rate up to step %d depends on later samples" % m, dict(case, trsl=tr[k], wet=we[k], prefix=g[k], complete=R[k]))
                ctx.trace(len(words), outcome=(base, waa, words[0]))
    if ctx.family("run_length_sequences") and not ctx.jit:
        # events from one sample to several days, several events
        for depth, lens in ((3, (1, 25, 3000)), (4, (1, 300))):
            for runs in run_words((0.0, 1.0), lens, depth):
                for base, waa, (L, f, pol) in itertools.product(bases[:3], waas, LINKS[:2]):
                    if not ctx.mine():
                        continue
                    we = expand(runs)
                    n = len(we)
                    tr = 60 + 0.3 * np.sin(np.arange(n) * 0.7) + we * 5 * (1.2 + np.sin(np.arange(n) * 0.05))
                    if base[0] == "constant" and base[1] > n:
                        continue
                    case = {"runs": runs, "baseline": base, "wet antenna": waa, "link": (L, f, pol)}
                    ok, r = ctx.call(case, chain, arr([tr]), arr([we]), base, waa, L, f, pol)
                    ctx.step(n)
                    if not ok:
                        continue
                    g = r[1].transpose(*DIMS).values[0]
                    want = model(tr.tolist(), we.tolist(), base, waa, L, f, pol, lut(waa, L, f, pol))
                    ctx.trace(outcome=(runs, base, waa, L))
                    if want is None:
                        continue
                    for t in range(n):
                        x = g[t]
                        if not any((x != x and y != y) or abs(x - y) <= 1e-5 * (1 + abs(y)) or (waa != "none" and x == x and y == y and min(x, y) == 0 and max(x, y) < 0.1001) for y in want[t]):
                            ctx.fail("rain rate at step %d: %r, expected %r" % (t, x, want[t]), case)
                            break
    if ctx.family("networks"):
        # links of one data set do not influence each other: any order and subset of links, per-link parameters as arrays
        T = 6
        tr = np.array([[60, 60.5, 66, 70, 61, 60], [50, nan, 55, 52, 51, 50], [40, 47, 47, 41, 40, 40.5]], float)
        we = np.array([[0, 0, 1, 1, 0, 0], [0, 1, 1, nan, 0, 0], [0, 1, 1, 1, 0, 1]], float)
        L = xr.DataArray([2.0, 7.5, 0.5], dims="cml_id")
        f = [18.0, 23.5, 38.0]
        from pycomlink.processing import wet_antenna as W
        from pycomlink.processing.baseline import baseline_constant
        from pycomlink.processing.k_R_relation import calc_R_from_A

        def full(sel, order, nbase, pol):
            t, w = arr(tr).isel(cml_id=sel).transpose(*order), arr(we).isel(cml_id=sel).transpose(*order)
            b = baseline_constant(t, w, n_average_last_dry=nbase)
            A = t - b - W.waa_schleiss_2013(t, b, w, 2.2, 1, 15)
            A = A.where(~(A < 0), 0.0)
            out = {}
            for i in sel:
                out[i] = calc_R_from_A(A.sel(cml_id=i), L_km=float(L[i]), f_GHz=f[i], pol=pol)
            return out

        for nb, pol in itertools.product((1, 2, 3), "HV"):
            ref = {i: full([i], DIMS, nb, pol)[i].values for i in range(3)}
            for r in (1, 2, 3):
                for sel in itertools.permutations(range(3), r):
                    for order in (DIMS, DIMS[::-1]):
                        if not ctx.mine():
                            continue
                        case = {"links": sel, "order": order, "n": nb, "pol": pol}
                        ok, o = ctx.call(case, full, list(sel), order, nb, pol)
                        ctx.step(r * T)
                        if ok:
                            for i in sel:
                                ctx.eq("rain rate of link %d" % i, o[i].values, ref[i], case)
                        ctx.trace(outcome=(sel, order, nb, pol))
                        ctx.state((sel, order, nb, pol))
