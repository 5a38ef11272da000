"""C32: the complete nearby-link chain: classification -> reference level -> correction -> rain rate."""
import itertools

import numpy as np
import xarray as xr

from ..core import nan
from . import c09, c10
from .oracle_ab import ab

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "regions of 4-5 links: all words of length 5 (thorough 6) over 3 minimum levels (incl. missing) for one link x 3 neighbour histories x spread "
    "between minimum and maximum, through all four functions vs the composed models; every prefix; every region alone and together with "
    "others; all orders of the links of a region; subsets of the data set; all distributions of 8 links over two regions; neighbours inside, at and outside the radius; long histories with every event position"
)
ASSUMPTIONS = [
    "levels are multiples of 1/4 dB and lengths powers of two, so threshold comparisons are exact",
    "the class of the first and the last two steps is taken as returned (known finding nearby_wetdry_edges of C09)",
    "a wet step without minimum or maximum level is not judged",
]
F_GHZ = [15.0, 23.0, 38.5, 18.0, 26.25]
POL = ["H", "V", "v", "Horizontal", "V"]
LEN = [2.0, 1.0, 4.0, 2.0, 8.0]


def chain(ids, pm, px, L, f, pol, dist, kw, nd, order=("cml_id", "time"), mp=1, thr="default"):
    from pycomlink.processing.nearby_rain_retrival import (
        nearby_correct_received_signals,
        nearby_determine_reference_level,
        nearby_rainfall_retrival,
    )
    from pycomlink.processing.wet_dry.nearby_wetdry import nearby_wetdry

    a = c09.mkpmin(ids, pm, L, kw.get("interval", 15), order)
    b = c09.mkpmin(ids, px, L, kw.get("interval", 15), order)
    wet, F = nearby_wetdry(a, dist, **kw)
    pref = nearby_determine_reference_level(a, b, wet, n_average_dry=nd, min_periods=mp)
    cm, cx = nearby_correct_received_signals(a, b, wet, pref)
    cd = {"cml_id": list(ids)}
    k = {} if thr == "default" else {"F_value_threshold": thr}
    R = nearby_rainfall_retrival(pref, cm, cx, F, a.length, f_GHz=xr.DataArray(np.array(f), dims="cml_id", coords=cd), pol=xr.DataArray(np.array(pol), dims="cml_id", coords=cd), **k)
    T = ("cml_id", "time")
    return wet.transpose(*T).values, R.transpose(*T).sel(cml_id=list(ids)).values


def same(x, y):
    return np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True)


def model(pm, px, L, f, pol, within, kw, nd, gw, mp=1, thr=-32.5):
    """expected rain rates (None: not judged); gw: returned classes, used in the edge steps only"""
    kw = {k: v for k, v in kw.items() if k != "radius"}
    wet, F = c09.oracle(pm, L, within, **kw)
    T = len(pm[0])
    for t in {0, T - 2, T - 1}:
        e = (gw[:, t] == 1) & (wet[:, t] == 0)
        wet[e, t] = 1.0
    out = []
    for i in range(len(pm)):
        pref = c10.ref_model(pm[i], px[i], wet[i], nd, mp)
        a, b = ab(f[i], pol[i])
        row = []
        for t in range(T):
            c = c10.corr_model(pm[i][t], px[i][t], wet[i][t], pref[t])
            if c[0] is None:
                row.append(None if wet[i][t] == 1 else "dry")
            else:
                row.append(c10.rain_model(pref[t], c[0], c[1], F[i][t], L[i], a, b, thr=thr))
        out.append(row)
    return wet, out


def explore(ctx):
    big = ctx.thorough
    KW = dict(interval=60, timeperiod=3, min_hours=1, min_links=3)

    def judge(case, ids, pm, px, L, f, pol, within, gw, R, kw, nd, mp=1, thr="default"):
        wet, want = model(pm, px, L, f, pol, within, kw, nd, gw, mp, -32.5 if thr == "default" else thr)
        for i in range(len(pm)):
            for t in range(len(pm[0])):
                e, g = want[i][t], R[i, t]
                c = dict(case, link=i, step=t, pmin=pm[i], pmax=px[i], wet=wet[i])
                if g == g and (g < 0 or np.isinf(g)):
                    ctx.fail("rain rate %r" % g, c)
                elif e is None:
                    continue
                elif e == "dry":
                    if g == g and g != 0:
                        ctx.fail("rain rate %r in a step that is not wet" % g, c)
                elif not ((g != g and e != e) or abs(g - e) <= 1e-6 * abs(e) + 1e-9):
                    ctx.fail("rain rate %r, expected %r" % (g, e), c)
            ctx.state((tuple(map(str, pm[i])), str(want[i])))
            ctx.outcomes.add(hash(str(want[i])))

    def region(word, hist, spread):
        """levels of a region: the first link follows the word, the others their history"""
        pm = [list(word)] + [[h + 0.25 * k if h == h else nan for h in hist] for k in range(3)]
        px = [[v + spread[k % len(spread)] for v in p] for k, p in enumerate(pm)]
        return pm, px

    T = 6 if big else 5
    H = [
        [-50.0, -50.0, -58.0, -60.0, -50.0, -50.0],
        [-50.0, -52.0, -50.0, nan, -61.0, -50.0],
        [-50.0, -50.0, -50.0, -66.0, -55.0, -52.0],
    ]
    spreads = [(0.0, 2.0, 0.5, 1.0), (6.0, 0.0)]

    def batch(regs, name, kw, nd, order=("cml_id", "time"), mp=1, thr="default"):
        n = 4
        pm = [r for g in regs for r in g[0]]
        px = [r for g in regs for r in g[1]]
        L = [LEN[(i + i // 4) % 5] for i in range(len(pm))]
        f = [F_GHZ[i % 5] for i in range(len(pm))]
        pol = [POL[(i + 1) % 5] for i in range(len(pm))]
        ids = ["link%d" % (7919 * i % 10007) for i in range(len(pm))]
        D = c09.blocks([[0] * n for _ in regs])
        case = {"family": name, "regions": len(regs), "parameters": kw, "dry steps": nd}
        ok, r = ctx.call(case, chain, ids, pm, px, L, f, pol, c09.mkdist(ids, D), kw, nd, order, mp, thr)
        ctx.step(len(pm) * len(pm[0]))
        ctx.trace(len(regs))
        if not ok:
            return None
        within = [[i // n == j // n for j in range(len(pm))] for i in range(len(pm))]
        for q in range(len(regs)):
            s = slice(q * n, q * n + n)
            judge(dict(case, region=q), ids[s], pm[s], px[s], L[s], f[s], pol[s], [[True] * n] * n, r[0][s], r[1][s], kw, nd, mp, thr)
        return ids, pm, px, L, f, pol, r

    if ctx.family("words"):
        todo = [(w, h, s) for w in itertools.product((-50.0, -57.0, nan), repeat=T) for h in H for s in spreads[: 2 if big else 1] if ctx.mine()]
        for b in range(0, len(todo), 15):
            k = b // 15
            batch([region(w, h[:T], s) for w, h, s in todo[b : b + 15]], "words", KW, (2, 3, 96)[k % 3], (("cml_id", "time"), ("time", "cml_id"))[k % 2])
        ctx.sample({"words": todo[:3], "parameters": KW})
    if ctx.family("parameters"):
        grid = itertools.product((3, 2), (1, 3), (1, 2), (96, 3), (1, 2), ("default", None, -0.5, 0.0, 0.75))
        for tp, mh, iv, nd, mp, thr in grid:
            if not ctx.mine():
                continue
            kw = dict(KW, timeperiod=tp, min_hours=min(mh, tp), interval=(60, 30)[iv - 1])
            regs = [region(w, H[q % 3], spreads[q % 2]) for q, w in enumerate([(-50.0, -50.0, -57.0, -70.0, -50.0, -49.0), (-50.0, nan, -60.0, -60.0, nan, -50.0), (-48.0, -50.0, -50.25, -64.0, -58.0, -50.0), (-57.0, -57.0, -57.0, -50.0, -50.0, -57.0)])]
            batch(regs, "parameters", kw, nd, mp=mp, thr=thr)
    if ctx.family("later_samples"):
        # what is returned up to a step does not depend on samples more than two steps later
        for w, h in itertools.product(itertools.product((-50.0, -57.0, nan), repeat=4), H[:2] if not big else H):
            if not ctx.mine():
                continue
            pm, px = region(w + (-50.0, -60.0), h, spreads[0])
            ids = ["a", "b", "c", "d"]
            d = c09.mkdist(ids, c09.blocks([[0] * 4]))
            args = (LEN[:4], F_GHZ[:4], POL[:4], d, KW, 3)
            ok, full = ctx.call({"word": w}, chain, ids, pm, px, *args)
            if not ok:
                continue
            for m in (4, 5):
                ok, r = ctx.call({"word": w, "steps": m}, chain, ids, [p[:m] for p in pm], [p[:m] for p in px], *args)
                ctx.step(4 * m)
                if ok and not same(r[1][:, : m - 2], full[1][:, : m - 2]):
                    ctx.fail("rain rates depend on samples more than two steps later", {"pmin": pm, "pmax": px, "steps": m, "prefix": r[1], "complete": full[1]})
            ctx.trace(2, outcome=(w, str(h)))
            ctx.state(("prefix", w, str(h)))
    if ctx.family("order_and_other_regions"):
        regs = [region(w, H[q % 3], spreads[q % 2]) for q, w in enumerate([(-50.0, -50.0, -57.0, -70.0, -50.0, -49.0), (-50.0, nan, -60.0, -60.0, nan, -50.0), (-48.0, -50.0, -50.25, -64.0, -58.0, -50.0)])]
        pm = [r for g in regs for r in g[0]]
        px = [r for g in regs for r in g[1]]
        n = len(pm)
        L, f, pol = [LEN[i % 5] for i in range(n)], [F_GHZ[i % 5] for i in range(n)], [POL[i % 5] for i in range(n)]
        ids = ["k%d" % ((i * 5) % 13) for i in range(n)]
        D = c09.blocks([[0] * 4] * 3)

        def run(ix, dist_ix):
            d = c09.mkdist([ids[i] for i in dist_ix], D[:, dist_ix][:, :, dist_ix])
            g = lambda v: [v[i] for i in ix]
            return chain(g(ids), g(pm), g(px), g(L), g(f), g(pol), d, KW, 3)

        ok, base = ctx.call("all links", run, list(range(n)), list(range(n)))
        perms = [list(p) + list(range(4, n)) for p in itertools.permutations(range(4))] + [list(range(n))[::-1], [(i * 5) % n for i in range(n)], [(i * 7 + 3) % n for i in range(n)]]
        perms += [list(range(4)), list(range(4, 8)), list(range(8, 12)), list(range(8, 12)) + list(range(4)), list(range(4, 12))]
        for ix, full in itertools.product(perms, (0, 1, 2)):
            if not ctx.mine() or not ok:
                continue
            dist_ix = [sorted(ix), ix, list(range(n))][full]
            case = {"links": ix, "distance matrix": dist_ix}
            if full == 2 and len(ix) < n:
                continue  # a matrix with more links than levels is a separate matter
            okk, r = ctx.call(case, run, ix, dist_ix)
            ctx.step(len(ix) * 6)
            ctx.trace(outcome=str(case))
            if okk and not all(same(x, y[ix]) for x, y in zip(r, base)):
                ctx.fail("result depends on the order of the links or on other regions", case)
    if ctx.family("interleaved_regions"):
        # all ways to distribute 8 positions of a data set over two regions of four links
        wA, wB = (-50.0, -50.0, -57.0, -70.0, -50.0, -50.0), (-50.0, -50.0, -50.25, -50.0, -61.0, -50.0)
        A, B = region(wA, H[0], spreads[0]), region(wB, H[1], spreads[1])
        for S in itertools.combinations(range(8), 4):
            if not ctx.mine():
                continue
            rest = [i for i in range(8) if i not in S]
            pm, px = [None] * 8, [None] * 8
            for k in range(4):
                pm[S[k]], px[S[k]], pm[rest[k]], px[rest[k]] = A[0][k], A[1][k], B[0][k], B[1][k]
            within = [[(i in S) == (j in S) for j in range(8)] for i in range(8)]
            D = np.where(np.array(within), 3.0, 80.0)[None].repeat(4, 0) * (1 - np.eye(8))
            ids = ["r%d" % ((5 * i) % 8) for i in range(8)]
            L, f, pol = [LEN[i % 5] for i in range(8)], [F_GHZ[i % 5] for i in range(8)], [POL[i % 5] for i in range(8)]
            case = {"links of the first region": S}
            ok, g = ctx.call(case, chain, ids, pm, px, L, f, pol, c09.mkdist(ids, D), KW, 3)
            ctx.step(48)
            ctx.trace(outcome=str(case))
            if ok:
                judge(case, ids, pm, px, L, f, pol, within, g[0], g[1], KW, 3)
    if ctx.family("radius"):
        # two more links at the edge of the radius: each of the four end-point distances inside, at and outside it
        w = [(-50.0, -50.0, -57.0, -70.0, -50.0, -49.0), (-50.0, -50.0, -51.0, -52.0, -50.0, -50.0), (-50.0, -50.0, -56.0, -50.5, -56.0, -50.0)]
        pm, px = region(w[0], H[0], spreads[0])
        for rad, eps, k, both, ml in itertools.product((None, 6.0), (-1, 0, 1), range(5), (0, 1), (3, 4)):
            if not ctx.mine():
                continue
            r = 15.0 if rad is None else rad
            D = np.full((4, 6, 6), 1.5) * (1 - np.eye(6))
            for kk in range(4) if k == 4 else [k]:
                D[kk, 0, 4:] = D[kk, 1, 4:] = np.nextafter(r, r + eps) if eps else r
                if both:
                    D[kk, 4:, 0] = D[kk, 4:, 1] = D[kk, 0, 4]
            p2, x2 = pm + [list(w[1]), list(w[2])], px + [[v + 1 for v in w[1]], list(w[2])]
            within = [[bool(np.all(D[:, i, j] < r)) for j in range(6)] for i in range(6)]
            ids = ["q", "b", "m", "z", "a", "k"]
            L, f, pol = [LEN[i % 5] for i in range(6)], [F_GHZ[i % 5] for i in range(6)], [POL[i % 5] for i in range(6)]
            kw = dict(KW, min_links=ml, **({} if rad is None else {"radius": rad}))
            case = {"radius": rad, "distance": float(D[:, 0, 4].max()), "which": k, "both directions": both, "min_links": ml}
            ok, g = ctx.call(case, chain, ids, p2, x2, L, f, pol, c09.mkdist(ids, D), kw, 3)
            ctx.step(36)
            ctx.trace(outcome=str(case))
            if ok:
                judge(case, ids, p2, x2, L, f, pol, within, g[0], g[1], kw, 3)
    if ctx.family("event_positions"):
        # longer histories with the default quarter-hourly settings: an event of every length at every position
        T2 = 48
        kw = dict(timeperiod=6, min_hours=2)
        regs = []
        for s in range(8, 40, 3 if not big else 1):
            for ln in (1, 2, 7):
                if ctx.mine():
                    base = [-50.0 - 0.25 * ((t * 7) % 3) for t in range(T2)]
                    w = [v - (9.0 + (t % 4) if s <= t < s + ln else 0) for t, v in enumerate(base)]
                    h = [v - (6.0 if s <= t < s + max(1, ln - 1) else 0) for t, v in enumerate(base)]
                    if s % 2:
                        w[s - 3] = nan
                    regs.append(region(w, h, spreads[ln % 2]))
        for b in range(0, len(regs), 6):
            batch(regs[b : b + 6], "events", kw, (96, 24)[b % 2])
