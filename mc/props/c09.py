"""C09: nearby-link wet-dry classification and the distance matrix it uses (Overeem et al. 2016)."""
import itertools
import math
import statistics

import numpy as np
import xarray as xr

from ..core import nan, words

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "distance matrix: all endpoint assignments of up to 3 links over 5 sites; classification: all words over 3 signal levels "
    "(incl. missing) of length 6 for the classified link x 2 (thorough 6) neighbour histories; all subsets of present neighbours per time "
    "step; all 2^4 in/out-of-radius combinations of the four endpoint distances; all subsets/orders of the distance matrix "
    "for 3 links; all neighbourhood graphs on 4 (thorough 5) links; parameter grid of radius, thresholds, link count, interval, window and minimum hours; series shorter than the window"
)
ASSUMPTIONS = [
    "signal levels are multiples of 1/4 dB and lengths powers of two, so threshold comparisons are exact",
    "known finding nearby_wetdry_edges: first and last two time steps are reported wet",
]
KEY = "nearby_wetdry_edges"


def hav(lon1, lat1, lon2, lat2):
    p1, p2 = math.radians(lat1), math.radians(lat2)
    dl = math.radians(lon2 - lon1)
    # angle between two unit vectors, independent formula
    y = math.hypot(math.cos(p2) * math.sin(dl), math.cos(p1) * math.sin(p2) - math.sin(p1) * math.cos(p2) * math.cos(dl))
    x = math.sin(p1) * math.sin(p2) + math.cos(p1) * math.cos(p2) * math.cos(dl)
    return 6367 * math.atan2(y, x)


def med(v):
    v = [x for x in v if x == x]
    return statistics.median(v) if v else nan


def oracle(P, L, within, thrP=-1.4, thrPL=-0.7, min_links=3, interval=15, timeperiod=24, min_hours=6):
    n, T = len(P), len(P[0])
    W = int(timeperiod * 60 / interval)
    M = int(min_hours * 60 / interval)
    dP = []
    for p in P:
        row = []
        for t in range(T):
            v = [x for x in p[max(0, t - W + 1) : t + 1] if x == x]
            row.append(p[t] - max(v) if len(v) >= M and len(v) > 0 else nan)
        dP.append(row)
    wet = [[nan] * T for _ in range(n)]
    F = [[nan] * T for _ in range(n)]
    for i in range(n):
        nb = [j for j in range(n) if within[i][j]]
        if len(nb) <= min_links:
            continue
        mP, mPL = [], []
        for t in range(T):
            ok = sum(1 for j in nb if dP[j][t] == dP[j][t]) > min_links
            mP.append(med([dP[j][t] for j in nb]) if ok else nan)
            mPL.append(med([dP[j][t] / L[j] for j in nb]) if ok else nan)
        w0 = [nan if (mP[t] != mP[t] or mPL[t] != mPL[t]) else float(mP[t] < thrP and mPL[t] < thrPL) for t in range(T)]
        w = list(w0)
        for t in range(T):
            if w0[t] == 1 and dP[i][t] < -2:
                for s in (t + 1, t - 1, t - 2):
                    if 0 <= s < T and w[s] == w[s]:
                        w[s] = 1.0
        wet[i] = w
        f = [dP[i][t] / L[i] - mPL[t] for t in range(T)]
        for t in range(W - 1, T):
            F[i][t] = sum(f[t - W + 1 : t + 1]) * interval / 60
    return np.array(wet), np.array(F)


def mkdist(ids, D):
    """D[k][i][j], k = aa, ab, ba, bb"""
    return xr.Dataset(
        {v: (("cml_id1", "cml_id2"), np.array(D[k], float)) for k, v in enumerate(("a_to_all_a", "a_to_all_b", "b_to_all_a", "b_to_all_b"))},
        coords=dict(cml_id1=list(ids), cml_id2=list(ids)),
    )


def mkpmin(ids, P, L, interval, order=("cml_id", "time")):
    T = len(P[0])
    t = np.datetime64("2021-03-01T00:00", "ns") + np.arange(T) * np.timedelta64(interval, "m")
    da = xr.DataArray(np.array(P, float), dims=("cml_id", "time"), coords=dict(cml_id=list(ids), time=t, length=("cml_id", np.array(L, float))), name="pmin")
    return da.transpose(*order)


def judge(ctx, case, ids, P, L, D, radius, kw, order=("cml_id", "time"), ds_dist=None, label=None, within=None):
    from pycomlink.processing.wet_dry.nearby_wetdry import nearby_wetdry

    n, T = len(P), len(P[0])
    pm = mkpmin(ids, P, L, kw.get("interval", 15), order)
    dd = mkdist(ids, D) if ds_dist is None else ds_dist
    pm0, dd0 = pm.copy(deep=True), dd.copy(deep=True)
    okw = dict(kw)
    for a, b in (("thresh_median_P", "thrP"), ("thresh_median_PL", "thrPL")):
        if a in okw:
            okw[b] = okw.pop(a)
    ckw = dict(kw)
    if radius is not None:
        ckw["radius"] = radius
    r = 15 if radius is None else radius
    if within is None:
        within = [[all(D[k][i][j] < r for k in range(4)) for j in range(n)] for i in range(n)]
    wetw, Fw = oracle(P, L, within, **okw)
    ok, res = ctx.call(case, nearby_wetdry, pm, dd, **ckw)
    ctx.step(n * T)
    ctx.trace(n if label is None else 1)
    if not ok:
        return
    wet, F = res
    for what, g in (("wet", wet), ("F", F)):
        if set(g.dims) != {"cml_id", "time"} or list(g.cml_id.values) != list(ids) or not np.array_equal(g.time.values, pm.time.values):
            ctx.fail("%s: dimensions or labels changed: %s" % (what, g.dims), case)
            return
    gw = wet.transpose("cml_id", "time").values.astype(float)
    gF = F.transpose("cml_id", "time").values.astype(float)
    ctx.eq("F", gF, Fw, case)
    diff = ~((gw == wetw) | (np.isnan(gw) & np.isnan(wetw)))
    for i, t in np.argwhere(diff):
        c = {"case": case, "link": int(i), "time step": int(t), "signals": [P[j] for j in range(n) if within[i][j]][:8], "got": gw[i], "want": wetw[i]}
        if t in (0, T - 2, T - 1) and gw[i][t] == 1 and wetw[i][t] == 0:
            ctx.fail("edge time step wet", c, known_key=KEY)
        else:
            ctx.fail("wet: got %r, expected %r at link %d step %d" % (gw[i][t], wetw[i][t], i, t), c)
    if not pm.identical(pm0):
        ctx.fail("input signal levels were modified", case)
    if not dd.identical(dd0):
        ctx.fail("input distances were modified", case)
    for i in range(n):
        ctx.state((tuple(map(str, P[i])), tuple(map(str, wetw[i]))))
        ctx.outcomes.add(hash((ctx.fam, str(wetw[i]), str(Fw[i]))))


def blocks(clusters, far=500.0, near=3.0):
    """place clusters of links so far apart that only members of a cluster see each other"""
    n = sum(len(c) for c in clusters)
    D = np.full((4, n, n), far)
    k = 0
    for c in clusters:
        m = len(c)
        D[:, k : k + m, k : k + m] = near
        k += m
    for i in range(n):
        D[:, i, i] = 0
    return D


def run_clusters(ctx, clusters, radius, kw, name, batch=60, order=("cml_id", "time")):
    """clusters: list of lists of (signal word, length)"""
    for b in range(0, len(clusters), batch):
        cs = clusters[b : b + batch]
        P = [list(w) for c in cs for w, _ in c]
        L = [l for c in cs for _, l in c]
        ids = ["cml_%04d" % (7919 * i % 10000) for i in range(len(P))]
        judge(ctx, {"family": name, "params": kw, "radius": radius}, ids, P, L, blocks(cs), radius, kw, order=order)


def explore(ctx):
    from pycomlink.processing.wet_dry.nearby_wetdry import calc_distance_between_cml_endpoints, nearby_wetdry

    big = ctx.thorough
    if ctx.family("distance_matrix"):
        sites = [(47.0, 10.0), (47.0, 10.1), (47.05, 10.02), (-33.0, 151.0), (46.999, -179.95)]
        pairs = list(itertools.product(range(5), repeat=2))
        combos = [(p,) for p in pairs] + list(itertools.product(pairs[::2], repeat=2))
        combos += [c for i, c in enumerate(itertools.product(pairs[1::3], repeat=3)) if big or i % 4 == 0]
        for c in combos:
            if not ctx.mine():
                continue
            n = len(c)
            la, lo = [sites[p[0]][0] for p in c], [sites[p[0]][1] for p in c]
            lb, lp = [sites[p[1]][0] for p in c], [sites[p[1]][1] for p in c]
            for ids, mk in ((["x%d" % (9 - i) for i in range(n)], list), ([10 - i for i in range(n)], np.array)):
                case = {"ids": ids, "a": list(zip(la, lo)), "b": list(zip(lb, lp))}
                ok, ds = ctx.call(case, calc_distance_between_cml_endpoints, ids, mk(la), mk(lo), mk(lb), mk(lp))
                ctx.state((c, ids[0]))
                ctx.step(n * n)
                ctx.trace(outcome=(c, str(ids)))
                if not ok:
                    continue
                for v, (A, B) in dict(a_to_all_a=((lo, la), (lo, la)), a_to_all_b=((lo, la), (lp, lb)), b_to_all_a=((lp, lb), (lo, la)), b_to_all_b=((lp, lb), (lp, lb))).items():
                    want = [[0.0 if i == j else hav(A[0][i], A[1][i], B[0][j], B[1][j]) for j in range(n)] for i in range(n)]
                    got = ds[v].transpose("cml_id1", "cml_id2").sel(cml_id1=ids, cml_id2=ids).values
                    ctx.eq(v, got, want, case, rtol=1e-6, atol=1e-4)
        ctx.sample({"links": "endpoints drawn from 5 sites", "example": [[0, 1], [2, 3]]})
    if ctx.family("signal_words"):
        A = (-50.0, -54.0, nan)
        T = 6
        nbs = [(-50, -54, -54, -50, -50, -54), (-54, -50, -54, -51, -54, -54), (-50, -50, -55, -55, -55, -50), (nan, -50, -54, nan, -54, -50), (-50, -51, -50, -51, -50, -51), (-50, -54, nan, -54, -50, -54)]
        cl = []
        for w in words(A, T):
            for k, nb in enumerate(nbs):
                if (big or k in (0, 3)) and ctx.mine():
                    cl.append([(w, 2.0), (nb, 4.0 if k % 2 else 1.0)])
        run_clusters(ctx, cl, 10.0, dict(min_links=1, interval=60, timeperiod=3, min_hours=1), "signal_words")
        ctx.sample({"link": [-50, -54, nan, -54, -50, -50], "neighbour": nbs[0]})
    if ctx.family("deep_words_two_links"):
        A = (-50.0, -52.0, -54.5, nan) if big else (-50.0, -54.5, nan)
        T = 3
        cl = []
        for w in words(A, 2 * T):
            if ctx.mine():
                pad = (-50.0, -50.0)
                cl.append([(pad + w[:T] + pad, 1.0), (pad + w[T:] + pad, 2.0)])
        run_clusters(ctx, cl, 15, dict(min_links=1, interval=30, timeperiod=2, min_hours=1), "deep_words_two_links")
    if ctx.family("missing_neighbours"):
        # which of 4 neighbours report at the two middle steps
        cl = []
        for mask in words((0, 1), 8):
            for min_links in ((2, 3) if not big else (1, 2, 3, 4)):
                if ctx.mine():
                    c = [((-50.0, -50.0, -53.0, -53.0, -50.0, -50.0, -50.0), 4.0)]
                    for j in range(4):
                        v = [-50.0, -50.0, -52.0 - j if mask[j] else nan, -53.0 if mask[4 + j] else nan, -50.0, -50.0, -50.0]
                        c.append((tuple(v), 1.0 + (j == 2)))
                    cl.append((min_links, c))
        for ml in sorted({m for m, _ in cl}):
            run_clusters(ctx, [c for m, c in cl if m == ml], None, dict(min_links=ml, interval=60, timeperiod=4, min_hours=2), "missing_neighbours", batch=30)
    if ctx.family("radius_combinations"):
        w = [(-50.0, -50.0, -50.0, -54.0, -50.0, -50.0, -50.0, -50.0), (-50.0, -50.0, -50.0, -55.0, -50.0, -50.0, -50.0, -50.0), (-50.0, -50.0, -50.0, -53.0, -50.0, -50.0, -50.0, -50.0)]
        for rad in (None, 15.0, 2.5):
            r = 15 if rad is None else rad
            for eps in (r, np.nextafter(r, 0), np.nextafter(r, 99)):
                for c1 in words((0, 1), 4):
                    for c2 in ((0, 0, 0, 0), (1, 1, 1, 1), (0, 1, 0, 0)):
                        if not ctx.mine():
                            continue
                        D = np.zeros((4, 3, 3))
                        for k in range(4):
                            D[k, 0, 1] = eps if c1[k] else 0.5
                            D[k, 0, 2] = eps if c2[k] else 0.5
                            D[k, 1, 0] = 0.5 if c1[k] else eps  # direction matters
                            D[k, 2, 0] = D[k, 1, 2] = D[k, 2, 1] = 0.5
                        judge(ctx, {"radius": rad, "distance": eps, "link1": c1, "link2": c2}, ["a", "b", "c"], w, [1.0, 1.0, 2.0], D, rad, dict(min_links=1, interval=60, timeperiod=3, min_hours=1), label=1)
    if ctx.family("distance_order_and_subset"):
        w = [(-50.0, -50.0, -50.0, -54.0, -50.0, -50.0, -50.0), (-50.0, -50.0, -54.0, -55.0, -50.0, -50.0, -50.0), (-50.0, -50.0, -50.0, -51.0, -53.0, -50.0, -50.0)]
        ids = ["q", "b", "m"]
        D = np.full((4, 3, 3), 3.0)
        D[1, 0, 2] = 99.0  # q does not see m, m sees q
        within = [[bool(np.all(D[:, i, j] < 15)) for j in range(3)] for i in range(3)]
        full = mkdist(ids, D)
        extra = ["z1", "a0"]
        ids5 = ids + extra
        D5 = np.full((4, 5, 5), 2.0)
        D5[:, :3, :3] = D
        full5 = mkdist(ids5, D5)
        for perm in itertools.permutations(range(3)):
            for perm2 in itertools.permutations(range(3)):
                for order in (("cml_id", "time"), ("time", "cml_id")):
                    for src, names in ((full, ids), (full5, ids5)):
                        if not ctx.mine():
                            continue
                        pid = [ids[i] for i in perm]
                        did = [ids[i] for i in perm2] + (extra if src is full5 else [])
                        if src is full5 and perm2[0] == 1:
                            did = extra[:1] + did[:-2] + extra[1:]
                        dd = src.sel(cml_id1=did, cml_id2=did[::-1] if perm2[1] == 0 else did)
                        wi = [[within[i][j] for j in perm] for i in perm]
                        judge(ctx, {"signal order": pid, "distance order": did, "dims": order}, pid, [w[i] for i in perm], [(1.0, 2.0, 4.0)[i] for i in perm], None, None, dict(min_links=1, interval=60, timeperiod=2, min_hours=1), order=order, ds_dist=dd, label=1, within=wi)
    if ctx.family("thresholds"):
        vals = (-50.0, -50.5, -51.0, -51.25, -51.5, -52.0, -52.25, -53.0, -85.0, -130.0)
        for tP, tPL in itertools.product((None, -1.0, -1.25, -2.0, -3.0), (None, -0.5, -0.25, -1.0)):
            kw = dict(min_links=1, interval=60, timeperiod=3, min_hours=1)
            if tP is not None:
                kw["thresh_median_P"] = tP
            if tPL is not None:
                kw["thresh_median_PL"] = tPL
            cl = []
            for v1, v2, L in itertools.product(vals, vals[::3], (1.0, 2.0, 4.0) if big else (2.0,)):
                if ctx.mine():
                    cl.append([((-50.0, -50.0, -50.0, v1, -50.0, -50.0, -50.0), L), ((-50.0, -50.0, -50.0, v2, -50.0, -50.0, -50.0), 2.0)])
            run_clusters(ctx, cl, None, kw, "thresholds")
    if ctx.family("short_and_long_links"):
        # lengths from some metres to half the neighbourhood radius (powers of two: exact quotients)
        for L1, L2, d1, d2 in itertools.product((1 / 64, 1 / 16, 1 / 4, 1.0, 8.0, 32.0), (1 / 64, 1 / 4, 2.0, 32.0), (0.25, 1.5, 3.0, 30.0), (0.25, 2.0, 24.0)):
            if ctx.mine():
                w = [(-50.0, -50.0, -50.0, -50.0 - d1, -50.0, -50.0, -50.0), (-50.0, -50.0, -50.25, -50.0 - d2, -50.0, -50.0, -50.0)]
                judge(ctx, {"lengths": (L1, L2), "drops": (d1, d2)}, ["a", "b"], w, [L1, L2], np.full((4, 2, 2), 3.0), None, dict(min_links=1, interval=60, timeperiod=3, min_hours=1), label=1)
    if ctx.family("windows"):
        # 25 and 40 minutes do not divide the periods: only whole intervals count
        for interval, tp, mh, ml in itertools.product((15, 25, 30, 40, 60, 90), (1, 2, 6), (0.5, 1, 1.6, 2), (1, 2)):
            if not ctx.mine() or mh > tp or int(mh * 60 / interval) < 1:
                continue
            T = int(tp * 60 / interval) + 9
            cl = []
            for shift in range(0, T, 2 if T > 20 else 1):
                for gap in (0, 3):
                    w = [-50.0 - (0.25 * (t % 3)) for t in range(T)]
                    w2 = [-51.0 - (0.25 * (t % 5)) for t in range(T)]
                    for d in range(3):
                        if shift + d < T:
                            w[shift + d] -= 4
                            w2[shift + d] -= 3
                    for d in range(gap):
                        if shift + 3 + d < T:
                            w[shift + 3 + d] = nan
                    cl.append([(tuple(w), 2.0), (tuple(w2), 1.0), (tuple(w[::-1]), 4.0)])
            run_clusters(ctx, cl, None, dict(min_links=ml, interval=interval, timeperiod=tp, min_hours=mh), "windows", batch=12)
    if ctx.family("neighbourhood_graphs"):
        # who is near whom: all graphs on 4 links (thorough: 5), each link with its own history
        n = 5 if big else 4
        edges = list(itertools.combinations(range(n), 2))
        hist = [(-50.0, -50.0, -53.0, -53.0, -50.0, -50.0, -50.0), (-50.0, -50.0, -50.0, -56.0, -51.0, -50.0, -50.0), (-50.0, -50.0, -51.0, -51.0, -51.0, -54.0, -50.0), (-50.0, -50.0, -58.0, -50.0, -57.0, -50.0, -50.0), (-50.0, -50.0, -52.0, -54.0, nan, -52.0, -50.0)]
        graphs = [m for m in itertools.product((0, 1), repeat=len(edges)) if ctx.mine()]
        for b in range(0, len(graphs), 8):
            gs = graphs[b : b + 8]
            D = blocks([range(n)] * len(gs), near=99.0)
            for q, m in enumerate(gs):
                for (i, j), e in zip(edges, m):
                    if e:
                        D[:, q * n + i, q * n + j] = D[:, q * n + j, q * n + i] = 4.0
            P = [list(hist[k % n]) for k in range(n * len(gs))]
            ids = ["cml_%04d" % (7919 * i % 10000) for i in range(len(P))]
            for ml in (0, 1, 2):
                judge(ctx, {"graphs": gs, "min_links": ml}, ids, P, [(1.0, 2.0, 4.0)[i % 3] for i in range(len(P))], D, None, dict(min_links=ml, interval=60, timeperiod=3, min_hours=1))
    if ctx.family("shorter_than_the_window"):
        # series shorter than the window, or than the minimum number of hours
        for T, tp, mh in itertools.product(range(1, 8), (4, 8, 24), (1, 4, 6)):
            if ctx.mine() and mh <= tp:
                w = [(-50.0, -50.0, -54.0, -54.0, -50.0, -53.0, -50.0)[:T], (-50.0, -51.0, -53.0, -50.0, -55.0, -53.0, -50.0)[:T]]
                judge(ctx, {"steps": T, "period": tp, "min_hours": mh}, ["a", "b"], w, [1.0, 2.0], np.full((4, 2, 2), 3.0), None, dict(min_links=1, interval=60, timeperiod=tp, min_hours=mh), label=1)
    if ctx.family("defaults"):
        # one day and more of 15 minute data with default parameters
        T = 140
        for start in range(0, T, 9):
            if not ctx.mine():
                continue
            P = []
            for j in range(5):
                w = [-50.0 - 0.25 * ((t * (j + 2)) % 5) for t in range(T)]
                for d in range(6):
                    if start + d < T and j < 4:
                        w[start + d] -= 2.0 + 0.5 * j + (d % 2)
                for d in range(30):
                    if start + 20 + d < T and j == 1:
                        w[start + 20 + d] = nan
                P.append(w)
            judge(ctx, {"event at": start}, ["l%d" % j for j in range(5)], P, [1.0, 2.0, 1.0, 4.0, 8.0], np.full((4, 5, 5), 5.0) * (1 - np.eye(5)), None, {}, label=1)
    if ctx.family("many_nearby_links"):
        for n, ml, k in itertools.product((26, 61), (3, 24, 40), range(4)):
            if not ctx.mine():
                continue
            T = 12
            P = [[-50.0 - (2.0 + 0.25 * ((i * (3 + k)) % 9) if 4 <= t < 7 and i % (k + 2) else 0.25 * ((t + i) % 2)) for t in range(T)] for i in range(n)]
            for i in range(0, n, 5):
                P[i][5] = nan
            D = np.full((4, n, n), 3.0) * (1 - np.eye(n))
            judge(ctx, {"links": n, "min_links": ml, "pattern": k}, ["w%03d" % (i * 29 % n) for i in range(n)], P, [(1.0, 2.0, 0.5, 4.0)[i % 4] for i in range(n)], D, None, dict(min_links=ml, interval=60, timeperiod=4, min_hours=2), label=1)
    if ctx.family("very_many_nearby_links"):
        for k, n in enumerate((129, 131, 200, 256, 258, 300)):
            if not ctx.mine():
                continue
            T = 6
            P = [[-50.0 - (2.0 + 0.25 * ((i * 3) % 9) if 2 <= t < 4 and i % 5 else 0.25 * ((t + i) % 2)) for t in range(T)] for i in range(n)]
            for i in range(0, n, 7):
                P[i][3] = nan
            D = np.full((4, n, n), 3.0) * (1 - np.eye(n))
            D[:, n - 1, : n - 3] = D[:, : n - 3, n - 1] = 99.0  # the last link has only two neighbours
            judge(ctx, {"links": n}, ["v%04d" % (i * 31 % n) for i in range(n)] if n % 31 else ["v%04d" % i for i in range(n)], P, [(1.0, 2.0, 0.5, 4.0)[i % 4] for i in range(n)], D, None, dict(interval=60, timeperiod=3, min_hours=1), label=1)
    if ctx.family("end_to_end_network"):
        # distance matrix from coordinates -> classification
        for n, ml, rad in itertools.product((3, 5), (1, 2, 3), (None, 6.0, 40.0)):
            if not ctx.mine():
                continue
            la = [47.0 + 0.03 * ((i * 3) % 5) for i in range(n)]
            lo = [10.0 + 0.05 * i for i in range(n)]
            lb = [x + 0.02 for x in la]
            lp = [x + 0.03 for x in lo]
            ids = ["n%d" % (n - i) for i in range(n)]
            ok, dd = ctx.call({"n": n}, calc_distance_between_cml_endpoints, ids, la, lo, lb, lp)
            if not ok:
                continue
            D = np.zeros((4, n, n))
            for i in range(n):
                for j in range(n):
                    if i != j:
                        D[0, i, j] = hav(lo[i], la[i], lo[j], la[j])
                        D[1, i, j] = hav(lo[i], la[i], lp[j], lb[j])
                        D[2, i, j] = hav(lp[i], lb[i], lo[j], la[j])
                        D[3, i, j] = hav(lp[i], lb[i], lp[j], lb[j])
            P = [[-50.0 - (4.0 if (5 <= t < 8 and (i + t) % 3) else 0.25 * (t % 2)) for t in range(14)] for i in range(n)]
            judge(ctx, {"links": n, "min_links": ml, "radius": rad}, ids, P, [1.0] * n, D, rad, dict(min_links=ml, interval=60, timeperiod=4, min_hours=2), ds_dist=dd, label=1)
