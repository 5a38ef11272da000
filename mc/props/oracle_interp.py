"""Reference models of the point-to-grid interpolation."""
import math

import numpy as np

nan = float("nan")


def idw(pts, z, q, nnear, p, max_distance, exclude_nan):
    """Value at q, or None if the neighbour choice is ambiguous (ties)."""
    P = [(x, y, v) for (x, y), v in zip(pts, z) if not (exclude_nan and v != v)]
    d = sorted((math.hypot(x - q[0], y - q[1]), i) for i, (x, y, _) in enumerate(P))
    md = math.inf if max_distance is None else max_distance
    if any(abs(a - md) < 1e-9 for a, _ in d):
        return None
    d = [e for e in d if e[0] < md]
    if not d:
        return nan
    if d[0][0] < 1e-10:
        same = {P[i][2] for a, i in d if a < 1e-9}
        return P[d[0][1]][2] if len(same) == 1 else None
    if d[0][0] < 1e-8:
        return None
    if len(d) > nnear and abs(d[nnear - 1][0] - d[nnear][0]) < 1e-9:
        return None
    d = d[:nnear]
    # scale by the nearest distance so that the weights cannot overflow
    w = [(d[0][0] / a) ** p for a, _ in d]
    s = sum(w)
    tot = 0.0
    for wi, (_, i) in zip(w, d):
        tot += wi / s * P[i][2]
    return tot


def idw_many(pts, z, gx, gy, nnear, p, max_distance, exclude_nan):
    """Brute-force values on a large grid; second result: where the value is not ambiguous."""
    P, z = np.asarray(pts, float), np.asarray(z, float)
    if exclude_nan:
        P, z = P[~np.isnan(z)], z[~np.isnan(z)]
    q = np.column_stack([np.ravel(gx), np.ravel(gy)])
    out, sure = np.full(len(q), nan), np.ones(len(q), bool)
    k = min(nnear, len(P))
    md = math.inf if max_distance is None else max_distance
    for b in range(0, len(q), 2000):
        d = np.hypot(q[b : b + 2000, :1] - P[:, 0], q[b : b + 2000, 1:] - P[:, 1])
        o = np.argsort(d, axis=1, kind="stable")
        ds = np.take_along_axis(d, o, 1)
        w = np.where(ds[:, :k] < md, (ds[:, :1] / ds[:, :k]) ** p, 0.0)
        with np.errstate(invalid="ignore"):
            out[b : b + 2000] = np.where(ds[:, 0] < md, np.sum(np.where(w > 0, w * z[o[:, :k]], 0.0), 1) / w.sum(1), nan)
        ok = (ds[:, 0] > 1e-7) & ~np.any(np.abs(ds - md) < 1e-9, axis=1)
        if len(P) > k:
            ok &= np.abs(ds[:, k - 1] - ds[:, k]) > 1e-9
        sure[b : b + 2000] = ok
    return out.reshape(np.shape(gx)), sure.reshape(np.shape(gx))


def krige_many(pts, z, gx, gy, model, par):
    """(values, variances) on a grid away from the data points, all points used."""
    z = np.asarray(z, float)
    P, z = np.asarray(pts, float)[~np.isnan(z)], z[~np.isnan(z)]
    n = len(P)
    V = np.vectorize(lambda d: variogram(model, par, d), otypes=[float])
    G = np.zeros((n + 1, n + 1))
    G[:n, :n] = V(np.hypot(P[:, :1] - P[:, 0], P[:, 1:] - P[:, 1]))
    np.fill_diagonal(G, 0.0)
    G[n, :n] = G[:n, n] = 1
    q = np.column_stack([np.ravel(gx), np.ravel(gy)])
    g = np.vstack([V(np.hypot(P[:, :1] - q[:, 0], P[:, 1:] - q[:, 1])), np.ones(len(q))])
    lam = np.linalg.solve(G, g)
    return (lam[:n].T @ z).reshape(np.shape(gx)), np.sum(lam * g, 0).reshape(np.shape(gx))


def grid(x, y, res):
    def ax(v):
        lo, hi = min(v) - res, max(v) + res
        out, k = [], 0
        n = math.ceil((hi - lo) / res)
        return [lo + k * res for k in range(n)]

    gx, gy = ax(x), ax(y)
    return np.array([gx] * len(gy)), np.array([[v] * len(gx) for v in gy])


def variogram(model, par, d):
    if model == "linear":
        return par["slope"] * d + par["nugget"]
    if model == "power":
        return par["scale"] * d ** par["exponent"] + par["nugget"]
    ps, r, n = par["sill"] - par["nugget"], par["range"], par["nugget"]
    if model == "spherical":
        return ps * (1.5 * d / r - 0.5 * (d / r) ** 3) + n if d <= r else ps + n
    if model == "exponential":
        return ps * (1 - math.exp(-d / (r / 3))) + n
    if model == "gaussian":
        return ps * (1 - math.exp(-(d ** 2) / (r * 4 / 7) ** 2)) + n
    raise KeyError(model)


def krige(pts, z, q, model, par, n_closest=None):
    """(value, variance) of ordinary kriging at q; points without value are not used."""
    P = [(x, y, v) for (x, y), v in zip(pts, z) if v == v]
    d = [math.hypot(x - q[0], y - q[1]) for x, y, _ in P]
    if n_closest is not None:
        o = sorted(range(len(P)), key=lambda i: d[i])
        if len(o) > n_closest and abs(d[o[n_closest - 1]] - d[o[n_closest]]) < 1e-9:
            return None
        o = o[:n_closest]
        P, d = [P[i] for i in o], [d[i] for i in o]
    n = len(P)
    G = np.zeros((n + 1, n + 1))
    for i in range(n):
        for j in range(n):
            if i != j:
                G[i, j] = variogram(model, par, math.hypot(P[i][0] - P[j][0], P[i][1] - P[j][1]))
    G[n, :n] = G[:n, n] = 1
    g = np.array([0.0 if v < 1e-10 else variogram(model, par, v) for v in d] + [1.0])
    lam = np.linalg.solve(G, g)
    return float(sum(lam[i] * P[i][2] for i in range(n))), float(lam @ g)
