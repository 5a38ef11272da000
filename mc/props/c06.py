"""C06: ITU power-law coefficients."""
import itertools

import numpy as np
import xarray as xr

from .oracle_ab import TABLE, ab

MODES = ["nojit"]
SHARDS = 4
BOUNDS = "1..100 GHz in steps of 0.05 GHz, 199 irregular frequencies plus all table nodes x 8 polarization spellings x 2 tables; all shapes/containers, 9 labelled layouts; all rejected inputs of a fixed menu"
ASSUMPTIONS = ["frozen copy of both ITU tables; the 2005 table is additionally checked against the closed form of ITU-R P.838-3"]

V = ["v", "V", "vertical", "Vertical"]
H = ["h", "H", "horizontal", "Horizontal"]

P838 = {
    "kH": ([-5.33980, -0.35351, -0.23789, -0.94158], [-0.10008, 1.26970, 0.86036, 0.64552], [1.13098, 0.45400, 0.15354, 0.16817], -0.18961, 0.71147),
    "kV": ([-3.80595, -3.44965, -0.39902, 0.50167], [0.56934, -0.22911, 0.73042, 1.07319], [0.81061, 0.51059, 0.11899, 0.27195], -0.16398, 0.63297),
    "aH": ([-0.14318, 0.29591, 0.32177, -5.37610, 16.1721], [1.82442, 0.77564, 0.63773, -0.96230, -3.29980], [-0.55187, 0.19822, 0.13164, 1.47828, 3.43990], 0.67849, -1.95537),
    "aV": ([-0.07771, 0.56727, -0.20238, -48.2991, 48.5833], [2.33840, 0.95545, 1.14520, 0.791669, 0.791459], [-0.76284, 0.54039, 0.26809, 0.116226, 0.116479], -0.053739, 0.83433),
}


def p838(n, f):
    A, B, C, m, c = P838[n]
    x = np.log10(f)
    s = sum(ai * np.exp(-(((x - bi) / ci) ** 2)) for ai, bi, ci in zip(A, B, C)) + m * x + c
    return 10**s if n[0] == "k" else s


def explore(ctx):
    from pycomlink.processing.k_R_relation import a_b as fn

    def chk(case, f, pol, want_a, want_b, shape, **kw):
        ok, r = ctx.call(case, fn, f, pol, **kw)
        ctx.step()
        if not ok:
            return None
        a, b = r
        A, B = np.asarray(a, float), np.asarray(b, float)
        if shape is not None and (A.shape != shape or B.shape != shape):
            ctx.fail("coefficient shapes %s %s, expected %s" % (A.shape, B.shape, shape), case)
            return r
        ctx.eq("a", A.ravel(), np.ravel(want_a), case, rtol=1e-6, atol=1e-10)
        ctx.eq("b", B.ravel(), np.ravel(want_b), case, rtol=1e-6)
        ctx.trace()
        return r

    fs = sorted(set(np.round(np.arange(1, 100.0001, 0.05), 4)) | set(1 + 99 * ((np.arange(1, 200) * 0.6180339887498949) % 1)) | set(TABLE["ITU_2005"][0]) | set(TABLE["ITU_2003"][0]))
    if ctx.family("frequency_scan"):
        for pol, tab in itertools.product(V + H, ("ITU_2003", "ITU_2005", None)):
            if not ctx.mine():
                continue
            kw = {"approx_type": tab} if tab else {}
            w = [ab(f, pol, tab or "ITU_2005") for f in fs]
            chk({"pol": pol, "table": tab, "f": "1..100 step 0.05"}, np.array(fs), pol, [x[0] for x in w], [x[1] for x in w], (len(fs),), **kw)
            for f, x in zip(fs, w):
                ctx.state((f, pol, tab))
            ctx.step(len(fs))
            ctx.trace(len(fs) - 1, outcome=(pol, tab))
            if tab != "ITU_2003":
                hv = "H" if pol in H else "V"
                nodes = TABLE["ITU_2005"][0]
                ok, r = ctx.call({"nodes": pol}, fn, nodes, pol, **kw)
                if ok:
                    ctx.eq("a against closed form of P.838-3", np.asarray(r[0]), p838("k" + hv, nodes), {"pol": pol}, rtol=2e-3)
                    ctx.eq("b against closed form of P.838-3", np.asarray(r[1]), p838("a" + hv, nodes), {"pol": pol}, rtol=2e-4)
    if ctx.family("scalars"):
        for f, pol, tab in itertools.product([1, 1.0, 2, 3.7, 10, 17.25, 23, 23.456789, 38.0, 59, 99.99, 100, 100.0], V + H, ("ITU_2003", "ITU_2005")):
            if not ctx.mine():
                continue
            for x in (f, np.float64(f), np.array(f)):
                a, b = ab(f, pol, tab)
                r = chk({"f": f, "type": type(x).__name__, "pol": pol, "table": tab}, x, pol, [a], [b], None, approx_type=tab)
                ctx.state((f, pol, tab, type(x).__name__))
    if ctx.family("arrays_mixed_polarization"):
        freqs = [[23.0, 38.0], [18.0, 7.0, 80.0], [1.0, 100.0], [25]]
        for fl in freqs:
            for pols in itertools.product(["V", "h", "Vertical", "H"], repeat=len(fl)):
                for tab in ("ITU_2003", "ITU_2005"):
                    if not ctx.mine():
                        continue
                    w = [ab(f, p, tab) for f, p in zip(fl, pols)]
                    wa, wb = [x[0] for x in w], [x[1] for x in w]
                    case = {"f": fl, "pol": pols, "table": tab}
                    ctx.state((tuple(fl), pols, tab))
                    chk(case, np.array(fl), np.array(pols), wa, wb, (len(fl),), approx_type=tab)
                    chk(dict(case, t="object"), np.array(fl), np.array(pols, dtype=object), wa, wb, (len(fl),), approx_type=tab)
                    chk(dict(case, t="lists"), list(fl), list(pols), wa, wb, (len(fl),), approx_type=tab)
                    ctx.trace(0, outcome=(tuple(fl), pols, tab))
    if ctx.family("multidimensional_and_labelled"):
        F = np.array([[18.0, 23.0, 38.0], [7.5, 80.0, 25.0]])
        for pols in itertools.product("VH", repeat=6):
            if not ctx.mine():
                continue
            P = np.array(pols).reshape(2, 3)
            w = [[ab(F[i, j], P[i, j]) for j in range(3)] for i in range(2)]
            wa = np.array([[x[0] for x in r] for r in w])
            wb = np.array([[x[1] for x in r] for r in w])
            chk({"F": F, "P": P}, F, P, wa, wb, (2, 3))
            for dims in (("cml_id", "channel_id"),):
                co = {"cml_id": ["p", "q"], "channel_id": ["c1", "c2", "c3"]}
                fd = xr.DataArray(F, dims=dims, coords=co)
                pdn = xr.DataArray(P, dims=dims, coords=co)
                for px in (pdn, P):
                    ok, r = ctx.call({"labelled": True, "P": P}, fn, fd, px)
                    ctx.step()
                    if ok:
                        for x, want in zip(r, (wa, wb)):
                            if not isinstance(x, xr.DataArray) or x.dims != dims or list(x.cml_id.values) != ["p", "q"] or list(x.channel_id.values) != ["c1", "c2", "c3"]:
                                ctx.fail("labels lost", {"P": P, "got": repr(x)})
                            else:
                                ctx.eq("labelled coefficient", x.values, want, {"P": P}, rtol=1e-6, atol=1e-10)
                        ctx.trace(outcome=pols)
            ctx.state(pols)
        for pol in V + H:
            fd = xr.DataArray(F, dims=("a", "b"), coords={"a": [1, 2], "b": [3, 4, 5]})
            ok, r = ctx.call({"pol": pol}, fn, fd, pol)
            if ok:
                ctx.eq("a", r[0].values, [[ab(x, pol)[0] for x in row] for row in F], {"pol": pol}, rtol=1e-6, atol=1e-10)
                ctx.eq("b", r[1].values, [[ab(x, pol)[1] for x in row] for row in F], {"pol": pol}, rtol=1e-6)
                ctx.trace()
            ctx.step()
    if ctx.family("labelled_layouts"):
        # one link (no dimension left), unlabelled dimensions, further coordinates, any order of the labels
        lay = [
            ((), {}, []),
            ((), {"cml_id": "a"}, []),
            ((), {"cml_id": "a", "channel_id": "c1", "length": 3.5}, []),
            (("sublink",), {}, [1]),
            (("sublink",), {}, [3]),
            (("sublink",), {"sublink": ["s2", "s1", "s0"], "length": ("sublink", [1.0, 2.0, 3.0]), "cml_id": "q"}, [3]),
            (("cml_id", "sublink"), {"sublink": ["x", "y"]}, [3, 2]),
            (("cml_id", "sublink"), {"sublink": ["x", "y"], "cml_id": [9, 5, 7], "n": (("sublink", "cml_id"), np.arange(6).reshape(2, 3))}, [3, 2]),
            (("a", "b", "c"), {"c": [1, 2]}, [2, 1, 2]),
        ]
        pool = [23.0, 7.5, 80.0, 18.25, 38.0, 61.0]
        for (dims, co, shape), k, tab, how in itertools.product(lay, range(6), ("ITU_2003", "ITU_2005"), ("str", "labelled", "array")):
            if not ctx.mine():
                continue
            n = int(np.prod(shape)) if shape else 1
            F = np.array([pool[(i + k) % 6] for i in range(n)]).reshape(shape)
            for pols in ["V" * n, "H" * n] + (["VH" * n, "HHV" * n, "HVV" * n] if how != "str" else []):
                pols = pols[:n]
                P = np.array(list(pols)).reshape(shape)
                fd = xr.DataArray(F, dims=dims, coords=co)
                pol = pols[0] if how == "str" else (xr.DataArray(P, dims=dims, coords=co) if how == "labelled" else P)
                w = [ab(f, p, tab) for f, p in zip(F.ravel(), P.ravel())]
                case = {"F": F, "P": pols, "dims": dims, "coords": sorted(co), "how": how, "table": tab}
                keep = fd.copy(deep=True)
                ok, r = ctx.call(case, fn, fd, pol, approx_type=tab)
                ctx.step()
                ctx.state(repr(case))
                if not fd.identical(keep):
                    ctx.fail("frequencies changed", case)
                if not ok:
                    continue
                for i, x in enumerate(r):
                    if not isinstance(x, xr.DataArray) or x.dims != dims or set(x.coords) != set(co) or not all(x[c].equals(fd[c]) for c in co):
                        ctx.fail("labels lost", dict(case, got=repr(x)))
                    else:
                        ctx.eq("labelled coefficient", x.values, np.array([v[i] for v in w]).reshape(shape), case, rtol=1e-6, atol=1e-10)
                ctx.trace(outcome=(dims, pols, tab))
    if ctx.family("rejected"):
        menu = []
        for f in (0, 0.5, 0.9999, 100.0001, 150, -5):
            for pol in ("V", "H"):
                menu += [(f, pol, {}), (np.array([10.0, f]), pol, {}), (np.array([f, 10.0, 20.0]), np.array([pol] * 3), {}), (f, pol, {"approx_type": "ITU_2003"})]
        for pol in ("", "x", "VH", "HV", "vert", "HORIZONTAL", "VERTICAL", "hh", " V", "V "):
            menu += [(23.0, pol, {}), (np.array([23.0, 18.0]), np.array(["V", pol]), {}), (np.array([23.0, 18.0]), np.array([pol, "H"]), {}), (np.array([23.0, 18.0]), pol, {})]
        for t in ("ITU", "ITU_2004", "itu_2005", "", None, 2005):
            menu.append((23.0, "V", {"approx_type": t}))
        for fsh, psh in (((2,), (3,)), ((3,), (2,)), ((2, 3), (3, 2)), ((2, 2), (4,)), ((1,), (2,))):
            menu.append((np.full(fsh, 23.0), np.full(psh, "V"), {}))
        for f, pol, kw in menu:
            if ctx.mine():
                ctx.rejects({"f": f, "pol": pol, **kw}, fn, f, pol, **kw)
                ctx.state((str(f), str(pol), str(kw)))
                ctx.step()
                ctx.trace()
    if ctx.family("repeatable"):
        if ctx.mine():
            first = fn(np.array([18.0, 38.0]), "V")
            for pol, tab in itertools.product(V + H, ("ITU_2003", "ITU_2005")):
                fn(np.array([5.0, 70.0]), pol, approx_type=tab)
                ok, r = ctx.call({"after": [pol, tab]}, fn, np.array([18.0, 38.0]), "V")
                if ok:
                    ctx.eq("a after other calls", r[0], first[0], {"after": [pol, tab]}, rtol=0, atol=0)
                ctx.step()
                ctx.trace()
