"""C21: alignment and scaling of the TensorFlow CNN predictions."""
import contextlib
import itertools
import os
import tempfile

import numpy as np

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "window 1..4, series 1..7, 1-3 links, 1-2 variables, all words over {1, 4, NaN, inf} of short series, all subsets and orders of links "
    "incl. unknown ones; scaling over all sample words; storing of all result sequences up to 3 of a 3x2 grid; complete function with Keras "
    "models (position coded, saved as architecture + weights) over missing-sample positions, link subsets, batch sizes, window lengths, up to 600 samples and 40 links"
)
ASSUMPTIONS = [
    "link ids are in the coordinate cml_id and unique; features are compared with single precision tolerance",
]


def ref_samples(x, ids, sel, w):
    """x: (variables, links, time); returns list of (window, id, t)"""
    out = []
    for c in sel:
        if c not in list(ids):
            continue
        l = list(ids).index(c)
        T = x.shape[2]
        for t in range(w - 1, T):
            win = x[:, l, t - w + 1 : t + 1].T
            if np.all(np.isfinite(win)):
                out.append((win, c, t))
    return out


def ref_scale(X):
    X = np.asarray(X, float)
    out = np.empty_like(X)
    for i in range(X.shape[2]):
        v = X[:, :, i]
        m = v.mean()
        s = np.sqrt(((v - m) ** 2).mean())
        out[:, :, i] = (v - m) / (s if s > 1e-7 * max(1.0, abs(m)) else 1.0)
    return out


def explore(ctx):
    import xarray as xr

    from pycomlink.processing.tensorflow_utils import inference_utils as iu

    devnull = open(os.devnull, "w")
    IDS = {
        "str": np.array(["z", "a", "m"]), "int": np.array([30, 4, 17]),
        "long": np.array(["operator_network_north_link_" + "0" * 60 + c for c in ("10", "2", "1")]), "lengths": np.array(["a", "ab" * 20, "ab"]),
        "large": np.array([2**53 + 1, 2**53 + 2, 2**53]),
    }
    N = {1: ["tl1"], 2: ["tl1", "tl2"]}

    def dataset(x, ids, names, order=("cml_id", "time"), t0="2020-01-01"):
        V, L, T = x.shape
        ds = xr.Dataset(
            {n: (("cml_id", "time"), x[v]) for v, n in enumerate(names)},
            coords={"cml_id": ids[:L], "time": np.datetime64(t0, "ns") + np.arange(T) * np.timedelta64(60, "s")},
        )
        ds["other"] = ("cml_id", np.arange(L) + 0.5)
        return ds.transpose(*order)

    def values(V, L, T, salt=0):
        x = np.empty((V, L, T))
        for v, l, t in itertools.product(range(V), range(L), range(T)):
            x[v, l, t] = (5 * t + 17 * v + 41 * l + (t * t) % 7 + salt) % 103 + 0.25
        return x

    def samples(case, ds, x, ids, sel, names, w):
        kw = {} if w == 180 else {"seq_len": w}
        before = ds.copy(deep=True)
        ok, r = ctx.call(case, iu.create_samples, ds, sel, names, **kw)
        if not ok:
            return
        X, i, t = r
        want = ref_samples(x, ids, sel, w)
        if len(X) != len(want) or len(i) != len(want) or len(t) != len(want):
            ctx.fail("%d samples, expected %d" % (len(X), len(want)), case)
            return
        if want:
            ctx.eq("samples", X, np.array([q[0] for q in want]), case, rtol=1e-6, atol=1e-5)
        if list(i) != [q[1] for q in want] or [int(v) for v in t] != [q[2] for q in want]:
            ctx.fail("labels %r %r" % (list(i), list(t)), case)
        if not ds.identical(before):
            ctx.fail("input was modified", case)

    if ctx.family("windows"):
        for w, V, L in itertools.product((1, 2, 3, 4), (1, 2), (1, 2, 3)):
            for T in range(1, 8):
                for idk in IDS:
                    for order in (("cml_id", "time"), ("time", "cml_id")):
                        if not ctx.mine():
                            continue
                        ids = IDS[idk][:L]
                        x = values(V, L, T)
                        ds = dataset(x, ids, N[V], order)
                        samples({"window": w, "variables": V, "links": L, "steps": T, "ids": idk, "order": order}, ds, x, ids, ids, N[V], w)
                        ctx.step(T * L)
                        ctx.state((w, V, L, T, idk, order))
                        ctx.trace(outcome=(w, V, L, T))
    if ctx.family("many_links"):
        for L, T, w in ((300, 6, 2), (300, 4, 4), (1100, 3, 2), (2, 3000, 5), (1, 1500, 180), (40, 200, 3), (1, 33500, 2)):
            for k in range(2):
                if not ctx.mine():
                    continue
                ids = np.array(["link_%d" % ((i * 17) % 2003) for i in range(L)])
                x = values(2, L, T) + np.arange(L)[None, :, None] / 7
                if k:
                    x[0, ::5, T // 2] = np.nan
                ds = dataset(x, ids, N[2])
                case = {"links": L, "steps": T, "window": w, "missing": bool(k)}
                samples(case, ds, x, ids, ids, N[2], w)
                cells = [(t, l) for l in range(L) for t in range(w - 1, T) if (t + l) % 3 or not k]
                p = np.array([(7 * t + 13 * l) % 1009 / 1009 for t, l in cells])
                want = np.full((T, L), np.nan)
                for c, q in zip(cells, p):
                    want[c] = q
                with contextlib.redirect_stdout(devnull):
                    ok, a = ctx.call(case, iu.store_predictions, ds, p, np.array([ids[l] for _, l in cells]), np.array([t for t, _ in cells]))
                if ok:
                    ctx.eq("stored", a.transpose("time", "cml_id").values, want, case, rtol=1e-6)
                ctx.step(T * L)
                ctx.state((L, T, w, k))
                ctx.trace(outcome=(L, T, w, k))
    if ctx.family("sample_words"):
        for w in (1, 2, 3):
            for T in (3, 4, 5) if ctx.thorough else (3, 4):
                for word in itertools.product((1.0, 4.0, np.nan, np.inf) if T > 3 else (1.0, 3e38, -np.inf, np.nan, np.inf), repeat=T):
                    for word2 in itertools.product((2.0, np.nan), repeat=T):
                        if not ctx.mine():
                            continue
                        x = np.array([[word, word2], [word2, word]])
                        ids = IDS["int"][:2]
                        samples({"words": [word, word2], "window": w}, dataset(x, ids, N[2]), x, ids, ids, N[2], w)
                        ctx.step(T)
                        ctx.state(repr((w, word, word2)))
                        ctx.trace(outcome=repr((w, word, word2)))
    if ctx.family("link_subsets"):
        ids = IDS["str"]
        x = values(2, 3, 5)
        ds = dataset(x, ids, N[2])
        for r in range(0, 5):
            for sel in itertools.permutations(["z", "a", "m", "q"], r):
                for names, rows in ((N[2], [0, 1]), (["tl2", "tl1"], [1, 0]), (["tl2"], [1])):
                    if not ctx.mine():
                        continue
                    samples({"links": sel, "variables": names}, ds, x[rows], ids, list(sel), names, 3)
                    ctx.step()
                    ctx.state((sel, tuple(names)))
                    ctx.trace(outcome=(sel, tuple(names)))
    if ctx.family("scaling"):
        for V in (1, 2):
            for n, w in ((1, 1), (1, 3), (2, 2), (3, 1), (2, 3)) if not ctx.thorough else ((1, 1), (1, 3), (2, 2), (3, 1), (2, 3), (3, 2)):
                vals = (0.0, 2.0, 7.5) if n * w <= 4 else (0.0, 7.5)
                for word in itertools.product(vals, repeat=n * w):
                    if not ctx.mine():
                        continue
                    X = np.empty((n, w, V), dtype=np.float32)
                    X[:, :, 0] = np.reshape(word, (n, w))
                    if V == 2:
                        X[:, :, 1] = np.reshape(word[::-1], (n, w)) * -3 + 50
                    before = X.copy()
                    ok, r = ctx.call({"samples": X}, iu.scale_features, X, N[V])
                    if ok:
                        ctx.eq("scaled", r, ref_scale(X), {"samples": before}, rtol=1e-4, atol=1e-5)
                    if not np.array_equal(before, X):
                        ctx.fail("input was modified", {"samples": before})
                    ctx.step(n * w)
                    ctx.state((V, n, w, word))
                    ctx.trace(outcome=(V, n, w, word))
        # levels of any magnitude: small variations, large variations, many samples
        for mag, off, (n, w), V in itertools.product((1e-5, 1e-3, 0.02, 1.0, 300.0, 1e5), (0.0, 3.0), ((4, 5), (1, 180), (300, 12), (70000, 2)), (1, 3)):
            if not ctx.mine():
                continue
            q = np.arange(n * w * V).reshape(n, w, V)
            X = (mag * (((q * 37) % 23) - 9.0 + 0.01 * ((q * 101) % 977)) + off * mag).astype(np.float32)
            X[:, :, V - 1] *= 7
            before = X.copy()
            case = {"magnitude": mag, "offset": off, "samples": n, "window": w, "variables": V}
            ok, r = ctx.call(case, iu.scale_features, X, ["v%d" % v for v in range(V)])
            if ok:
                ctx.eq("scaled", r, ref_scale(X), case, rtol=1e-4, atol=1e-4)
            if not np.array_equal(before, X):
                ctx.fail("input was modified", case)
            ctx.step(n * w)
            ctx.state(str(case))
            ctx.trace(outcome=str(case))
    if ctx.family("storing"):
        ids = IDS["str"][:2]
        x = values(1, 2, 3)
        ds = dataset(x, ids, N[1])
        cells = [(t, l) for t in range(3) for l in range(2)] + ["link?", "time?"]
        with contextlib.redirect_stdout(devnull):
            for r in range(0, 4):
                for seq in itertools.permutations(cells, r):
                    for use in (None, ["z"], ["a", "z", "k"]) if r > 1 else (None,):
                        if not ctx.mine():
                            continue
                        want = np.full((3, 2), np.nan)
                        i, t, p = [], [], []
                        for k, c in enumerate(seq):
                            p.append([0.0, 1.0, 0.25][k])
                            if c == "link?":
                                i.append("q")
                                t.append(0)
                            elif c == "time?":
                                i.append("a")
                                t.append(3 + k)
                            else:
                                i.append(ids[c[1]])
                                t.append(c[0])
                                if use is None or ids[c[1]] in use:
                                    want[c] = [0.0, 1.0, 0.25][k]
                        case = {"results": seq, "links to use": use}
                        kw = {} if use is None else {"cml_ids_to_use": use}
                        before = ds.copy(deep=True)
                        ok, a = ctx.call(case, iu.store_predictions, ds, np.array(p), np.array(i, dtype="U1"), np.array(t, dtype=int), **kw)
                        if ok:
                            if not np.array_equal(a.time.values, ds.time.values) or not np.array_equal(a.cml_id.values, ds.cml_id.values):
                                ctx.fail("coordinates differ from the input", case)
                            ctx.eq("stored", a.transpose("time", "cml_id").values, want, case)
                            if a.name != "cnn_prob_model":
                                ctx.fail("name %r" % a.name, case)
                        if not ds.identical(before):
                            ctx.fail("input was modified", case)
                        ctx.step(r)
                        ctx.state((seq, str(use)))
                        ctx.trace(outcome=(seq, str(use)))
            if ctx.shard == 0:
                for a, b, c in itertools.product((0, 1, 2, 3), repeat=3):
                    if a == b == c:
                        continue
                    ctx.rejects({"lengths": (a, b, c)}, iu.store_predictions, ds, np.zeros(a), np.array(["z"] * b, dtype="U1"), np.zeros(c, int))
                    ctx.step()
                    ctx.trace(outcome=(a, b, c))
    if ctx.family("complete_function"):
        complete(ctx, xr, dataset, values, IDS, N, devnull)


def complete(ctx, xr, dataset, values, IDS, N, devnull):
    import tensorflow as tf

    tf.config.threading.set_intra_op_parallelism_threads(1)
    tf.config.threading.set_inter_op_parallelism_threads(1)
    from pycomlink.processing.tensorflow_utils.run_inference import wet_dry_1d_cnn

    tmp = tempfile.mkdtemp()
    os.chdir(tmp)
    K = tf.keras

    def weights(w, V):
        return np.array([[((j * 3 + v * 5) % 11 - 4) / 16.0 for v in range(V)] for j in range(w)])

    def build(w, V, dropout):
        m = K.Sequential([K.layers.Input((w, V)), K.layers.Flatten()] + ([K.layers.Dropout(0.5)] if dropout else []) + [K.layers.Dense(1, activation="sigmoid")])
        m.layers[-1].set_weights([weights(w, V).reshape(-1, 1).astype(np.float32), np.array([0.1], dtype=np.float32)])
        j = os.path.join(tmp, "m_%d_%d_%d.json" % (w, V, dropout))
        with open(j, "w") as f:
            f.write(m.to_json())
        wf = os.path.join(tmp, "m_%d_%d_%d.weights.h5" % (w, V, dropout))
        m.save_weights(wf)
        return j, wf

    files = {}

    def model(w, V, dropout=0):
        if (w, V, dropout) not in files:
            files[w, V, dropout] = build(w, V, dropout)
        return files[w, V, dropout]

    def reference(x, ids, sel, w):
        V, L, T = x.shape
        out = np.full((T, L), np.nan)
        s = ref_samples(x, ids, sel, w)
        Z = ref_scale([q[0] for q in s]) if s else []
        for z, (_, c, t) in zip(Z, s):
            out[t, list(ids).index(c)] = 1 / (1 + np.exp(-(np.sum(z * weights(w, V)) + np.float32(0.1))))
        return out

    def one(case, x, ids, w, sel=None, ret=None, bs=None, name=None, names=None, drop=0, order=("cml_id", "time"), dim="cml_id"):
        names = names or N[x.shape[0]]
        ds = dataset(x, ids, names, order)
        if dim != "cml_id":
            ds = ds.rename(cml_id=dim)
            order = tuple(dim if o == "cml_id" else o for o in order)
        before = ds.copy(deep=True)
        j, wf = model(w, x.shape[0], drop)
        kw = {"json_url": j, "weights_url": wf}
        if w != 180:
            kw["seq_len"] = w
        if names != ["tl1", "tl2"]:
            kw["input_vars"] = names
        if sel is not None:
            kw["cml_ids"] = sel
        if ret is not None:
            kw["return_ds"] = ret
        if bs is not None:
            kw["batch_size"] = bs
        if name is not None:
            kw["prob_name"] = name
        if dim != "cml_id":
            kw["id_coord"] = dim
        with contextlib.redirect_stdout(devnull):
            ok, r = ctx.call(case, wet_dry_1d_cnn, ds, **kw)
        ctx.step(x.shape[2])
        ctx.state(repr(case))
        if not ds.identical(before):
            ctx.fail("input was modified", case)
        if not ok:
            return
        want = reference(x, ids, ids if sel is None else sel, w)
        ctx.trace(outcome=repr(np.round(want, 3).tolist()))
        n = name or "CNN"
        if ret is False:
            a = r
            if a.name != n:
                ctx.fail("name %r" % a.name, case)
        else:
            if n not in r or not r.drop_vars(n).transpose(*order).identical(ds):
                ctx.fail("result dataset is not the input plus the prediction", case)
                return
            a = r[n]
        if not np.array_equal(a.time.values, ds.time.values) or not np.array_equal(a[dim].values, ds[dim].values):
            ctx.fail("coordinates differ from the input", case)
        ctx.eq("probability", a.transpose("time", dim).values, want, case, rtol=1e-4, atol=1e-5)

    ids = IDS["str"]
    # every position of one missing or infinite sample in either variable
    T = 8
    for w in (2, 4):
        for v, l, t, bad in itertools.product((0, 1), (0, 1), range(T), (np.nan, -np.inf)):
            if ctx.mine():
                x = values(2, 2, T)
                x[v, l, t] = bad
                one({"bad": bad, "variable": v, "link": l, "step": t, "window": w}, x, ids[:2], w, ret=bool(t % 2))
    # subsets and orders of links, unknown ids
    for r in (1, 2, 3, 4):
        for sel in itertools.permutations(["z", "a", "m", "q"], r):
            if ctx.mine():
                one({"links": sel}, values(2, 3, 6), ids, 3, sel=list(sel), ret=False)
    # no complete window: all samples missing, a missing sample in every window, series shorter than a window
    for w, T, step, ret in itertools.product((2, 4), (1, 3, 6), (0, 1, 2, 4), (True, False)):
        if ctx.mine():
            x = values(2, 2, T)
            if step:
                x[1, 0, ::step] = np.nan
                x[0, 1, ::step] = np.inf
            one({"window": w, "steps": T, "missing every": step}, x, ids[:2], w, ret=ret)
    # batches
    for bs in (None, 1, 2, 3, 5, 9, 10, 11):
        for drop in (0, 1):
            if ctx.mine():
                one({"batch": bs, "dropout": drop}, values(2, 2, 7), ids[:2], 3, bs=bs, name="p%s" % bs, drop=drop)
    # more samples than one batch, many links
    for L, T, w, bs in ((3, 200, 4, None), (3, 200, 4, 50), (1, 300, 2, 128), (40, 9, 3, None), (40, 9, 3, 7), (12, 30, 5, 1000)):
        if ctx.mine():
            x = values(2, L, T) + np.arange(L)[None, :, None] / 7
            x[0, 0, T // 2] = np.nan
            one({"links": L, "steps": T, "window": w, "batch": bs}, x, np.array(["link_%d" % ((i * 17) % 101) for i in range(L)]), w, bs=bs)
    # layouts
    for idk, order, names, ret in itertools.product(IDS, (("cml_id", "time"), ("time", "cml_id")), (["tl1", "tl2"], ["a", "b"], ["tl1"]), (None, True, False)):
        if ctx.mine():
            one({"ids": idk, "order": order, "variables": names, "return_ds": ret}, values(len(names), 3, 5), IDS[idk], 2, ret=ret, names=names, order=order)
    # name of the coordinate with the links
    for dim, sel, order, ret in itertools.product(("link_id", "sublink_id"), (None, ["m", "a"], ["q", "z"]), (("cml_id", "time"), ("time", "cml_id")), (True, False)):
        if ctx.mine():
            x = values(2, 3, 6)
            x[1, 2, 1] = np.nan
            one({"coordinate": dim, "links": sel, "order": order, "return_ds": ret}, x, ids, 3, sel=sel, ret=ret, order=order, dim=dim)
    # default window length
    for T, t in itertools.product((180, 183), (None, 0, 1, 90, 179)):
        if ctx.mine():
            x = values(2, 2, T)
            if t is not None:
                x[1, 0, t] = np.nan
            one({"steps": T, "missing": t, "window": 180}, x, ids[:2], 180)
    if ctx.shard == 0:
        ds = dataset(values(2, 2, 5), ids[:2], N[2])
        j, wf = model(2, 2)
        ctx.rejects("unknown id coordinate", wet_dry_1d_cnn, ds, id_coord="nope", json_url=j, weights_url=wf, seq_len=2)
        ctx.rejects("missing variable", wet_dry_1d_cnn, ds, input_vars=["tl1", "nope"], json_url=j, weights_url=wf, seq_len=2)
        ctx.step(2)
        ctx.trace(2)
