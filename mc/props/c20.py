"""C20: alignment of the PyTorch CNN predictions with the input series."""
import itertools
import os
import tempfile

import numpy as np

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "window 1..4, series length window..7, 1-3 links, 1-2 channels, reference length 2..2*window+1 and values beyond the series, batch sizes "
    "1..all+1, all words over {0, 3, NaN} of short series, all dimension orders with time before channel, id and time types; up to 2000 windows of up to 40 links; complete "
    "function with 180-step TorchScript models (position coded, dropout) for series of 180..184 steps; model source strings"
)
ASSUMPTIONS = [
    "time stamps and link ids are unique; half the reference length is at least one step",
    "reference lengths whose offset reaches before the start are explored only where no two windows have the same target step",
]


def target(start, w, ref):
    h = int(ref / 2)
    end = start + w
    return end - h if end - h >= 0 else end - 1


def reference(x, weights, w, ref):
    """x (time, channel, link) float32, weights (channel, window) -> (time, link)"""
    T, C, L = x.shape
    out = np.full((T, L), np.nan)
    for l in range(L):
        for s in range(T - w + 1):
            out[target(s, w, ref), l] = float(np.sum(x[s : s + w, :, l].T.astype(float) * weights))
    return out


def collisions(T, w, ref):
    t = [target(s, w, ref) for s in range(T - w + 1)]
    return len(set(t)) != len(t)


def explore(ctx):
    import torch
    import xarray as xr

    torch.set_num_threads(1)
    from pycomlink.processing.pytorch_utils import inference_utils as iu
    from pycomlink.processing.pytorch_utils import run_inference as ri

    tmp = tempfile.mkdtemp()
    devnull = open(os.devnull, "w")

    class Lin(torch.nn.Module):
        def __init__(self, weights, keepdim=False, window=None):
            super().__init__()
            self.k = torch.nn.Parameter(torch.tensor(weights, dtype=torch.float32))
            self.keepdim = keepdim
            if window is not None:
                self.window_size = window

        def forward(self, x):
            y = (x * self.k).sum(dim=2).sum(dim=1)
            for _ in range(int(self.keepdim)):
                y = y.unsqueeze(1)
            return y

    def coded(C, w):
        return np.array([[1 + 7 * j + 31 * c * (j + 2) for j in range(w)] for c in range(C)], dtype=float)

    IDS = {
        "str": lambda n: np.array(["z", "a", "m"])[:n],
        "int": lambda n: np.array([30, 4, 17])[:n],
        "long": lambda n: np.array(["operator_network_north_link_" + "0" * 60 + c for c in ("10", "2", "1")])[:n],
        "lengths": lambda n: np.array(["a", "ab" * 20, "ab"])[:n],
        "object": lambda n: np.array(["\u00fc1 ", "\u00fc1", "1"], dtype=object)[:n],
        "large": lambda n: np.array([2**53 + 1, 2**53 + 2, 2**53])[:n],
    }
    TIMES = {
        "minutes": lambda n: np.datetime64("2020-01-01T23:58", "ns") + np.arange(n) * np.timedelta64(60, "s"),
        "gaps": lambda n: np.datetime64("2020-01-01", "ns") + (np.arange(n) ** 2) * np.timedelta64(60, "s"),
        "integers": lambda n: np.arange(n) * 2 + 5,
    }

    def array(x, ids, times, order, extra=False):
        T, C, L = x.shape
        da = xr.DataArray(
            x, dims=("time", "channel_id", "cml_id"),
            coords={"time": times, "channel_id": ["c%d" % c for c in range(C)], "cml_id": ids},
        ).transpose(*order)
        if extra:
            da = da.assign_coords(length=("cml_id", np.arange(L) + 1.0))
        return da

    def check(case, res, da, want, atol=1e-3):
        got = res["predictions"]
        if set(got.dims) != {"time", "cml_id"}:
            ctx.fail("predictions have dimensions %s" % (got.dims,), case)
            return
        if not np.array_equal(got.time.values, da.time.values) or not np.array_equal(got.cml_id.values, da.cml_id.values):
            ctx.fail("coordinates of the predictions differ from the input", case)
        ctx.eq("predictions", got.transpose("time", "cml_id").values, want, case, rtol=1e-5, atol=atol)

    def values(T, C, L, salt=0):
        # every sample of every link and channel differs, small integers (exact in float32)
        x = np.empty((T, C, L), dtype=float)
        for t, c, l in itertools.product(range(T), range(C), range(L)):
            x[t, c, l] = (3 * t + 11 * c + 29 * l + (t * t) % 5 + salt) % 97 + 1
        return x

    def small(case, model, da, ref, bs, want, atol=1e-3):
        before = da.copy(deep=True)

        def go():
            args = {}
            if bs is not None:
                args["batch_size"] = bs
            if ref is not None:
                args["reflength"] = ref
            r = ri.run_inference(model, da, **args)
            return ri.redistribute_results(r, da.to_dataset(name="TL")), r

        ok, res = ctx.call(case, go)
        if not ok:
            return
        ds, raw = res
        check(case, ds, da, want, atol)
        if not ds["TL"].identical(da.rename("TL")):
            ctx.fail("input variable changed in the result", case)
        if not da.identical(before):
            ctx.fail("input was modified", case)
        n = len(np.ravel(raw["predictions"]))
        if not (n == len(raw["cml_ids"]) == len(raw["times"])):
            ctx.fail("numbers of predictions, link ids and time stamps differ", case)

    if ctx.family("windows_and_batches"):
        for w in (1, 2, 3, 4):
            for T in range(1, 8 if ctx.thorough else 7):
                refs = list(range(2, 2 * w + 2)) + [2 * T + 2, 2 * T + 7]
                for C, L in ((1, 1), (2, 1), (1, 3), (2, 2), (2, 3)):
                    x = values(T, C, L, salt=w)
                    n = max(0, T - w + 1) * L
                    for ref in refs:
                        if int(ref / 2) > w and collisions(T, w, ref):
                            continue
                        want = reference(x, coded(C, w), w, ref)
                        for bs in sorted({1, 2, 3, n - 1, n, n + 1, 32} - {0, -1}):
                            if not ctx.mine():
                                continue
                            model = Lin(coded(C, w), keepdim=bool(bs % 2), window=w)
                            case = {"window": w, "steps": T, "channels": C, "links": L, "reflength": ref, "batch": bs}
                            da = array(x, IDS["str"](L), TIMES["minutes"](T), ("cml_id", "time", "channel_id"))
                            small(case, model, da, ref, bs, want)
                            ctx.step(n)
                            ctx.state((w, T, C, L, ref, bs))
                            ctx.trace(outcome=tuple(np.nan_to_num(want, nan=-1).ravel()))
        ctx.sample({"window": 3, "steps": 5, "channels": 2, "links": 2, "reflength": 4, "batch": 2})
    if ctx.family("sizes_and_shapes_of_predictions"):
        # predictions of every magnitude (also far below one) in any number of trailing dimensions of length one
        for T, L, bs, dims, sc in itertools.product((3, 4, 9), (1, 2), (1, 2, 3, 32), (0, 1, 2, 3), (1e-30, 1e-12, 1e-6, 1e-3, 1.0, 1e6, -1e-9)):
            if not ctx.mine():
                continue
            x = values(T, 2, L)
            k = coded(2, 3) * sc
            want = reference(x, k, 3, 2)
            case = {"steps": T, "links": L, "batch": bs, "trailing dimensions": dims, "scale": sc}
            small(case, Lin(k, keepdim=dims, window=3), array(x, IDS["str"](L), TIMES["minutes"](T), ("cml_id", "time", "channel_id")), 2, bs, want, atol=0)
            ctx.step(T * L)
            ctx.state((T, L, bs, dims, sc))
            ctx.trace(outcome=(T, L, bs, dims, sc))
    if ctx.family("sample_words"):
        w = 2
        for T in (2, 3, 4):
            for word in itertools.product((0.0, 3.0, np.nan), repeat=T):
                for word2 in itertools.product((1.0, np.nan), repeat=T):
                    if not ctx.mine():
                        continue
                    x = np.stack([np.array([word]).T, np.array([word2]).T], axis=2)
                    want = reference(x, coded(1, w), w, 2)
                    case = {"link 1": word, "link 2": word2}
                    da = array(x, IDS["int"](2), TIMES["gaps"](T), ("time", "channel_id", "cml_id"))
                    small(case, Lin(coded(1, w), window=w), da, 2, 3, want)
                    ctx.step(T)
                    ctx.state((word, word2).__repr__())
                    ctx.trace(outcome=repr(want))
    if ctx.family("labels_and_orders"):
        orders = [o for o in itertools.permutations(("time", "channel_id", "cml_id")) if o.index("time") < o.index("channel_id")]
        for o, idk, tk, L, rev, extra in itertools.product(orders, IDS, TIMES, (1, 2, 3), (False, True), (False, True)):
            if not ctx.mine():
                continue
            T, C, w = 6, 2, 3
            x = values(T, C, L)
            times = TIMES[tk](T)
            if rev:
                times = times[::-1].copy()
            want = reference(x, coded(C, w), w, 2)
            case = {"order": o, "ids": idk, "times": tk, "links": L, "descending": rev, "extra coordinate": extra}
            small(case, Lin(coded(C, w), window=w), array(x, IDS[idk](L), times, o, extra), 2, 4, want)
            ctx.step(T)
            ctx.state((o, idk, tk, L, rev, extra))
            ctx.trace(outcome=(o, idk, tk, L, rev))
        # channel before time cannot be used: refused or right, never silently wrong
        for o in itertools.permutations(("time", "channel_id", "cml_id")):
            if o in orders or not ctx.mine():
                continue
            x = values(6, 2, 2)
            da = array(x, IDS["str"](2), TIMES["minutes"](6), o)
            try:
                r = ri.run_inference(Lin(coded(2, 3), window=3), da, reflength=2)
                ds = ri.redistribute_results(r, da.to_dataset(name="TL"))
            except Exception:
                ds = None
            if ds is not None:
                check({"order": o}, ds, da, reference(x, coded(2, 3), 3, 2))
            ctx.step()
            ctx.trace(outcome=o)
    if ctx.family("many_windows"):
        # more windows than one batch, many links, levels with many digits, predictions of any size and sign incl. 0
        for T, L, w, bs, tk, sc in itertools.product((5, 100, 333), (1, 4, 40), (1, 5), (None, 1, 32, 64, 1000), ("minutes", "integers"), (1.0, 1e-3, -1.0)):
            if (bs == 1 and T * L > 500) or T * L > 2000 or not ctx.mine():
                continue
            ids = np.array(["link_%d" % ((i * 17) % 101) for i in range(L)])
            x = values(T, 2, L) / 97 * 63.2147 + np.arange(L) / 7
            x[::3] = 0.0
            k = (coded(2, w) / 50 + 0.123) * sc
            want = reference(x, k, w, 2)
            case = {"steps": T, "links": L, "window": w, "batch": bs, "times": tk, "scale": sc}
            small(case, Lin(k, window=w), array(x, ids, TIMES[tk](T), ("cml_id", "time", "channel_id")), 2, bs, want)
            ctx.step(T * L)
            ctx.state((T, L, w, bs, tk, sc))
            ctx.trace(outcome=(T, L, w, bs, tk, sc))
    if ctx.family("redistribute"):
        # all subsets / orders of results of a 2 x 3 grid, plus results of unknown links and times
        da = array(values(3, 1, 2), IDS["str"](2), TIMES["minutes"](3), ("cml_id", "time", "channel_id"))
        cells = list(itertools.product(range(3), range(2)))
        tt, ll = da.time.values, da.cml_id.values
        for r in range(0, 4):
            for seq in itertools.permutations(cells + ["link?", "time?"], r):
                if not ctx.mine():
                    continue
                want = np.full((3, 2), np.nan)
                ids, tm, pr = [], [], []
                for k, c in enumerate(seq):
                    pr.append([0.0, 0.5, -1.5][k])
                    if c == "link?":
                        ids.append("q")
                        tm.append(tt[0])
                    elif c == "time?":
                        ids.append(ll[1])
                        tm.append(tt[-1] + np.timedelta64(1, "D"))
                    else:
                        ids.append(ll[c[1]])
                        tm.append(tt[c[0]])
                        want[c] = [0.0, 0.5, -1.5][k]
                case = {"results": seq}
                ds = da.to_dataset(name="TL")
                res = {"predictions": np.array(pr, dtype=np.float32), "cml_ids": np.array(ids, dtype="U1"), "times": np.array(tm, dtype="datetime64[ns]")}
                ok, out = ctx.call(case, ri.redistribute_results, res, ds)
                if ok:
                    check(case, out, da, want)
                    if "predictions" in ds:
                        ctx.fail("the dataset handed over was changed", case)
                ctx.step(r)
                ctx.state(seq)
                ctx.trace(outcome=seq)
    W = 180
    if ctx.family("window_length"):
        # a model without window length is given windows of 180 steps; other lengths are taken from the model
        for win, T in itertools.product((None, 1, 7, 30, 179, 180, 181), (179, 180, 181, 183)):
            if not ctx.mine() or (win or 180) > T:
                continue
            w = win or 180
            k = np.array([[1 + (j * 7) % 61 for j in range(w)]], dtype=float)
            x = values(T, 1, 2)
            small({"window": win, "steps": T}, Lin(k, window=win), array(x, IDS["str"](2), TIMES["minutes"](T), ("cml_id", "time", "channel_id")), 60 if w > 60 else 2, 64, reference(x, k, w, 60 if w > 60 else 2))
            ctx.step(T)
            ctx.state((win, T))
            ctx.trace(outcome=(win, T))
    if ctx.family("complete_function"):
        import contextlib

        class Drop(torch.nn.Module):
            def __init__(self, weights):
                super().__init__()
                self.k = torch.nn.Parameter(torch.tensor(weights, dtype=torch.float32))
                self.d = torch.nn.Dropout(0.5)

            def forward(self, x):
                return self.d((x * self.k).sum(dim=2)).sum(dim=1)

        def coded180(C):
            return np.array([[1 + (j * 7 + c * 13) % 61 for j in range(W)] for c in range(C)], dtype=float)

        paths = {}
        for C in (1, 2):
            for name, cls in (("lin", Lin), ("drop", Drop)):
                p = os.path.join(tmp, "%s%d.pt" % (name, C))
                m = cls(coded180(C))
                m.train()
                torch.jit.script(m).save(p)
                paths[name, C] = p
        for T, C, L, name, ref, bs in itertools.product((180, 181, 184), (1, 2), (1, 2), ("lin", "drop"), (None, 2, 61, 180, 360), (None, 1, 3, 500)):
            if not ctx.mine():
                continue
            x = values(T, C, L)
            want = reference(x, coded180(C), W, 60 if ref is None else ref)
            da = array(x, IDS["str"](L), TIMES["minutes"](T), ("cml_id", "time", "channel_id"))
            before = da.copy(deep=True)
            case = {"steps": T, "channels": C, "links": L, "model": name, "reflength": ref, "batch": bs}
            kw = {}
            if ref is not None:
                kw["reflength"] = ref
            if bs is not None:
                kw["batch_size"] = bs
            with contextlib.redirect_stdout(devnull):
                ok, ds = ctx.call(case, ri.cnn_wd, paths[name, C], da, **kw)
            if ok:
                check(case, ds, da, want)
                if "TL" not in ds or not np.array_equal(ds["TL"].transpose(*da.dims).values, da.values):
                    ctx.fail("total loss is missing in the result or changed", case)
                if not da.identical(before):
                    ctx.fail("input was modified", case)
            ctx.step((T - W + 1) * L)
            ctx.state((T, C, L, name, ref, bs))
            ctx.trace(outcome=(T, C, L, name, ref))
        # impulse at every position: exactly the windows that contain it change
        T = 183
        for pos in range(0, T, 1 if ctx.thorough else 3):
            if not ctx.mine():
                continue
            x = np.zeros((T, 1, 2))
            x[pos, 0, 1] = 1.0
            da = array(x, IDS["str"](2), TIMES["minutes"](T), ("cml_id", "time", "channel_id"))
            case = {"impulse at": pos}
            with contextlib.redirect_stdout(devnull):
                ok, ds = ctx.call(case, ri.cnn_wd, paths["lin", 1], da)
            if ok:
                check(case, ds, da, reference(x, coded180(1), W, 60))
            ctx.step(T)
            ctx.trace(outcome=("impulse", pos))
    if ctx.family("model_sources") and ctx.shard == 0:
        import contextlib

        good = os.path.join(tmp, "good.pt")
        torch.jit.script(Lin(np.ones((1, 180)))).save(good)
        noext = os.path.join(tmp, "noext")
        torch.jit.script(Lin(np.ones((1, 180)))).save(noext)
        with open(good, "rb") as f:
            raw = f.read()
        os.chdir(tmp)
        with contextlib.redirect_stdout(devnull):
            for src in (good, noext, "good.pt", "./good.pt", "./noext"):
                ok, m = ctx.call(src, iu.get_model, src)
                if ok and (m.training or m.window_size != 180 or float(m(torch.ones(1, 1, 180))[0]) != 180.0):
                    ctx.fail("model loaded wrongly", src)
                ctx.trace(outcome=src)
                ctx.step()
            for k in range(0, len(raw), max(1, len(raw) // 40)):
                p = os.path.join(tmp, "bad.pt")
                with open(p, "wb") as f:
                    f.write(raw[:k])
                ctx.rejects({"model file cut after": k}, iu.get_model, p)
                ctx.trace(outcome=k)
                ctx.step()
            for src in ("missing.pt", "./missing.pt", "good", "good.pth", "good.pt2", "ftp:good", ""):
                ctx.rejects({"source": src}, iu.get_model, src)
                ctx.trace(outcome=src)
                ctx.step()
