"""C18: cache of downloaded PyTorch models."""
import os

from ..core import nan
from .cache_harness import Explorer, content

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "all sequences of 3 (thorough 4) of 15 operations (download, forced download, publish a new version, six transfer faults, clear) on two "
    "addresses with the same file name vs a dict model; transfers ending after every sampled byte count incl. all block borders; process "
    "death at every source line of a download; disk limits; all schedules of two threads with at most two preemptions; address pairs; local files with address-like names"
)
ASSUMPTIONS = [
    "the server announces the content length (a silently shortened body without length cannot be noticed)",
    "process death, not power loss: completed system calls survive",
    "scheduling points are the source lines of the cache code and of the standard library's download and file helpers",
]


def explore(ctx):
    os.environ["HOME"] = os.path.join(os.getcwd(), "home")
    os.makedirs(os.environ["HOME"], exist_ok=True)
    from pycomlink.processing.pytorch_utils import inference_utils as iu

    class A:
        @staticmethod
        def get(url, d, force):
            if force:
                return iu.download_and_cache_model(url, cache_dir=d, force_download=True)
            return iu.download_and_cache_model(url, d)

        @staticmethod
        def ls(d):
            return iu.list_cached_models(d)

        @staticmethod
        def clear(d):
            return iu.clear_model_cache(d)

    e = Explorer(ctx, A, ".pt")
    big = ctx.thorough
    if ctx.family("operation_histories"):
        e.histories(4 if big else 3)
    if ctx.family("incomplete_transfers"):
        e.truncations(stride=0 if big else 1)
    if ctx.family("crash_points"):
        e.crashes()
    if ctx.family("disk_limits"):
        e.disk_limits()
    if ctx.family("thread_schedules"):
        e.schedules(stride=1 if big else 2)
    if ctx.family("distinct_addresses"):
        e.distinct_urls()
    if ctx.family("listing_and_defaults") and ctx.shard == 0:
        s = e.s
        s.put("/z/m.pt", 1, 500)
        home = os.path.join(os.environ["HOME"], ".cml_wd_pytorch", "models")
        ok, l = ctx.call("list without cache directory", iu.list_cached_models)
        if ok and list(l) != []:
            ctx.fail("listing of a missing cache: %r" % (l,), "default directory")
        ctx.call("clear without cache directory", e.quiet, iu.clear_model_cache)
        ok, r = ctx.call("default directory", e.quiet, iu.download_and_cache_model, s.url("/z/m.pt"))
        if ok and os.path.dirname(os.path.realpath(r)) != os.path.realpath(home):
            ctx.fail("default cache directory is %s" % r, "default directory")
        ok, l = ctx.call("list", iu.list_cached_models)
        if ok and [os.path.realpath(x) for x in l] != [os.path.realpath(r)]:
            ctx.fail("listing %r" % (l,), "default directory")
        ok, l = ctx.call("list other suffix", iu.list_cached_models, suffix=".h5")
        if ok and list(l) != []:
            ctx.fail("listing with other suffix %r" % (l,), "default directory")
        ctx.call("clear", e.quiet, iu.clear_model_cache)
        if os.path.exists(r):
            ctx.fail("entry survives clearing", "default directory")
        # clearing also removes what other programs or interrupted downloads left there
        os.makedirs(home, exist_ok=True)
        for n in ("0a1b.part", "model_x.pt", "weights.h5", "README"):
            with open(os.path.join(home, n), "w") as f:
                f.write("x")
        for suffix, files in ((".pt", ["model_x.pt"]), (".h5", ["weights.h5"]), (".part", ["0a1b.part"])):
            ok, l = ctx.call("list", iu.list_cached_models, suffix=suffix)
            if ok and sorted(os.path.basename(str(x)) for x in l) != files:
                ctx.fail("listing with suffix %s: %r" % (suffix, l), "default directory")
        ctx.call("clear left-overs", e.quiet, iu.clear_model_cache)
        if [n for n in os.listdir(home) if not n.startswith(".")] if os.path.isdir(home) else []:
            ctx.fail("files survive clearing: %s" % os.listdir(home), "default directory")
        # many entries
        for count in (70, 300, 1100):
            os.makedirs(home, exist_ok=True)
            names = ["model_%05d.pt" % i for i in range(count)]
            for n in names:
                with open(os.path.join(home, n), "w") as f:
                    f.write("x")
            ok, l = ctx.call("list", iu.list_cached_models)
            if ok and sorted(os.path.basename(str(x)) for x in l) != names:
                ctx.fail("listing of %d entries has %d" % (count, len(l)), "default directory")
            ctx.call("clear", e.quiet, iu.clear_model_cache)
            if os.path.isdir(home) and [n for n in os.listdir(home) if not n.startswith(".")]:
                ctx.fail("files survive clearing of %d entries" % count, "default directory")
        # nested directory that does not exist yet, tilde in the name
        ok, r = ctx.call("nested", e.quiet, iu.download_and_cache_model, s.url("/z/m.pt"), "~/some/deep/dir")
        if ok and os.path.dirname(os.path.realpath(r)) != os.path.realpath(os.path.join(os.environ["HOME"], "some/deep/dir")):
            ctx.fail("user directory not expanded: %s" % r, "nested")
        ctx.step(8)
        ctx.trace(8)
    if ctx.family("load_through_cache") and ctx.shard in (0, 1):
        import torch

        class M(torch.nn.Module):
            def __init__(self, k):
                super().__init__()
                self.k = torch.nn.Parameter(torch.tensor(float(k)))

            def forward(self, x):
                return x.sum(dim=(1, 2)) * self.k

        files = []
        for k in (2, 3):
            f = os.path.join(e.tmp, "m%d.pt" % k)
            torch.jit.script(M(k)).save(f)
            files.append(f)
        x = torch.ones(1, 1, 4)

        def val(m):
            return float(m(x)[0])

        url = e.s.url("/tm/net.pt")
        size = os.path.getsize(files[0])
        for fault in ["status:404", "close"] + ["trunc:%d" % (size * k // 8) for k in range(8)]:
            if not ctx.mine() and ctx.shard > 1:
                continue
            case = {"fault": fault}
            e.quiet(iu.clear_model_cache)
            e.s.put("/tm/net.pt", 0, 0, [fault], file=files[0])
            try:
                e.quiet(iu.get_model, url)
                ctx.fail("failed transfer not reported", case)
            except Exception:
                pass
            ok, m = ctx.call(case, e.quiet, iu.get_model, url)
            if ok and val(m) != 8.0:
                ctx.fail("wrong model %r" % val(m), case)
            e.s.put("/tm/net.pt", 0, 0, [], file=files[1])
            ok, m = ctx.call(case, e.quiet, iu.get_model, url)
            if ok and val(m) != 8.0:
                ctx.fail("cached model not used: %r" % val(m), case)
            e.s.put("/tm/net.pt", 0, 0, [fault], file=files[1])
            try:
                e.quiet(iu.get_model, url, True)
                ctx.fail("failed forced transfer not reported", case)
            except Exception:
                pass
            ok, m = ctx.call(case, e.quiet, iu.get_model, url)
            if ok and val(m) != 8.0:
                ctx.fail("older model lost: %r" % val(m), case)
            ok, m = ctx.call(case, e.quiet, iu.get_model, url, force_download=True)
            if ok and val(m) != 12.0:
                ctx.fail("forced download not used: %r" % val(m), case)
            # the complete function delivers the predictions of the cached or, if forced, of the served model
            import numpy as np
            import xarray as xr

            from pycomlink.processing.pytorch_utils.run_inference import cnn_wd

            da = xr.DataArray(np.ones((1, 182, 1)), dims=("cml_id", "time", "channel_id"), coords={"cml_id": ["a"], "time": np.datetime64("2020-01-01", "ns") + np.arange(182) * np.timedelta64(60, "s")})
            e.s.put("/tm/net.pt", 0, 0, [], file=files[0])
            for kw, k in (({}, 3), ({"force_download": False}, 3), ({"force_download": True}, 2), ({}, 2)):
                ok, r = ctx.call(case, e.quiet, cnn_wd, url, da, **kw)
                if ok and np.nanmax(r["predictions"].values) != 180.0 * k:
                    ctx.fail("predictions of another model: %r" % np.nanmax(r["predictions"].values), dict(case, **kw))
            ok, m = ctx.call(case, e.quiet, iu.get_model, files[0])
            if ok and val(m) != 8.0:
                ctx.fail("local model wrong", case)
            ctx.step(6)
            ctx.trace(outcome=fault)
        # local files with names that resemble addresses are loaded from where they are, nothing is fetched or cached
        old = os.getcwd()
        wd = e.fresh()
        os.makedirs(wd)
        os.chdir(wd)
        try:
            for name in ("net.pt", "httpnet.pt", "https-models/net.pt", "./http/net.pt", "models/https.pt", "sub/net", os.path.join(wd, "abs.pt"), "http:/net.pt", "a b/nét.pt", "sub/net.pth.pt"):
                if os.path.dirname(name):
                    os.makedirs(os.path.dirname(name), exist_ok=True)
                for k in (0, 1):
                    with open(files[k], "rb") as src, open(name, "wb") as dst:
                        dst.write(src.read())
                    e.quiet(iu.clear_model_cache)
                    ok, m = ctx.call({"local file": name}, e.quiet, iu.get_model, name)
                    if ok and val(m) != 4.0 * (2 + k):
                        ctx.fail("model of another file: %r" % val(m), {"local file": name, "version": k})
                    if list(iu.list_cached_models()):
                        ctx.fail("a local file was put into the cache", {"local file": name})
                    ctx.step()
                    ctx.trace(outcome=(name, k))
            for name in ("net.pth", "net.pt2", "net", ""):
                ctx.rejects(name, e.quiet, iu.get_model, name)
                ctx.trace(outcome=name)
        finally:
            os.chdir(old)
            e.done(wd)
    e.s.close()
