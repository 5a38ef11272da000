"""C19: cache of downloaded TensorFlow model files."""
import itertools
import os

from ..httpd import body
from .cache_harness import Explorer, content

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "all sequences of 3 (thorough 4) of 14 operations (download, forced download, publish a new version, six transfer faults) on two "
    "addresses with the same file name vs a dict model; transfers ending after every sampled byte count incl. all block borders; process "
    "death at every source line of a download; disk limits; all schedules of two threads with at most two preemptions; address pairs; "
    "all combinations of local/remote architecture and weights, cache directory, cached/forced, transfer fault; all sequences of 3 "
    "(thorough 4) of 5 operations (classify, classify with forced download, publish, fault in either file) through the complete function"
)
ASSUMPTIONS = [
    "the server announces the content length (a silently shortened body without length cannot be noticed)",
    "process death, not power loss: completed system calls survive",
    "scheduling points are the source lines of the cache code and of the standard library's download and file helpers",
]


def explore(ctx):
    from pycomlink.processing.tensorflow_utils import inference_utils as iu

    class A:
        ls = None
        clear = None

        @staticmethod
        def get(url, d, force):
            if force:
                return iu.download_and_cache(url, d, force_download=True)
            return iu.download_and_cache(url, cache_dir=d)

    e = Explorer(ctx, A, ".weights.h5")
    big = ctx.thorough
    if ctx.family("operation_histories"):
        e.histories(4 if big else 3)
    if ctx.family("incomplete_transfers"):
        e.truncations(stride=0 if big else 1)
    if ctx.family("crash_points"):
        e.crashes()
    if ctx.family("disk_limits"):
        e.disk_limits()
    if ctx.family("thread_schedules"):
        e.schedules(stride=1 if big else 2)
    if ctx.family("distinct_addresses"):
        e.distinct_urls()
    if ctx.family("resolve_model_files"):
        resolve(ctx, e, iu)
    if ctx.family("classification_with_addresses"):
        classify(ctx, e)
    e.s.close()


def resolve(ctx, e, iu):
    s = e.s
    size = 9000
    local = {}
    for k, name in (("json", "arch.json"), ("weights", "w.weights.h5")):
        local[k] = os.path.join(e.tmp, name)
        with open(local[k], "wb") as f:
            f.write(b"local " + k.encode())
    # (architecture, weights): local path or address; also the same file name at two addresses, with https-like local names
    remote_pairs = [("/q/m.json", "/q/m.weights.h5"), ("/q1/model", "/q2/model")]
    dirs = [None, "cache", "deep/er/cache", "ABS"]
    for (rj, rw), jr, wr, d, fault in itertools.product(remote_pairs, (0, 1), (0, 1), dirs, ("ok", "trunc:5000", "status:404", "trunc:0")):
        for fault_on in ("json", "weights"):
            if not ctx.mine():
                continue
            wd = e.fresh()
            os.makedirs(wd)
            old = os.getcwd()
            case = {"architecture": rj if jr else "local", "weights": rw if wr else "local", "cache dir": d, "fault": fault, "fault on": fault_on}
            try:
                os.chdir(wd)
                absd = os.path.join(wd, "absolute") if d == "ABS" else d
                kw = {} if d is None else {"cache_dir": absd}
                cdir = os.path.realpath(os.path.join(wd, absd or "model_cnn"))
                src = {"json": s.url(rj) if jr else local["json"], "weights": s.url(rw) if wr else local["weights"]}
                rem = {"json": rj if jr else None, "weights": rw if wr else None}

                def run(**k2):
                    return e.quiet(iu.resolve_model_paths, src["json"], src["weights"], **kw, **k2)

                def verify(res, ver):
                    for k, p in zip(("json", "weights"), res):
                        if not isinstance(p, str):
                            ctx.fail("path is not text: %r" % (p,), case)
                        if rem[k] is None:
                            if os.path.realpath(p) != os.path.realpath(local[k]):
                                ctx.fail("local %s file replaced by %s" % (k, p), case)
                        elif content(p) != body(rem[k], ver[k], size):
                            ctx.fail("%s file has wrong content" % k, case)
                        elif os.path.dirname(os.path.realpath(p)) != cdir:
                            ctx.fail("%s file is not in the cache directory: %s" % (k, p), case)

                ver = {"json": 0, "weights": 0}
                hit = rem[fault_on] is not None and fault != "ok"
                for k in rem:
                    if rem[k]:
                        s.put(rem[k], 0, size, [fault] if (hit and k == fault_on) else [])
                if hit:
                    try:
                        run()
                        ctx.fail("failed transfer was not reported", case)
                    except Exception:
                        pass
                    for k in rem:
                        if rem[k]:
                            s.put(rem[k], 0, size)
                ok, r = ctx.call(case, run)
                if ok:
                    verify(r, ver)
                # newer versions exist, but the cache is used
                for k in rem:
                    if rem[k]:
                        s.put(rem[k], 1, size)
                n = [s.count(p) for p in rem.values() if p]
                ok, r = ctx.call(case, run)
                if ok:
                    verify(r, ver)
                if n != [s.count(p) for p in rem.values() if p]:
                    ctx.fail("downloaded again although cached", case)
                # a forced download that fails keeps the older pair
                if hit:
                    s.put(rem[fault_on], 1, size, [fault])
                    try:
                        run(force_download=True)
                        ctx.fail("failed forced transfer was not reported", case)
                    except Exception:
                        pass
                    other = "weights" if fault_on == "json" else "json"
                    ok, r = ctx.call(case, run)
                    if ok:
                        got = {}
                        for k, p in zip(("json", "weights"), r):
                            if rem[k]:
                                c = content(p)
                                got[k] = [v for v in (0, 1) if c == body(rem[k], v, size)]
                                if not got[k]:
                                    ctx.fail("%s file is incomplete after a failed forced download" % k, case)
                        if got.get(fault_on) not in (None, [0]) :
                            ctx.fail("version that was never completely received is used", case)
                    s.put(rem[fault_on], 1, size)
                ok, r = ctx.call(case, run, force_download=True)
                if ok:
                    verify(r, {"json": 1, "weights": 1})
                # local sources are never modified
                for k in local:
                    if content(local[k]) != b"local " + k.encode():
                        ctx.fail("local %s file was modified" % k, case)
                ctx.step(5)
                ctx.state((rj, jr, wr, d, fault, fault_on))
                ctx.trace(outcome=(rj, jr, wr, d, fault, fault_on))
            finally:
                os.chdir(old)
                e.done(wd)
    # what counts as an address
    for p, want in [("http://a/b", True), ("https://a/b", True), ("a.json", False), ("/http://x", False), ("ftp://x/y", False), ("./https://z", False), ("httpx/y.json", False), ("model_http://", False)]:
        ok, r = ctx.call(p, iu.is_url, p)
        if ok and bool(r) != want:
            ctx.fail("%r is%s an address" % (p, "" if want else " not"), p)
        ctx.step()
        ctx.trace(outcome=p)


def classify(ctx, e):
    """histories of the complete classification function with served model files; the result shows which versions were used"""
    import numpy as np
    import xarray as xr

    todo = [q for q in itertools.product(("use", "force", "publish", "bad json", "bad weights"), repeat=4 if ctx.thorough else 3) if any(o in ("use", "force") for o in q) and ctx.mine()]
    if not todo:
        return
    import tensorflow as tf

    tf.config.threading.set_intra_op_parallelism_threads(1)
    tf.config.threading.set_inter_op_parallelism_threads(1)
    from pycomlink.processing.tensorflow_utils.run_inference import wet_dry_1d_cnn

    K, s = tf.keras, e.s
    acts = ["sigmoid", "tanh", "softplus", "linear", "exponential"]
    bias = [0.25, 0.5, 0.75, 1.125, 1.5]
    fun = {"sigmoid": lambda v: 1 / (1 + np.exp(-v)), "tanh": np.tanh, "softplus": lambda v: np.log1p(np.exp(v)), "linear": lambda v: v, "exponential": np.exp}
    files = []
    for v in range(5):
        m = K.Sequential([K.layers.Input((2, 2)), K.layers.Flatten(), K.layers.Dense(1, activation=acts[v])])
        m.layers[-1].set_weights([np.zeros((4, 1), np.float32), np.array([bias[v]], np.float32)])
        fj, fw = os.path.join(e.tmp, "v%d.json" % v), os.path.join(e.tmp, "v%d.weights.h5" % v)
        with open(fj, "w") as f:
            f.write(m.to_json())
        m.save_weights(fw)
        files.append({"json": fj, "weights": fw})
    t = np.datetime64("2020-01-01", "ns") + np.arange(3) * np.timedelta64(60, "s")
    ds = xr.Dataset({k: (("cml_id", "time"), np.arange(3.0)[None] + q) for q, k in enumerate(("tl1", "tl2"))}, coords={"cml_id": ["a"], "time": t})
    P = {"json": "/cl/m.json", "weights": "/cl/m.weights.h5"}
    old = os.getcwd()
    for seq in todo:
        wd = e.fresh()
        os.makedirs(wd)
        os.chdir(wd)
        try:
            cur = 0
            fault = {"json": [], "weights": []}
            have = {"json": None, "weights": None}  # versions that may be in the cache; None: no entry
            serve = lambda: [s.put(P[k], 0, 0, list(fault[k]), file=files[cur][k]) for k in P]
            serve()
            # every history ends with two uses without new faults
            for n, op in enumerate(seq + ("use", "use")):
                case = {"history": seq, "operation": n}
                if n == len(seq):
                    fault = {"json": [], "weights": []}
                    serve()
                if op == "publish":
                    cur += 1
                    serve()
                    continue
                if op.startswith("bad"):
                    fault[op[4:]] = ["trunc:%d" % (os.path.getsize(files[cur][op[4:]]) // 2)]
                    serve()
                    continue
                force = op == "force"
                count = {k: s.count(P[k]) for k in P}
                kw = {"force_download": True} if force else {}
                need = {k: force or have[k] is None for k in P}
                fails = [k for k in P if need[k] and fault[k]]
                unsure = [k for k in P if have[k] is not None and None in have[k]]
                try:
                    r = e.quiet(wet_dry_1d_cnn, ds, seq_len=2, json_url=s.url(P["json"]), weights_url=s.url(P["weights"]), cache_dir=wd + "/c", return_ds=False, **kw)
                    err = None
                except Exception as x:
                    r, err = None, x
                used = {k: s.count(P[k]) - count[k] for k in P}
                for k in P:
                    if used[k]:
                        fault[k] = []
                if fails or (err is not None and any(fault_k for fault_k in unsure)):
                    if err is None:
                        ctx.fail("failed transfer was not reported", case)
                    for k in P:
                        prev = have[k] if have[k] is not None else {None}
                        have[k] = set(prev) if k in fails else set(prev) | {cur}
                        if have[k] == {None}:
                            have[k] = None
                    continue
                if err is not None:
                    ctx.fail("unexpected %s: %s" % (type(err).__name__, err), case)
                    break
                y = float(r.values[1, 0])
                okv = {k: {cur} if need[k] else {(cur if q is None else q) for q in have[k]} for k in P}
                match = [(a, b) for a in okv["json"] for b in okv["weights"] if abs(fun[acts[a]](bias[b]) - y) < 1e-4]
                if not match:
                    ctx.fail("result %r does not belong to architecture %r with weights %r" % (y, sorted(okv["json"]), sorted(okv["weights"])), case)
                    break
                for k in P:
                    if not need[k] and None not in have[k] and used[k]:
                        ctx.fail("%s downloaded again although cached" % k, case)
                have = {"json": {match[0][0]}, "weights": {match[0][1]}}
            ctx.step(len(seq) + 2)
            ctx.state(seq)
            ctx.trace(outcome=seq)
        finally:
            os.chdir(old)
            e.done(wd)
