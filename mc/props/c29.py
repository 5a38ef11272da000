"""C29: nothing is installed, run or fetched unless requested."""
import contextlib
import importlib
import importlib.abc
import itertools
import json
import os
import subprocess
import sys
import tempfile
import types

MODES = ["nojit"]
SHARDS = 8
BOUNDS = (
    "all sequences of 3 (thorough 4) TensorFlow requests (with/without permission argument, direct or through the classification function) x "
    "7 values of the permission variable x TensorFlow present/absent/installable/not installable x GPU tool present/absent, with process "
    "creation replaced by a recorder; imports of the package with TensorFlow present/absent; 48 public operations under an audit hook"
)
ASSUMPTIONS = [
    "process creation is observed at the interpreter's primitives (subprocess, os.system, exec, spawn, fork); these are stand-ins that only record",
    "asking a driver tool for the presence of a GPU is not an installation",
]


class Recorder:
    """replaces every way to start a process; nothing is really started"""

    def __init__(self, gpu, pip_ok, on_install):
        self.cmds = []
        self.gpu, self.pip_ok, self.on_install = gpu, pip_ok, on_install

    def handle(self, cmd):
        words = cmd.split() if isinstance(cmd, str) else [str(c) for c in cmd]
        self.cmds.append(words)
        text = " ".join(words)
        if "nvidia-smi" in text:
            if not self.gpu:
                raise FileNotFoundError("nvidia-smi")
            return 0, b"GPU 0"
        if "install" in words:
            if not self.pip_ok:
                return 1, b"no network"
            self.on_install(words)
            return 0, b"ok"
        return 1, b""

    def popen(rec):
        class P:
            def __init__(self, args, *a, **k):
                self.args = args
                self.returncode, self.out = rec.handle(args)
                self.pid = 4242
                self.stdin = self.stdout = self.stderr = None
                self.text = bool(k.get("text") or k.get("universal_newlines"))

            def communicate(self, *a, **k):
                return (self.out.decode() if self.text else self.out), ("" if self.text else b"")

            def wait(self, *a, **k):
                return self.returncode

            def poll(self):
                return self.returncode

            def kill(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        return P


class Blocker(importlib.abc.MetaPathFinder):
    def __init__(self, present):
        self.present = present
        self.module = None

    def find_spec(self, name, path=None, target=None):
        if name == "tensorflow" or name.startswith("tensorflow."):
            if not self.present():
                raise ImportError("No module named 'tensorflow' (blocked)")
        if name == "pip" or name.startswith("pip."):
            raise ImportError("pip must not be used inside the process")
        return None


def fake_tf():
    m = types.ModuleType("tensorflow")
    m.config = types.SimpleNamespace(list_physical_devices=lambda kind=None: [])
    m.fake = True
    return m


@contextlib.contextmanager
def patched(rec):
    names = ["system", "execv", "execve", "execvp", "execvpe", "execl", "execlp", "spawnv", "spawnve", "spawnvp", "spawnl", "spawnlp", "posix_spawn", "posix_spawnp", "fork", "popen"]
    old = {n: getattr(os, n) for n in names if hasattr(os, n)}
    oldp = subprocess.Popen

    def mk(n):
        def f(*a, **k):
            flat = []
            for x in a:
                flat += [x] if isinstance(x, str) else list(x) if isinstance(x, (list, tuple)) else []
            return rec.handle(["<%s>" % n] + flat)[0]

        return f

    subprocess.Popen = rec.popen()
    for n in old:
        setattr(os, n, mk(n))
    try:
        yield
    finally:
        subprocess.Popen = oldp
        for n in old:
            setattr(os, n, old[n])


def explore(ctx):
    devnull = open(os.devnull, "w")
    if ctx.family("request_histories"):
        with contextlib.redirect_stdout(devnull), contextlib.redirect_stderr(devnull):
            histories(ctx)
    if ctx.family("imports"):
        imports(ctx)
    if ctx.family("operations_under_audit") and ctx.shard == 0:
        audit(ctx)


def histories(ctx):
    import numpy as np
    import xarray as xr

    from pycomlink.processing.tensorflow_utils import inference_utils, lazy_tf, run_inference

    ds = xr.Dataset({v: (("cml_id", "time"), np.ones((1, 3))) for v in ("tl1", "tl2")}, coords={"cml_id": ["a"], "time": np.arange(3)})
    REQ = [("get", None), ("get", False), ("get", True), ("ensure", None), ("ensure", True), ("classify", None), ("classify", True)]
    ENV = [None, "", "0", "1", "true", "yes", "01"]
    SHORT = [" 1", "1 ", "1\n", "1.0", "+1", "11", "10", "-1", "2", "on", "y", "True", "TRUE", "1;", "no", "false", "None"]
    depth = 4 if ctx.thorough else 3
    for env, present, pip_ok, gpu in itertools.product(ENV + SHORT, (True, False), (True, False), (True, False)):
        if present and not (pip_ok and not gpu):
            continue
        for seq in itertools.product(REQ, repeat=1 if env in SHORT else depth):
            if not ctx.mine():
                continue
            state = {"tf": present}
            case = {"variable": env, "TensorFlow present": present, "installation works": pip_ok, "GPU": gpu, "requests": seq}
            mod = fake_tf()
            rec = Recorder(gpu, pip_ok, lambda w: (state.update(tf=True), sys.modules.__setitem__("tensorflow", mod)))
            blk = Blocker(lambda: state["tf"])
            sys.modules.pop("tensorflow", None)
            if present:
                sys.modules["tensorflow"] = mod
            sys.meta_path.insert(0, blk)
            if env is None:
                os.environ.pop("ALLOW_TF_AUTOINSTALL", None)
            else:
                os.environ["ALLOW_TF_AUTOINSTALL"] = env
            have = present  # model state
            try:
                with patched(rec):
                    # a new session: whatever the modules remember is forgotten
                    importlib.reload(lazy_tf)
                    importlib.reload(inference_utils)
                    importlib.reload(run_inference)
                    if rec.cmds:
                        ctx.fail("importing ran %r" % (rec.cmds,), case)
                    for kind, auto in seq:
                        rec.cmds.clear()
                        kw = {} if auto is None else {"auto_install": auto}
                        err = res = None
                        try:
                            if kind == "get":
                                res = lazy_tf.get_tf(**kw)
                            elif kind == "ensure":
                                res = lazy_tf.ensure_tensorflow_installed(**kw)
                            else:
                                # a missing model file ends the function after TensorFlow was requested
                                run_inference.wet_dry_1d_cnn(ds, json_url="/nonexistent/m.json", weights_url="/nonexistent/m.weights.h5", seq_len=2, **({} if auto is None else {"install_tensorflow": auto}))
                        except Exception as e:
                            err = e
                        ctx.step()
                        allowed = bool(auto) or env == "1"
                        installs = [c for c in rec.cmds if "nvidia-smi" not in " ".join(c)]
                        if have or not allowed:
                            if installs:
                                ctx.fail("command was run without being requested: %r" % (installs,), case)
                                break
                        else:
                            if len(installs) != 1 or "install" not in installs[0] or "pip" not in installs[0] or installs[0][0] != sys.executable:
                                ctx.fail("requested installation ran %r" % (installs,), case)
                                break
                            pk = [w for w in installs[0] if "tensorflow" in w]
                            if len(pk) != 1 or ("cuda" in pk[0]) != gpu:
                                ctx.fail("installs %r with GPU=%r" % (pk, gpu), case)
                                break
                            if pip_ok:
                                have = True
                        if have:
                            if kind == "classify":
                                if not isinstance(err, OSError):
                                    ctx.fail("classification failed with %r" % (err,), case)
                                    break
                            elif err is not None or res is not mod:
                                ctx.fail("TensorFlow was not returned (%r)" % (err,), case)
                                break
                        else:
                            if err is None or isinstance(err, OSError):
                                ctx.fail("missing TensorFlow was not reported", case)
                                break
                            if not allowed and not isinstance(err, ImportError):
                                ctx.fail("missing TensorFlow was reported as %r" % (err,), case)
                                break
                        ctx.state((env, have, gpu, pip_ok, kind, auto))
                ctx.trace(outcome=(env, present, pip_ok, gpu, seq))
            finally:
                sys.meta_path.remove(blk)
                sys.modules.pop("tensorflow", None)
                os.environ.pop("ALLOW_TF_AUTOINSTALL", None)
    ctx.sample({"variable": "0", "TensorFlow present": False, "requests": [["get", None], ["ensure", True], ["get", None]]})


CHILD = r'''
import importlib.abc, json, sys, os
events = []
def hook(ev, args):
    if ev in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "socket.connect", "socket.getaddrinfo", "urllib.Request"):
        events.append((ev, repr(args)[:200]))
block = set(%r)
class B(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in block:
            raise ModuleNotFoundError("No module named " + name)
if block:
    import importlib.util
    orig = importlib.util.find_spec
    importlib.util.find_spec = lambda n, p=None: None if n.split(".")[0] in block else orig(n, p)
    sys.meta_path.insert(0, B())
import numpy, pandas, xarray, scipy, sklearn, matplotlib.pyplot, shapely, poligrain, numba, pykrige  # not the subject
def tree():
    return set(os.path.relpath(os.path.join(r, n), ".") for r, ds, fs in os.walk(".") for n in ds + fs)
before = tree()
sys.addaudithook(hook)
err = []
for m in %r:
    try:
        __import__(m)
    except BaseException as e:
        err.append((m, type(e).__name__, str(e)[:200]))
print("RESULT" + json.dumps({"events": events, "errors": err, "files": sorted(x for x in tree() - before if "__pycache__" not in x), "loaded": [b for b in ("torch", "tensorflow") if b in sys.modules]}))
'''


def imports(ctx):
    base = ["pycomlink", "pycomlink.processing.k_R_relation", "pycomlink.processing.nearby_rain_retrival", "pycomlink.processing.wet_dry.nearby_wetdry", "pycomlink.processing.wet_dry.mlp", "pycomlink.io.cmlh5_to_xarray"]
    tfm = ["pycomlink.processing.tensorflow_utils"]
    tom = ["pycomlink.processing.pytorch_utils"]
    for env in (None, "1"):
        for block, mods, must_fail in (([], base + tfm + tom, []), (["tensorflow"], base + tfm, []), (["torch"], base + tom, tom), (["torch", "tensorflow"], base + tfm, [])):
            if not ctx.mine():
                continue
            d = tempfile.mkdtemp()
            e = dict(os.environ)
            e.pop("ALLOW_TF_AUTOINSTALL", None)
            if env:
                e["ALLOW_TF_AUTOINSTALL"] = env
            # home and temporary directory are below the working directory: files created there are seen as well
            for n in ("HOME", "TMPDIR", "XDG_CACHE_HOME", "XDG_CONFIG_HOME"):
                e[n] = os.path.join(d, n.lower())
                os.mkdir(e[n])
            p = subprocess.run([sys.executable, "-c", CHILD % (block, mods)], cwd=d, env=e, capture_output=True, text=True, timeout=300)
            case = {"not installed": block, "import": mods, "variable": env}
            line = [l for l in p.stdout.splitlines() if l.startswith("RESULT")]
            if not line:
                ctx.fail("import ended the interpreter: %s" % (p.stderr[-400:],), case)
                continue
            r = json.loads(line[0][6:])
            # torch / tensorflow themselves may look at the platform when they are imported
            own = [x for x in r["events"] if "pip" in x[1] or "install" in x[1] or x[0] in ("socket.connect", "socket.getaddrinfo", "urllib.Request", "os.system")]
            rest = [x for x in r["events"] if "uname" not in x[1]]  # the standard library's platform module
            if own or (not r["loaded"] and rest):
                ctx.fail("importing ran or contacted %r" % (own or rest,), case)
            bad = [x for x in r["errors"] if x[0] not in must_fail]
            if bad:
                ctx.fail("import failed: %r" % (bad,), case)
            if [m for m in must_fail if m not in [x[0] for x in r["errors"]]]:
                ctx.fail("import without torch was not reported", case)
            if r["files"]:
                ctx.fail("importing created %r" % (r["files"],), case)
            ctx.step(len(mods))
            ctx.state((tuple(block), env))
            ctx.trace(outcome=(tuple(block), env))


def audit(ctx):
    from .api_ops import registry

    tmp = tempfile.mkdtemp()
    devnull = open(os.devnull, "w")
    with contextlib.redirect_stdout(devnull), contextlib.redirect_stderr(devnull):
        ops = registry(tmp)
        rec = []
        on = [False]
        # opening the input file for reading is the only file access
        WATCH = ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "socket.connect", "socket.getaddrinfo", "urllib.Request", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "shutil.rmtree")

        def hook(ev, args):
            if on[0] and ev in WATCH:
                rec.append((ev, repr(args)[:200]))

        for name, fn, vs in ops:
            for v in vs:
                a, k = v()
                fn(*a, **k)
        sys.addaudithook(hook)
        for name, fn, vs in ops:
            for i, v in enumerate(vs):
                a, k = v()
                rec.clear()
                on[0] = True
                ok, r = ctx.call({"operation": name, "arguments": i}, fn, *a, **k)
                on[0] = False
                if rec:
                    ctx.fail("%s: %r" % (name, rec[:3]), {"operation": name, "arguments": i})
                ctx.step()
                ctx.state((name, i))
                ctx.trace(outcome=(name, i))
