"""C28: functions leave their arguments alone and do not influence each other."""
import contextlib
import copy
import inspect
import os
import pickle
import random
import sys
import tempfile
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from .api_ops import Obj, freeze, registry

MODES = ["nojit", "jit"]
SHARDS = {"nojit": 7, "jit": 1}
BOUNDS = (
    "48 public operations: all ordered pairs (A, B, A), every result compared with that of a fresh process in which nothing was called before; "
    "every operation with one argument replaced or changed (all arguments, both orders) and with argument objects overwritten in place; results "
    "and arguments compared after every call; interruption of each operation at every executed source line of the package by a complete "
    "call of the same function with other arguments (one preemption), thorough also by every other operation at the first lines"
)
ASSUMPTIONS = [
    "results may share memory with arguments (labelled arrays are passed through); files and documented cache directories are not arguments",
    "the generator of torch itself advances when its data loader is used (a documented property of torch); its seed and settings are compared",
    "objects with documented state (interpolators, validators) are created per operation here; their histories are explored under other properties",
]


def same(a, b):
    if type(a) is not type(b) and not (np.isscalar(a) and np.isscalar(b)):
        return False
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind in "fc":
            return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True))
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return bool(np.array_equal(a, b))
    if isinstance(a, xr.DataArray):
        return a.dims == b.dims and a.name == b.name and same(a.values, b.values) and set(a.coords) == set(b.coords) and all(same(a[c].values, b[c].values) for c in a.coords)
    if isinstance(a, xr.Dataset):
        return set(a.variables) == set(b.variables) and all(a[v].dims == b[v].dims and same(a[v].values, b[v].values) for v in a.variables)
    if isinstance(a, pd.DataFrame):
        return a.index.equals(b.index) and list(a.columns) == list(b.columns) and all(same(np.asarray(a[c]), np.asarray(b[c])) for c in a.columns)
    if isinstance(a, pd.Series):
        return a.index.equals(b.index) and same(np.asarray(a), np.asarray(b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, complex, np.floating)):
        return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True))
    if isinstance(a, Obj):
        return freeze(a) == freeze(b)
    try:
        return bool(a == b)
    except Exception:
        return repr(a) == repr(b)


def world():
    s = np.random.get_state()
    return {
        "floating point error handling": np.geterr(),
        "random numbers (numpy)": (s[0], s[1].tobytes(), s[2:]),
        "random numbers": random.getstate(),
        "working directory": os.getcwd(),
        "files in the working directory": tuple(sorted(os.listdir("."))),
        "environment": tuple(sorted(os.environ.items())),
        "warning filters": tuple(map(repr, warnings.filters)),
        "print options": repr(sorted(np.get_printoptions().items())),
        "options of xarray": repr(sorted(xr.get_options().items())),
        "options of pandas": tuple(pd.get_option(o) for o in ("mode.chained_assignment", "mode.copy_on_write", "display.precision", "display.max_rows")),
        "settings of torch": torch_settings(),
        "recursion limit": sys.getrecursionlimit(),
    }


def torch_settings():
    t = sys.modules.get("torch")
    if t is None:
        return None
    return (str(t.get_default_dtype()), t.is_grad_enabled(), t.initial_seed(), t.are_deterministic_algorithms_enabled(), t.get_num_threads())


def leaves(a, k):
    """the argument slots of a call"""
    return [("a", i) for i in range(len(a))] + [("k", n) for n in sorted(k)]


def tweak(x):
    """the same kind of value with a small change, None if there is none"""
    if isinstance(x, bool):
        return not x
    if x is None or isinstance(x, str):
        return {"ITU_2005": "ITU_2003", "right": "left", "V": "H", "H": "V"}.get(x)
    if isinstance(x, complex):
        return x * 1.07
    if isinstance(x, (int, np.integer)):
        return x + 1
    if isinstance(x, (float, np.floating)):
        return x * 1.07 + 0.01
    if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.size:
        y = x.copy()
        ok = np.flatnonzero(np.isfinite(y.ravel()))
        if not len(ok):
            return None
        y.ravel()[ok[len(ok) // 2]] += 0.5
        return y
    if isinstance(x, np.ndarray) and x.dtype.kind == "b" and x.size:
        y = x.copy()
        y.ravel()[x.size // 2] ^= True
        return y
    if isinstance(x, xr.DataArray) and x.dtype.kind == "f":
        v = tweak(x.values)
        return None if v is None else x.copy(data=v)
    if isinstance(x, pd.Series):
        v = tweak(np.array(x.values))
        return None if v is None else pd.Series(v, index=x.index)
    if isinstance(x, pd.DataFrame):
        y = x.copy()
        for c in y.columns:
            v = tweak(np.array(y[c].values))
            if v is not None:
                y[c] = v
        return y
    if isinstance(x, xr.Dataset):
        y = x.copy(deep=True)
        for n in y.data_vars:
            v = tweak(y[n].values)
            if v is not None:
                y[n] = (y[n].dims, v)
        return y
    return None


def put(a, k, slot, value):
    a, k = list(a), dict(k)
    if slot[0] == "a":
        a[slot[1]] = value
    else:
        k[slot[1]] = value
    return tuple(a), k


def variants(op):
    """all argument sets of an operation: the given ones, the first one with one argument of the second, the first one with one argument changed a little"""
    name, fn, vs = op
    out = [("arguments %d" % i, v) for i, v in enumerate(vs)]
    a0, k0 = vs[0]()
    a1, k1 = vs[1]()
    for sl in leaves(a0, k0):
        there = sl[1] < len(a1) if sl[0] == "a" else sl[1] in k1
        if there:

            def mk(sl=sl):
                (a, k), (b, l) = vs[0](), vs[1]()
                return put(a, k, sl, b[sl[1]] if sl[0] == "a" else l[sl[1]])

            if freeze(mk()) != freeze(vs[0]()):
                out.append(("%s of arguments 1" % (sl[1],), mk))
        if tweak(a0[sl[1]] if sl[0] == "a" else k0[sl[1]]) is not None:

            def mk(sl=sl):
                a, k = vs[0]()
                return put(a, k, sl, tweak(a[sl[1]] if sl[0] == "a" else k[sl[1]]))

            out.append(("%s changed" % (sl[1],), mk))
    # parameters that are not given: another value than their default
    try:
        pars = list(inspect.signature(fn).parameters.values())
    except (TypeError, ValueError):
        pars = []
    for pos, par in enumerate(pars):
        if pos < len(a0) or par.name in k0 or par.default is par.empty or tweak(par.default) is None:
            continue

        def mk(par=par):
            a, k = vs[0]()
            return a, dict(k, **{par.name: tweak(par.default)})

        out.append(("with %s=%r" % (par.name, tweak(par.default)), mk))
    for n in sorted(set(k1) - set(k0)):

        def mk(n=n):
            a, k = vs[0]()
            return a, dict(k, **{n: vs[1]()[1][n]})

        out.append(("with %s of arguments 1" % n, mk))
    return out


def run(fn, mk):
    a, k = mk()
    try:
        return ("value", fn(*a, **k))
    except Exception as e:
        return ("refused", type(e).__name__)


def first(fn, mk):
    """result and changed settings of the first call in a process that has the usual settings"""
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    w = world()
    r = run(fn, mk)
    w2 = world()
    # the first call may import other libraries, which have settings of their own
    return r + ([k for k in w if w[k] != w2[k] and k not in ("environment", "warning filters")],)


def fresh(fn, mk):
    """the result of the call in a process in which nothing else was called before"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(first(fn, mk), f)
        except BaseException as e:
            os.write(2, repr(e).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def overwrite(dst, src):
    """give the object dst the content of src in place; False if that is not possible"""
    if isinstance(dst, np.ndarray) and isinstance(src, np.ndarray) and dst.shape == src.shape and dst.dtype == src.dtype and dst.dtype.kind in "fbi":
        dst[...] = src
        return True
    if isinstance(dst, xr.DataArray) and isinstance(src, xr.DataArray) and dst.dims == src.dims and set(dst.coords) == set(src.coords) and all(freeze(dst[c].values) == freeze(src[c].values) for c in dst.coords):
        return overwrite(dst.values, src.values)
    if isinstance(dst, xr.Dataset) and isinstance(src, xr.Dataset) and set(dst.variables) == set(src.variables) and all(freeze(dst[c].values) == freeze(src[c].values) for c in dst.coords):
        return all(overwrite(dst[v].values, src[v].values) for v in dst.data_vars)
    if isinstance(dst, pd.DataFrame) and isinstance(src, pd.DataFrame) and dst.index.equals(src.index) and list(dst.columns) == list(src.columns):
        for c in dst.columns:
            dst.loc[:, c] = np.asarray(src[c])
        return True
    if isinstance(dst, pd.Series) and isinstance(src, pd.Series) and dst.index.equals(src.index):
        dst.loc[:] = np.asarray(src)
        return True
    return False


def explore(ctx):
    tmp = tempfile.mkdtemp()
    wd = os.path.join(tmp, "wd")
    os.makedirs(wd)
    os.chdir(wd)
    devnull = open(os.devnull, "w")
    with contextlib.redirect_stdout(devnull), contextlib.redirect_stderr(devnull):
        ops = registry(tmp)
        lib = None
        if not ctx.jit:
            # results of all calls in processes in which nothing was called before
            lib = []
            for i, op in enumerate(ops):
                vs = variants(op)
                n = len(vs) if i % ctx.nshards == ctx.shard else 2
                lib.append([(lab, mk, fresh(op[1], mk)) for lab, mk in vs[:n]])
        for name, fn, vs in ops:  # loads lazily initialised parts of the libraries
            for v in vs:
                a, k = v()
                fn(*a, **k)
        np.random.seed(12345)
        random.seed(12345)
        # a setting of the caller that no function would choose
        np.seterr(divide="ignore", over="warn", under="ignore", invalid="warn")
        warnings.filterwarnings("ignore", message="a filter of the caller")
        if lib is not None:
            for op, vs in zip(ops, lib):
                for lab, mk, want in vs:
                    for key in want[2]:
                        ctx.fail("%s changed the %s" % (op[0], key), {"first call in a process": op[0], "with": lab})
        go(ctx, ops, lib)


def go(ctx, ops, lib):
    def check_ref(case, i, v, ok, r):
        if lib is None or not ok:
            return
        kind, want = lib[i][v][2][:2]
        if kind == "refused":
            ctx.fail("%s is refused if called first (%s) but not later" % (ops[i][0], want), case)
        elif not same(r, want):
            ctx.fail("%s gives another result than in a fresh process" % ops[i][0], {"case": case, "fresh": repr(want)[:400], "here": repr(r)[:400]})

    def call(case, i, v):
        name, fn, vs = ops[i]
        a, k = vs[v]()
        before = freeze((a, k))
        w = world()
        ok, r = ctx.call(case, fn, *a, **k)
        if freeze((a, k)) != before:
            ctx.fail("%s changed its arguments" % name, case)
        w2 = world()
        for key in w:
            if w[key] != w2[key]:
                ctx.fail("%s changed the %s" % (name, key), case)
        ctx.step()
        return ok, r

    n = len(ops)
    if ctx.family("operation_pairs"):
        for i in range(n):
            for j in range(n):
                for vj in (0, 1):
                    if not ctx.mine():
                        continue
                    if ctx.jit and not ("array" in ops[i][0] or "idw" in ops[i][0] or i == j):
                        continue
                    case = {"sequence": [ops[i][0], "%s (arguments %d)" % (ops[j][0], vj), ops[i][0]]}
                    ok, r1 = call(case, i, 0)
                    if not ok:
                        continue
                    check_ref(case, i, 0, ok, r1)
                    f1 = freeze(r1)
                    okb, rb = call(case, j, vj)
                    if freeze(r1) != f1:
                        ctx.fail("result of %s was changed by a later call" % ops[i][0], case)
                    check_ref(case, j, vj, okb, rb)
                    fb = freeze(rb) if okb else None
                    ok, r2 = call(case, i, 0)
                    if ok and not same(r1, r2):
                        ctx.fail("%s gives another result after %s" % (ops[i][0], ops[j][0]), {"case": case, "first": repr(r1)[:400], "second": repr(r2)[:400]})
                    if okb and freeze(rb) != fb:
                        ctx.fail("result of %s was changed by a later call" % ops[j][0], case)
                    ctx.state((i, j, vj))
                    ctx.trace(outcome=(i, j, vj))
        ctx.sample({"sequence": [ops[0][0], ops[5][0], ops[0][0]]})
    if lib is not None and ctx.family("one_argument_differs"):
        # first call, call in which one argument differs, first call again - each has the result of a fresh process
        for i in range(n):
            if i % ctx.nshards != ctx.shard:
                continue
            name, fn = ops[i][:2]
            for v in range(1, len(lib[i])):
                lab = lib[i][v][0]
                for seq in ((0, v, 0), (v, 0, v)):
                    case = {"operation": name, "sequence": [lib[i][x][0] for x in seq]}
                    for x in seq:
                        got = run(fn, lib[i][x][1])
                        want = lib[i][x][2]
                        ctx.step()
                        if got[0] != want[0] or not same(got[1], want[1]):
                            ctx.fail("%s gives another result than in a fresh process" % name, {"case": case, "fresh": repr(want)[:400], "here": repr(got)[:400]})
                    ctx.state((i, v, seq))
                    ctx.trace(outcome=(i, v, seq))
    if lib is not None and ctx.family("overwritten_arguments"):
        # the same argument object is used again with other content
        for i in range(n):
            if i % ctx.nshards != ctx.shard:
                continue
            name, fn = ops[i][:2]
            for v in range(1, len(lib[i])):
                lab, mk, want = lib[i][v]
                a, k = copy.deepcopy(lib[i][0][1]())  # own copies: they are overwritten
                b, l = mk()
                if len(a) != len(b) or set(k) != set(l):
                    continue
                case = {"operation": name, "first": "arguments 0", "then the same objects hold": lab}
                run(fn, lambda: (a, k))
                hit = False
                args, kws = list(a), dict(k)
                for sl in leaves(a, k):
                    o, w = (a[sl[1]], b[sl[1]]) if sl[0] == "a" else (k[sl[1]], l[sl[1]])
                    if freeze(o) == freeze(w):
                        continue
                    if overwrite(o, w) and freeze(o) == freeze(w):
                        hit = True
                    elif sl[0] == "a":
                        args[sl[1]] = w
                    else:
                        kws[sl[1]] = w
                if not hit:
                    continue
                got = run(fn, lambda: (args, kws))
                ctx.step(2)
                if got[0] != want[0] or not same(got[1], want[1]):
                    ctx.fail("%s gives an outdated result after its argument changed" % name, {"case": case, "fresh": repr(want)[:400], "here": repr(got)[:400]})
                ctx.state((i, v))
                ctx.trace(outcome=(i, v))
    if ctx.family("same_arguments_again"):
        # the very same argument objects are used three times
        for i in range(n):
            for v in (0, 1):
                if not ctx.mine():
                    continue
                name, fn, vs = ops[i]
                a, k = vs[v]()
                case = {"operation": name, "arguments": v, "calls with the same objects": 3}
                rs = []
                for _ in range(3):
                    ok, r = ctx.call(case, fn, *a, **k)
                    if ok:
                        rs.append(r)
                    ctx.step()
                if len(rs) == 3 and not (same(rs[0], rs[1]) and same(rs[0], rs[2])):
                    ctx.fail("%s gives another result for the same arguments" % name, case)
                ctx.state((i, v))
                ctx.trace(outcome=(i, v))
    if ctx.family("interruptions") and not ctx.jit:
        root = os.path.realpath(os.environ["VERIF_REPO"]) + os.sep + "pycomlink" + os.sep

        def run_with(i, at, inner):
            """run operation i, at the given source line event call inner()"""
            cnt = [0]
            res = []

            def local(frame, event, arg):
                if event == "line":
                    cnt[0] += 1
                    if cnt[0] == at:
                        sys.settrace(None)
                        try:
                            res.append(inner())
                        finally:
                            sys.settrace(glob)
                return local

            def glob(frame, event, arg):
                return local if frame.f_code.co_filename.startswith(root) else None

            name, fn, vs = ops[i]
            a, k = vs[0]()
            sys.settrace(glob)
            try:
                r = fn(*a, **k)
            finally:
                sys.settrace(None)
            return cnt[0], r, res

        for i in range(n):
            name, fn, vs = ops[i]
            a, k = vs[0]()
            ref = fn(*a, **k)
            a, k = vs[1]()
            ref1 = fn(*a, **k)
            N, r, _ = run_with(i, -1, None)
            if not same(ref, r):
                ctx.fail("%s gives another result for the same arguments" % name, {"operation": name})
            cap = N if ctx.thorough else min(N, 160)
            others = [i] if not ctx.thorough else [i] + [j for j in range(n) if j != i]
            for j in others:
                if j != i:
                    a, k = ops[j][2][1]()
                    refj = ops[j][1](*a, **k)
                else:
                    refj = ref1
                for at in range(1, (cap if j == i else min(cap, 25)) + 1):
                    if not ctx.mine():
                        continue

                    def inner():
                        a, k = ops[j][2][1]()
                        return ops[j][1](*a, **k)

                    case = {"operation": name, "interrupted at line event": at, "by": ops[j][0]}
                    ok, out = ctx.call(case, run_with, i, at, inner)
                    ctx.step(2)
                    if ok:
                        _, r, res = out
                        if not same(r, ref):
                            ctx.fail("%s gives another result if %s runs in between" % (name, ops[j][0]), case)
                        if res and not same(res[0], refj):
                            ctx.fail("%s gives another result inside %s" % (ops[j][0], name), case)
                    ctx.state((i, j, at))
                    ctx.trace(outcome=(i, j, at))
