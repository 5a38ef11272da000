"""Exploration of download caches: operation histories, transfer faults, crash points, disk limits, schedules.

An adapter offers  get(url, cache_dir, force) -> path  and, if the cache has them, ls(cache_dir) and clear(cache_dir).
The model of a cache is a dict url -> content version.
"""
import hashlib
import itertools
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from ..httpd import body

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Server:
    def __init__(self):
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "httpd.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.port = json.loads(self.p.stdout.readline())["port"]

    def cmd(self, **c):
        self.p.stdin.write(json.dumps(c) + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())

    def put(self, path, version, size, faults=(), file=None):
        self.cmd(op="set", path=path, version=version, size=size, faults=list(faults), file=file)

    def count(self, path):
        return self.cmd(op="count", path=path)["count"]

    def url(self, path):
        return "http://127.0.0.1:%d%s" % (self.port, path)

    def close(self):
        self.p.kill()


def content(path):
    with open(path, "rb") as f:
        return f.read()


def forked(fn, limit=None):
    """Run fn in a forked child; returns (exit code, signal, result)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            try:
                out = ["ok", fn()]
            except BaseException as e:  # noqa
                out = ["raised", "%s: %s" % (type(e).__name__, e)]
            os.write(w, json.dumps(out).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return (os.WEXITSTATUS(st) if os.WIFEXITED(st) else None), (os.WTERMSIG(st) if os.WIFSIGNALED(st) else None), (json.loads(data) if data else None)


def watched(filename, name, repo):
    """Code whose lines are crash / scheduling points."""
    if filename.startswith(repo):
        return True
    if filename.endswith("urllib/request.py"):
        return name in ("urlretrieve", "urlopen", "urlcleanup", "retrieve")
    return filename.endswith(("/shutil.py", "/tempfile.py")) or (filename.endswith(("pathlib.py", "pathlib/__init__.py", "pathlib/_local.py")) and name in ("replace", "rename", "unlink", "write_bytes", "touch", "exists", "mkdir", "open"))


def crash_tracer(at, repo, kill):
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == at:
                if kill:
                    os.kill(os.getpid(), signal.SIGKILL)
                os._exit(77)
        return local

    def glob(frame, event, arg):
        return local if watched(frame.f_code.co_filename, frame.f_code.co_name, repo) else None

    return glob, n


class Sched:
    """Two real threads, one runs at a time; scheduling points are the watched source lines.

    The schedule (first, p1, p2): thread `first` runs p1 points, then the other p2 points, then `first` to its end,
    then the other: all schedules with at most two preemptions.
    """

    def __init__(self, first, p1, p2, repo):
        self.cv = threading.Condition()
        self.cur = first
        self.first = first
        self.left = [None, None]
        self.left[first] = p1
        self.left[1 - first] = p2
        self.pre = 0
        self.done = [False, False]
        self.points = [0, 0]
        self.repo = repo
        self.stuck = False

    def point(self, tid):
        with self.cv:
            self.points[tid] += 1
            if self.left[tid] is not None and self.pre < 2 and not self.done[1 - tid]:
                if self.left[tid] == 0:
                    self.left[tid] = None
                    self.pre += 1
                    self.cur = 1 - tid
                    self.cv.notify_all()
                else:
                    self.left[tid] -= 1
            t0 = time.time()
            while self.cur != tid:
                self.cv.wait(1)
                if time.time() - t0 > 20:
                    self.stuck = True
                    return

    def thread(self, tid, fn, out):
        def local(frame, event, arg):
            if event == "line":
                self.point(tid)
            return local

        def glob(frame, event, arg):
            return local if watched(frame.f_code.co_filename, frame.f_code.co_name, self.repo) else None

        with self.cv:
            while self.cur != tid:
                self.cv.wait(20)
        sys.settrace(glob)
        try:
            out[tid] = ("ok", fn())
        except BaseException as e:  # noqa
            out[tid] = ("raised", "%s: %s" % (type(e).__name__, e))
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[tid] = True
                self.cur = 1 - tid
                self.cv.notify_all()

    def run(self, fns):
        out = [None, None]
        th = [threading.Thread(target=self.thread, args=(i, fns[i], out), daemon=True) for i in (0, 1)]
        for t in th:
            t.start()
        for t in th:
            t.join(60)
        return out


class Explorer:
    def __init__(self, ctx, adapter, suffix):
        self.ctx, self.a = ctx, adapter
        self.s = Server()
        self.tmp = tempfile.mkdtemp()
        self.k = 0
        self.suffix = suffix
        self.repo = os.path.realpath(os.environ["VERIF_REPO"]) + os.sep + "pycomlink" + os.sep

    def fresh(self):
        self.k += 1
        d = os.path.join(self.tmp, "c%d" % self.k)
        return d

    def done(self, d):
        shutil.rmtree(d, ignore_errors=True)

    def quiet(self, fn, *a, **k):
        old = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            return fn(*a, **k)
        finally:
            sys.stdout.close()
            sys.stdout = old

    # -- families ----------------------------------------------------------
    def histories(self, depth, size=20000):
        """All operation sequences against the dict model."""
        ctx, a, s = self.ctx, self.a, self.s
        P = ["/r1/m" + self.suffix, "/r2/m" + self.suffix]
        ops = []
        for i in (0, 1):
            ops += [("get", i, "ok"), ("force", i, "ok"), ("publish", i)]
        ops += [("get", 0, "trunc:9000"), ("force", 0, "trunc:0"), ("force", 0, "status:500"), ("get", 0, "status:404"), ("force", 0, "reset:12000"), ("get", 0, "close"), ("force", 1, "trunc:8192"), ("force", 0, "close")]
        if a.clear:
            ops += [("clear",)]
        for seq in itertools.product(ops, repeat=depth):
            if not any(o[0] in ("get", "force") for o in seq) or not ctx.mine():
                continue
            d = self.fresh()
            ver = [0, 0]
            model = {}
            paths = {}
            case = {"operations": seq}
            for p in P:
                s.put(p, 0, size)
            for op in seq:
                ctx.step()
                if op[0] == "publish":
                    ver[op[1]] += 1
                    s.put(P[op[1]], ver[op[1]], size)
                elif op[0] == "clear":
                    ok, _ = ctx.call(case, self.quiet, a.clear, d)
                    model, paths = {}, {}
                else:
                    i = op[1]
                    before = s.count(P[i])
                    fetch = op[0] == "force" or i not in model
                    if fetch:
                        s.put(P[i], ver[i], size, [op[2]])
                    err = None
                    try:
                        r = self.quiet(a.get, s.url(P[i]), d, op[0] == "force")
                    except Exception as e:
                        err = e
                    asked = s.count(P[i]) - before
                    if not fetch:
                        if asked:
                            ctx.fail("downloaded again although cached", case)
                    elif asked == 0:
                        ctx.fail("download was requested but the server was not asked", case)
                    if fetch and op[2] != "ok":
                        if err is None:
                            ctx.fail("failed transfer (%s) was not reported" % op[2], case)
                    elif err is not None:
                        ctx.fail("unexpected %s: %s" % (type(err).__name__, err), case)
                        break
                    else:
                        if fetch:
                            model[i] = ver[i]
                        if content(r) != body(P[i], model[i], size):
                            ctx.fail("cached file does not have the served content", case)
                            break
                        paths[i] = str(r)
                # the whole cache agrees with the model after every operation
                for i in model:
                    if not os.path.exists(paths[i]) or content(paths[i]) != body(P[i], model[i], size):
                        ctx.fail("entry of %s was lost or changed by %s" % (P[i], op), case)
                if a.ls:
                    ok, l = ctx.call(case, a.ls, d)
                    if ok and sorted(os.path.realpath(x) for x in l) != sorted(os.path.realpath(paths[i]) for i in model):
                        ctx.fail("listing %s, expected %s" % (sorted(map(str, l)), sorted(paths.values())), case)
                ctx.state((tuple(sorted(model.items())), tuple(ver)))
            ctx.trace(outcome=(tuple(sorted(model.items())), tuple(ver)))
            self.done(d)
        ctx.sample({"operations": [["get", 0, "ok"], ["publish", 0], ["force", 0, "trunc:9000"]]})

    def truncations(self, size=16500, stride=1):
        """A transfer that ends after k bytes, for every k around block borders and a dense set of others."""
        ctx, s = self.ctx, self.s
        P = "/t/m" + self.suffix
        ks = set(range(0, size, 97 if stride == 1 else 11)) | set(range(8180, 8200)) | set(range(16380, 16400)) | {0, 1, 2, size - 2, size - 1}
        for k in sorted(ks):
            for kind in ("trunc", "reset"):
                for force in (False, True):
                    if not ctx.mine():
                        continue
                    d = self.fresh()
                    case = {"bytes received": k, "of": size, "kind": kind, "had older version": force}
                    if force:
                        s.put(P, 0, size)
                        ctx.call(case, self.quiet, self.a.get, s.url(P), d, False)
                    s.put(P, 1, size, ["%s:%d" % (kind, k)])
                    try:
                        self.quiet(self.a.get, s.url(P), d, force)
                        ctx.fail("incomplete transfer was not reported", case)
                    except Exception:
                        pass
                    # the server is fine again
                    self.after(d, P, size, case, allowed=(0,) if force else (1,), expect_request=not force)
                    ctx.step(2)
                    ctx.state((k, kind, force))
                    ctx.trace(outcome=(k, kind, force))
                    self.done(d)

    def after(self, d, P, size, case, allowed, expect_request=None):
        """After a failure: nothing incomplete is listed; the next use delivers a complete, allowed version."""
        ctx, s = self.ctx, self.s
        full = {body(P, v, size): v for v in (0, 1)}
        if self.a.ls and os.path.isdir(d):
            ok, l = ctx.call(case, self.a.ls, d)
            for x in l or []:
                if content(x) not in full:
                    ctx.fail("an incomplete file is listed as cached", case)
        s.put(P, 1, size)
        n = s.count(P)
        ok, r = ctx.call(case, self.quiet, self.a.get, s.url(P), d, False)
        if not ok:
            return None
        c = content(r)
        if c not in full:
            ctx.fail("after the failure an incomplete file (%d of %d bytes) is used" % (len(c), size), case)
            return None
        v = full[c]
        if v not in allowed:
            ctx.fail("after the failure version %d is used, expected %s" % (v, allowed), case)
        if expect_request is not None and (s.count(P) - n > 0) != expect_request:
            ctx.fail("after the failure: server asked=%s, expected %s" % (s.count(P) - n > 0, expect_request), case)
        ok, r = ctx.call(case, self.quiet, self.a.get, s.url(P), d, True)
        if ok and content(r) != body(P, 1, size):
            ctx.fail("forced download after the failure does not deliver the served content", case)
        return v

    def crashes(self, size=20000):
        """Process dies at every watched source line of a download (also of a forced one over an older version)."""
        ctx, s, a = self.ctx, self.s, self.a
        P = "/k/m" + self.suffix
        for force in (False, True):
            at = 0
            while True:
                at += 1
                # all shards must agree on the number of points, so each walks the whole range and runs its share
                d = self.fresh()
                mine = ctx.mine()
                if not mine:
                    if at >= self.npoints(force, size, P):
                        break
                    continue
                case = {"process ends at line event": at, "had older version": force}
                if force:
                    s.put(P, 0, size)
                    ctx.call(case, self.quiet, a.get, s.url(P), d, False)
                s.put(P, 1, size)
                kill = at % 2 == 0

                def child():
                    tr, n = crash_tracer(at, self.repo, kill)
                    sys.settrace(tr)
                    try:
                        a.get(s.url(P), d, force)
                    finally:
                        sys.settrace(None)
                    return n[0]

                code, sig, res = forked(child)
                ctx.step()
                ctx.trace(outcome=(at, force))
                ctx.state((at, force))
                v = self.after(d, P, size, case, allowed=(0, 1) if force else (1,))
                self.done(d)
                if res is not None:
                    if res[0] != "ok":
                        ctx.fail("download without fault failed: %s" % res[1], case)
                    break
                if at > 3000:
                    break

    def npoints(self, force, size, P):
        if not hasattr(self, "_np"):
            self._np = {}
        if force not in self._np:
            d = self.fresh()
            self.s.put(P, 0, size)
            if force:
                self.quiet(self.a.get, self.s.url(P), d, False)

            def child():
                tr, n = crash_tracer(-1, self.repo, False)
                sys.settrace(tr)
                try:
                    self.a.get(self.s.url(P), d, force)
                finally:
                    sys.settrace(None)
                return n[0]

            code, sig, res = forked(child)
            self._np[force] = (res[1] if res and res[0] == "ok" else 0) + 1
            self.done(d)
        return self._np[force]

    def disk_limits(self, size=20000):
        """The disk accepts only so many bytes."""
        ctx, s, a = self.ctx, self.s, self.a
        P = "/d/m" + self.suffix
        for lim in (0, 1, 100, 4095, 4096, 8191, 8192, 8193, 16384, 19999, size - 1, size, size + 1):
            for force in (False, True):
                if not ctx.mine():
                    continue
                d = self.fresh()
                case = {"disk accepts bytes": lim, "of": size, "had older version": force}
                if force:
                    s.put(P, 0, size)
                    ctx.call(case, self.quiet, a.get, s.url(P), d, False)
                s.put(P, 1, size)
                code, sig, res = forked(lambda: str(a.get(s.url(P), d, force)), limit=lim)
                ctx.step()
                if lim < size and (res is None or res[0] == "ok"):
                    ctx.fail("full disk was not reported", case)
                if lim >= size and (res is None or res[0] != "ok"):
                    ctx.fail("download failed: %r" % (res,), case)
                self.after(d, P, size, case, allowed=(0,) if (force and lim < size) else (1,))
                ctx.trace(outcome=(lim, force))
                ctx.state((lim, force))
                self.done(d)

    def schedules(self, size=12000, stride=1):
        """Two threads using one cache, all schedules with at most two preemptions."""
        ctx, s, a = self.ctx, self.s, self.a
        P = "/s/m" + self.suffix
        Q = "/s2/m" + self.suffix
        for p in (P, Q):
            s.put(p, 1, size)

        def checked(p, d, force):
            def fn():
                r = a.get(s.url(p), d, force)
                with open(r, "rb") as f:
                    c = f.read()
                return c == body(p, 1, size) and str(r)

            return fn

        def lister(d):
            def fn():
                bad = []
                for x in a.ls(d):
                    try:
                        if content(x) not in (body(P, 1, size), body(Q, 1, size)):
                            bad.append(str(x))
                    except FileNotFoundError:
                        bad.append("vanished " + str(x))
                return (not bad) and "fine"

            return fn

        combos = [("same file", lambda d: (checked(P, d, False), checked(P, d, False))), ("same file, one forced", lambda d: (checked(P, d, True), checked(P, d, False))), ("two files", lambda d: (checked(P, d, False), checked(Q, d, False)))]
        if a.ls:
            combos.append(("download and list", lambda d: (checked(P, d, False), lister(d))))
        old = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            for name, mk in combos:
                # number of scheduling points of each thread when run alone
                d = self.fresh()
                sc = Sched(0, None, None, self.repo)
                out = sc.run(mk(d))
                n = [max(1, sc.points[0]), max(1, sc.points[1])]
                for i in (0, 1):
                    d2 = self.fresh()
                    sc = Sched(i, None, None, self.repo)
                    sc.run(mk(d2))
                    n[i] = max(n[i], sc.points[i])
                    self.done(d2)
                self.done(d)
                for first in (0, 1):
                    for p1 in range(0, n[first] + 1, stride):
                        for p2 in list(range(0, n[1 - first] + 1, stride)) + [None]:
                            if not ctx.mine():
                                continue
                            d = self.fresh()
                            sc = Sched(first, p1, p2, self.repo)
                            out = sc.run(mk(d))
                            case = {"threads": name, "schedule": {"first": first, "points before switch": p1, "other's points before switching back": p2}}
                            ctx.step(sum(sc.points))
                            for i in (0, 1):
                                if out[i] is None:
                                    ctx.fail("thread %d did not finish" % i, case)
                                elif out[i][0] != "ok":
                                    ctx.fail("thread %d: %s" % (i, out[i][1]), case)
                                elif out[i][1] is False:
                                    ctx.fail("thread %d saw an incomplete file" % i, case)
                            if a.ls:
                                l = a.ls(d)
                                want = 2 if name == "two files" else 1
                                if len(l) != want or any(content(x) not in (body(P, 1, size), body(Q, 1, size)) for x in l):
                                    ctx.fail("cache afterwards: %s" % sorted(map(str, l)), case)
                            ctx.state((name, first, p1, p2))
                            ctx.trace(outcome=(name, first, sc.points[0], sc.points[1]))
                            self.done(d)
        finally:
            sys.stdout.close()
            sys.stdout = old

    def distinct_urls(self, size=3000):
        """No two addresses share an entry; the same address always has the same one."""
        ctx, s, a = self.ctx, self.s, self.a
        names = ["/a/m" + self.suffix, "/b/m" + self.suffix, "/a/b/m" + self.suffix, "/a/m" + self.suffix + "?v=1", "/a/m" + self.suffix + "?v=2", "/a_m" + self.suffix, "/A/m" + self.suffix, "/a/n" + self.suffix, "/a%20b/m" + self.suffix, "/x/" + "long" * 20 + self.suffix]
        names += ["/a/m" + self.suffix + "/", "/a//m" + self.suffix, "/a/m" + self.suffix + "?a=1&b=2", "/a/m" + self.suffix + "?b=2&a=1", "/a/m", "/a/M" + self.suffix, "/a%2Fm" + self.suffix, "/x/" + "long" * 20 + "er" + self.suffix]
        names += ["/g?u=1/m" + self.suffix, "/g?u=2/m" + self.suffix, "/g/m" + self.suffix + "?u=1/m" + self.suffix, "/h/m." + "v1" + self.suffix, "/h/m." + "v2" + self.suffix]
        for order in itertools.permutations(names, 2):
            if not ctx.mine():
                continue
            d = self.fresh()
            case = {"addresses": order}
            got = {}
            for p in order + order[::-1]:
                s.put(p, 1, size)
                ok, r = ctx.call(case, self.quiet, a.get, s.url(p), d, False)
                ctx.step()
                if not ok:
                    break
                if content(r) != body(p, 1, size):
                    ctx.fail("content of another address was delivered", case)
                if got.setdefault(p, str(r)) != str(r):
                    ctx.fail("entry moved", case)
            if len(got) == 2 and len(set(got.values())) != 2:
                ctx.fail("two addresses share one entry", case)
            ctx.trace(outcome=order)
            ctx.state(order)
            self.done(d)
        # every size of a model file, also growing and shrinking between versions
        sizes = (0, 1, 2, 8191, 8192, 8193, 65536, 1 << 20, (5 << 20) + 3)
        for n0, n1 in itertools.product(sizes, repeat=2):
            if not ctx.mine() or (n0 > 1 << 17 and n1 > 1 << 17):
                continue
            d = self.fresh()
            p = "/size/m" + self.suffix
            case = {"sizes": (n0, n1)}
            s.put(p, 0, n0)
            for v, n, force in ((0, n0, False), (0, n0, False), (1, n1, True), (1, n1, False)):
                if force:
                    s.put(p, 1, n1)
                before = s.count(p)
                ok, r = ctx.call(case, self.quiet, a.get, s.url(p), d, force)
                ctx.step()
                if not ok:
                    break
                if content(r) != body(p, v, n):
                    ctx.fail("file of %d bytes, served were %d" % (os.path.getsize(r), n), case)
                    break
            ctx.trace(outcome=(n0, n1))
            ctx.state((n0, n1))
            self.done(d)
        # many addresses in one cache
        n = 1500
        for sh, paths in (
            (1, ["/v%d/model_%d%s" % (i % 7, i, self.suffix) for i in range(n)]),
            (2, ["/v%d/model%s" % (i, self.suffix) for i in range(n)]),
            (3, ["/v/model%s?version=%d" % (self.suffix, i) for i in range(n)]),
        ):
            if ctx.shard != max(0, ctx.nshards - sh):
                continue
            d = self.fresh()
            got = {}
            case = {"addresses": "%d different ones like %s" % (n, paths[0])}
            for p in paths:
                s.put(p, 1, 40)
            for p in paths:
                ok, r = ctx.call(case, self.quiet, a.get, s.url(p), d, False)
                ctx.step()
                if not ok:
                    break
                if content(r) != body(p, 1, 40):
                    ctx.fail("content of another address was delivered", {"address": p})
                if str(r) in got:
                    ctx.fail("two addresses share one entry", {"addresses": [p, got[str(r)]]})
                got[str(r)] = p
            for f, p in got.items():
                if content(f) != body(p, 1, 40):
                    ctx.fail("an entry was overwritten by another address", {"address": p})
                ctx.step()
            ctx.trace(len(got))
            ctx.state(("many", sh))
            self.done(d)
        # pairs of addresses that agree in short or weak fingerprints, in a long beginning or in a long end
        import zlib

        def h(alg, sl):
            return lambda u: hashlib.new(alg, u.encode()).hexdigest()[sl]

        keys = [h(alg, sl) for alg in ("md5", "sha1", "sha256", "blake2b") for sl in (slice(0, 6), slice(0, 8), slice(-8, None))]
        keys += [lambda u: zlib.crc32(u.encode()), lambda u: zlib.adler32(u.encode()), lambda u: hash(u) & 0xFFFFFFFF, lambda u: sum(u.encode()), lambda u: (len(u), u[:20], u[-20:])]
        keys += [h("md5", slice(0, 10)), h("sha256", slice(0, 10))]
        fixed = [
            ("/" + "d" * 300 + "/1/m", "/" + "d" * 300 + "/2/m"), ("/1/" + "d" * 300 + "/m", "/2/" + "d" * 300 + "/m"), ("/" + "d/" * 900 + "1/m", "/" + "d/" * 900 + "2/m"),
            ("/" + "d" * 200 + "1" + "d" * 200 + "/m", "/" + "d" * 200 + "2" + "d" * 200 + "/m"), ("/ab/c/m", "/a/bc/m"), ("/1/2/m", "/2/1/m"), ("/a%62/m", "/ab/m"), ("/%C3%A9/m", "/e%CC%81/m"),
            ("/a;p=1/m", "/a;p=2/m"), ("/a/./m", "/a/m"), ("/a/../m", "/m"), ("/a/m?", "/a/m"), ("/a:b/m", "/a_b/m"), ("/a-b/m", "/a.b/m"), ("/a+b/m", "/a%20b/m"),
        ]
        for k in range(len(keys) + len(fixed)):
            if not ctx.mine():
                continue
            if k < len(keys):
                seen, pair = {}, None
                for i in range(6000000):
                    p = "/%07d/m%s" % (i, self.suffix)
                    q = seen.setdefault(keys[k](s.url(p)), p)
                    if q is not p:
                        pair = (q, p)
                        break
            else:
                pair = tuple(p if "?" in p else p + self.suffix for p in fixed[k - len(keys)])
            if pair is None:
                continue
            d = self.fresh()
            case = {"addresses": pair}
            for p in pair:
                s.put(p, 1, 200)
            got = []
            for p in pair + pair:
                ok, r = ctx.call(case, self.quiet, a.get, s.url(p), d, False)
                ctx.step()
                if ok and content(r) != body(p, 1, 200):
                    ctx.fail("content of another address was delivered", case)
                got.append(str(r))
            if got[0] == got[1]:
                ctx.fail("two addresses share one entry", case)
            ctx.trace(outcome=("pair", k))
            ctx.state(("pair", k))
            self.done(d)
        # the same place through another protocol: not served there, so it has to be reported
        if ctx.shard == 1 % ctx.nshards:
            d = self.fresh()
            p = "/proto/m" + self.suffix
            s.put(p, 1, size)
            self.quiet(a.get, s.url(p), d, False)
            u = s.url(p).replace("http:", "https:")
            ctx.step(2)
            try:
                r = self.quiet(a.get, u, d, False)
            except Exception:
                pass
            else:
                ctx.fail("an address that was never downloaded is delivered from the entry of another one", {"address": u, "entry": str(r)})
            ctx.trace()
            self.done(d)
        # the same file at two hosts
        if ctx.shard == 0:
            d = self.fresh()
            p = "/host/m" + self.suffix
            s.put(p, 1, size)
            u = s.url(p)
            got = [str(self.quiet(a.get, x, d, False)) for x in (u, u.replace("127.0.0.1", "localhost"))]
            ctx.step(2)
            if got[0] == got[1]:
                ctx.fail("two addresses share one entry", {"addresses": [u, u.replace("127.0.0.1", "localhost")]})
            ctx.trace(2)
            self.done(d)
