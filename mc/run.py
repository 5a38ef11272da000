"""Run the check of one property: python3 run.py C01 [--tier quick|thorough]

Spawns the worker processes (sharded, per execution mode) against the working
tree in /repo, merges what they explored, writes evidence/<id>.json and prints
the verdict. Exit 0: held on everything explored; exit 1: VIOLATION line.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def load_conf(prop):
    """Read the module level constants MODES / SHARDS / LIMIT without importing it."""
    import ast

    conf = {"MODES": ["nojit"], "SHARDS": 4, "LIMIT": 780, "ASSUMPTIONS": [], "BOUNDS": "", "KNOWN_TEXT": {}}
    with open(os.path.join(HERE, "props", prop.lower() + ".py")) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            n = node.targets[0].id
            if n in conf:
                conf[n] = ast.literal_eval(node.value)
    return conf


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only_family = None
    if "--replay" in args:
        with open(args[args.index("--replay") + 1]) as f:
            rep = json.load(f)
        only_family = rep["violations"][0]["family"]
        tier = rep.get("tier", tier)
        print("replaying family %s of %s" % (only_family, prop))
    conf = load_conf(prop)
    repo = os.environ.get("VERIF_REPO", "/repo")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    rc = 3
    try:
        rc = run(prop, tier, seed, conf, repo, scratch, t0, only_family)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def run(prop, tier, seed, conf, repo, scratch, t0, only_family):
    env = {
        k: v
        for k, v in os.environ.items()
        if k.lower() not in ("http_proxy", "https_proxy", "all_proxy", "pythonpath", "pythonstartup")
    }
    env.update(
        VERIF_REPO=repo,
        PYTHONPATH=repo,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        PYTHONHASHSEED="0",
        PYTHONUNBUFFERED="1",
        TF_CPP_MIN_LOG_LEVEL="3",
        TF_ENABLE_ONEDNN_OPTS="0",
        CUDA_VISIBLE_DEVICES="",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        TQDM_DISABLE="1",
        NO_PROXY="*",
        no_proxy="*",
        TZ="UTC",
        LC_ALL="C.UTF-8",
        HOME=os.path.join(scratch, "home"),
        TMPDIR=os.path.join(scratch, "tmp"),
    )
    env.pop("ALLOW_TF_AUTOINSTALL", None)
    os.makedirs(env["HOME"])
    os.makedirs(env["TMPDIR"])
    if only_family:
        env["VERIF_ONLY_FAMILY"] = only_family
    procs = []
    for mode in conf["MODES"]:
        shards = conf["SHARDS"]
        if isinstance(shards, dict):
            shards = shards.get(mode, 1)
        for s in range(shards):
            e = dict(env)
            if mode == "nojit":
                e["NUMBA_DISABLE_JIT"] = "1"
            else:
                e.pop("NUMBA_DISABLE_JIT", None)
            out = os.path.join(scratch, "out_%s_%d.json" % (mode, s))
            log = open(os.path.join(scratch, "log_%s_%d.txt" % (mode, s)), "wb")
            wd = os.path.join(scratch, "wd_%s_%d" % (mode, s))
            os.makedirs(wd)
            p = subprocess.Popen(
                [PY, "-X", "faulthandler", os.path.join(HERE, "worker.py"), prop, tier, str(seed), mode, str(s), str(shards), out],
                cwd=wd, env=e, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                start_new_session=True,
            )
            procs.append((mode, s, p, out, log.name))
    limit = conf["LIMIT"] if tier == "quick" else float(os.environ.get("VERIF_LIMIT", 6 * 3600))
    deadline = t0 + limit
    violations, errors = [], []
    merged = {"transitions": 0, "traces": 0, "families": {}, "samples": [], "known": {}, "outcomes": 0}
    states = set()
    if os.environ.get("VERIF_FAILFAST"):  # used by the mutation tools: one violation is enough
        while time.time() < deadline and any(p.poll() is None for _, _, p, _, _ in procs):
            hit = False
            for _, _, p, out, _ in procs:
                if p.poll() is not None and os.path.exists(out):
                    with open(out) as f:
                        hit = hit or bool(json.load(f)["violations"])
            if hit:
                for _, _, p, out, _ in procs:
                    if p.poll() is None:
                        os.killpg(p.pid, 9)
                        p.wait()
                        with open(out, "w") as f:
                            json.dump({"transitions": 0, "traces": 0, "outcomes": 0, "states": [], "families": {}, "samples": [], "violations": [], "known_seen": {}}, f)
            time.sleep(0.2)
    for mode, s, p, out, log in procs:
        timed_out = False
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        if timed_out:
            violations.append({"family": "*", "mode": mode, "message": "the code under test did not terminate within %d s (worker %s/%d)" % (limit, mode, s), "case": tail(log)})
            continue
        if not os.path.exists(out):
            t = tail(log)
            if p.returncode == 3:
                errors.append("worker %s/%d: %s" % (mode, s, t))
            else:
                violations.append({"family": "*", "mode": mode, "message": "the process running the code under test died (exit %s)" % p.returncode, "case": t})
            continue
        with open(out) as f:
            r = json.load(f)
        merged["transitions"] += r["transitions"]
        merged["traces"] += r["traces"]
        merged["outcomes"] += r["outcomes"]
        states.update(r["states"])
        for k, v in r["families"].items():
            m = merged["families"].setdefault("%s[%s]" % (k, mode), {"traces": 0, "transitions": 0})
            for q in v:
                m[q] += v[q]
        if len(merged["samples"]) < 12:
            have = {x["family"] for x in merged["samples"]}
            merged["samples"] += [x for x in r["samples"] if x["family"] not in have][:4]
        violations += r["violations"]
        for k, n in r["known_seen"].items():
            merged["known"][k] = merged["known"].get(k, 0) + n
    if errors:
        print("\n".join(errors))
        return 3
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        known = {k["key"]: k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "open"}
    for k, n in sorted(merged["known"].items()):
        print("KNOWN-FINDING: property=%s %s (%d occurrences explored)" % (prop, known[k]["what"], n))
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": merged["transitions"],
            "traces_validated_against_impl": merged["traces"],
            "distinct_outcomes_observed": merged["outcomes"],
            "exhaustive": not violations and only_family is None,
            "bounds": conf["BOUNDS"],
            "modes": conf["MODES"],
            "families": merged["families"],
            "known_finding_occurrences": merged["known"],
            "samples": merged["samples"] or [{"family": "-", "case": "none"}],
        },
        "assumptions": conf["ASSUMPTIONS"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        "%s %s: states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs"
        % (prop, tier, len(states), merged["transitions"], merged["traces"], merged["outcomes"], time.time() - t0)
    )
    if violations:
        rp = os.path.join(evdir, "replay_%s.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "how_to_replay": "bash /verif/check.sh %s --replay %s" % (prop, rp), "violations": violations[:10]}, f, indent=1)
        for v in violations[:3]:
            print("  [%s/%s] %s" % (v["family"], v["mode"], v["message"]))
            print("    case: %s" % (json.dumps(v["case"])[:600],))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if merged["traces"] == 0:
        print("harness error: nothing was explored")
        return 3
    return 0


def tail(log):
    try:
        with open(log, "rb") as f:
            return f.read()[-3000:].decode("utf8", "replace").splitlines()[-25:]
    except OSError:
        return []


if __name__ == "__main__":
    main()
