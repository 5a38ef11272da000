#!/usr/bin/env python3
"""Run the planted bugs of /verif/seeded against the machinery, each in a scratch clone.

usage: mutants.py [--no-tests] [--checks C01,C02|all|own] [ID ...]
For each bug: the patch applies and changes only lines of the original repository, the stable tests
still pass, the demonstration passes before and fails after, and the check of its property reports it.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "fe23aa8"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", NUMBA_DISABLE_JIT="1", TF_CPP_MIN_LOG_LEVEL="3",
           CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", TQDM_DISABLE="1")


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def clone():
    d = tempfile.mkdtemp(prefix="mut_")
    sh(["git", "clone", "-q", "--shared", "/repo", d + "/r"])
    return d


def tests(r):
    x = os.path.join(os.path.dirname(r), "j.xml")
    env = dict(ENV, PYTHONPATH=r)
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--ignore=pycomlink/tests/test_pytorch_utils.py",
        "--ignore=pycomlink/tests/test_tensorflow_utils.py", "-o", "junit_family=xunit2", "--junitxml=" + x, "pycomlink"], cwd=r, env=env)
    ok = set()
    for tc in ET.parse(x).getroot().iter("testcase"):
        if not len([c for c in tc if c.tag in ("failure", "error", "skipped")]):
            ok.add(tc.get("classname") + "::" + tc.get("name"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - ok)


def original_lines_only(r, patch):
    """every removed line has to come from the base commit"""
    bad = []
    f = None
    for line in open(patch):
        if line.startswith("--- a/"):
            f = line[6:].strip()
            bl = sh(["git", "blame", "-s", f], cwd=r)[1].splitlines()
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m.group(1)) - 1
            continue
        if f is None or line.startswith(("---", "+++", "diff", "index")):
            continue
        if line.startswith("-"):
            if not bl[n].startswith("^"):
                bad.append(bl[n])
            n += 1
        elif not line.startswith("+"):
            n += 1
    return bad


def demo(r, sd):
    t = tempfile.mkdtemp(prefix="demo_")
    try:
        for f in os.listdir(sd):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(sd, f), t)
        return sh(["bash", os.path.join(t, "demo.sh")], cwd=r, timeout=300)
    finally:
        shutil.rmtree(t)


def one(bid, opts):
    sd = os.path.join(VERIF, "seeded", bid)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    d = clone()
    r = d + "/r"
    res = {"id": bid, "property": meta["property"]}
    try:
        bad = original_lines_only(r, sd + "/patch.diff")
        if bad:
            res["not_original"] = bad
        rc, out = demo(r, sd)
        res["demo_before"] = rc
        if rc:
            res["demo_out"] = out[-500:]
        rc, out = sh(["git", "apply", sd + "/patch.diff"], cwd=r)
        if rc:
            res["apply"] = out
            return res
        if opts["tests"]:
            res["tests_broken"] = tests(r)
        res["demo_after"] = demo(r, sd)[0]
        checks = opts["checks"]
        props = [meta["property"]] if checks == "own" else [] if checks == "none" else ["C%02d" % i for i in range(1, 100) if os.path.exists(VERIF + "/mc/props/c%02d.py" % i)] if checks == "all" else checks.split(",")
        res["caught"] = {}
        for p in props:
            env = dict(os.environ, VERIF_REPO=r, VERIF_TIER="quick", VERIF_SEED="1", VERIF_EVIDENCE=d + "/ev")
            rc, out = sh(["bash", VERIF + "/check.sh", p], env=env)
            res["caught"][p] = rc
            if rc == 1:
                m = re.search(r"VIOLATION.*", out)
                res.setdefault("msg", {})[p] = [l for l in out.splitlines() if l.strip()][:3] if m else out[-300:]
            elif rc not in (0,):
                res.setdefault("msg", {})[p] = out[-600:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def store(bid, good, caught):
    """results used for the table in DESIGN.md"""
    f = os.path.join(VERIF, "tools", "mutants.json")
    d = json.load(open(f)) if os.path.exists(f) else {}
    e = d.setdefault(bid, {})
    e["valid"] = good
    for p, rc in caught.items():
        e.setdefault("checks", {})[p] = "caught" if rc == 1 else "missed" if rc == 0 else "no answer"
    json.dump(d, open(f, "w"), indent=1, sort_keys=True)


def main():
    a = sys.argv[1:]
    opts = {"tests": True, "checks": "own"}
    if "--no-tests" in a:
        a.remove("--no-tests")
        opts["tests"] = False
    if "--checks" in a:
        i = a.index("--checks")
        opts["checks"] = a[i + 1]
        del a[i : i + 2]
    ids = a or sorted(os.listdir(VERIF + "/seeded"))
    with cf.ThreadPoolExecutor(3) as ex:
        for res in ex.map(lambda b: one(b, opts), ids):
            good = res.get("demo_before") == 0 and res.get("demo_after", 0) != 0 and not res.get("tests_broken") and not res.get("not_original") and "apply" not in res
            caught = [p for p, rc in res.get("caught", {}).items() if rc == 1]
            print("%-28s %s valid=%s caught_by=%s %s" % (res["id"], res["property"], good, caught or "NONE", "" if good else json.dumps({k: v for k, v in res.items() if k not in ("caught", "msg")})), flush=True)
            store(res["id"], good, res.get("caught", {}))
            for p, m in res.get("msg", {}).items():
                print("      %s: %s" % (p, str(m)[:300]), flush=True)


main()
