#!/usr/bin/env python3
"""plant.py SPEC.py [--notest]: turn seed specs into seeded/<id>/ entries.

SPEC.py defines SEEDS = [dict(id, prop, needs, breaks,
edits=[(file, old, new)...], demo=<python source>)].  Each is tried in a
scratch copy bind-mounted over /repo in a private mount namespace: demo on
both trees, stable tests, and all the checks.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = """#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
"""


def over(copy, cmd, **kw):
    return subprocess.run(
        ["unshare", "-Urm", "bash", "-c",
         "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(s, test):
    out = []
    d = os.path.join(ROOT, "seeded", s["id"])
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        copy = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."])
        for f, old, new in s["edits"]:
            p = os.path.join(copy, f)
            t = open(p, encoding="utf-8").read()
            if t.count(old) != 1:
                return s["id"], False, "edit in %s matches %d times: %r" % (
                    f, t.count(old), old[:60])
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", copy, "diff"], text=True,
                              stdout=subprocess.PIPE).stdout
        st = os.path.join(tmp, "seed")
        os.makedirs(st)
        open(st + "/patch.diff", "w").write(diff)
        open(st + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(st + "/demo.sh", 0o755)
        open(st + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["prop"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(st + "/meta.json", "w"), indent=1)
        r0 = subprocess.run(["bash", st + "/demo.sh"], cwd="/repo",
                            text=True, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, timeout=300)
        if r0.returncode != 0:
            return s["id"], False, "demo fails on clean tree:\n" + \
                r0.stdout[-1500:]
        r1 = over(copy, "bash %s/demo.sh" % st, timeout=300)
        if r1.returncode == 0:
            return s["id"], False, "demo passes with the patch:\n" + \
                r1.stdout[-1500:]
        if test:
            o = os.path.join(tmp, "out.json")
            rt = over(copy, "bash /opt/vp/build.sh && bash /opt/vp/test.sh "
                      + o)
            try:
                res = json.load(open(o))
            except Exception as e:      # noqa
                return s["id"], False, "no test result %s\n%s" % (
                    e, rt.stdout[-800:])
            passed = set(res.get("passed", res.get("pass", [])))
            lost = STABLE - passed
            if lost:
                return s["id"], False, "tests fail: %d %s" % (
                    len(lost), sorted(lost)[:5])
        ev = os.path.join(tmp, "v")
        shutil.copytree(ROOT, ev, ignore=shutil.ignore_patterns(
            ".git", "seeded", "evidence", "__pycache__"))
        rc = over(copy, "cd %s && python3 check.py" % ev)
        v = [x for x in rc.stdout.split("\n") if x.startswith("VIOLATION")
             or x.startswith("ANALYSIS") or ": [" in x]
        caught = any(x.startswith("VIOLATION property=%s " % s["prop"])
                     for x in v)
        out.append("%s %s" % ("CAUGHT" if caught else "MISSED",
                              "; ".join(x[:150] for x in v)[:900]))
        if os.path.isdir(d):
            shutil.rmtree(d)
        shutil.copytree(st, d)
        return s["id"], True, "\n".join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = sys.argv[1:]
    test = "--notest" not in args
    seeds = []
    for a in args:
        if a.endswith(".py"):
            seeds += runpy.run_path(a)["SEEDS"]
    only = [a for a in args if not a.endswith(".py") and a[0] != "-"]
    if only:
        seeds = [s for s in seeds if s["id"] in only]
    with ThreadPoolExecutor(2 if test else 6) as ex:
        for sid, ok, msg in ex.map(lambda s: one(s, test), seeds):
            print("%-28s %s %s" % (sid, "ok " if ok else "BAD", msg),
                  flush=True)


if __name__ == "__main__":
    main()
