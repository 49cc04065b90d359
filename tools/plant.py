#!/usr/bin/env python3
"""Build and evaluate planted bugs.

  plant.py make SPEC.py [ID...]   write seeded/<id>/ from a spec file and try it
  plant.py try [ID...]            try the bugs in seeded/ (all by default)

A spec file defines BUGS, a list of dicts: id, property, file, edits (list of
(old, new)), needs, breaks, demo (python source).  A try works in a scratch
copy of /repo: the demo has to pass on the clean copy, the patch has to apply
and to change original lines, the test suite has to give the same result as
before, the demo has to fail, and the check of the property is run on it.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
WORK = "/tmp/plantwork"
PY = "/opt/venv/bin/python"
BASE = "d023987"
SH = ('#!/bin/sh\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
      'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')


def run(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", **env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, text=True, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, "timeout\n%s" % (x.output or "")


def copy_repo(name):
    dst = os.path.join(WORK, name)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(WORK, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", dst], check=True)
    return dst


def tests(cwd):
    rc, out = run([PY, "-W", "ignore", "-m", "pytest", "-q", "-p", "no:cacheprovider",
                   "-p", "pytest_timeout", "--timeout=300", "tests"], cwd, PYTHONPATH=cwd,
                  PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", LC_ALL="C.UTF-8")
    m = re.search(r"(\d+) passed", out)
    return int(m.group(1)) if m else 0, out


def original_lines(cwd, patch):
    """Number of changed original lines: removed lines blamed to the base commit."""
    n = 0
    rc, out = run(["git", "diff", "-U0"], cwd)
    fname = None
    for line in out.splitlines():
        if line.startswith("--- a/"):
            fname = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            start, cnt = int(m.group(1)), int(m.group(2) or 1)
            if cnt:
                rc, bl = run(["git", "blame", "-s", "-L", "%d,+%d" % (start, cnt), "HEAD", "--", fname], cwd)
                n += sum(1 for x in bl.splitlines() if x.lstrip("^").startswith(BASE[:6]))
    return n


def make(bug):
    d = os.path.join(SEEDED, bug["id"])
    cwd = copy_repo("make-" + bug["id"])
    files = bug.get("edits")
    for entry in files:
        if len(entry) == 3:
            f, old, new = entry
        else:
            f, (old, new) = bug["file"], entry
        path = os.path.join(cwd, f)
        s = open(path, encoding="utf-8", newline="").read()
        if s.count(old) != 1:
            return "%s: %d matches of %r" % (bug["id"], s.count(old), old)
        open(path, "w", encoding="utf-8", newline="").write(s.replace(old, new))
    rc, diff = run(["git", "diff"], cwd)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": bug["property"], "needs": bug["needs"],
               "what_it_breaks": bug["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(cwd)
    return None


def attempt(id_, check=True):
    d = os.path.join(SEEDED, id_)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    cwd = copy_repo("try-" + id_)
    res = {"id": id_, "property": prop}
    try:
        demo = os.path.join(WORK, "demo-" + id_)
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo)
        rc, out = run(["sh", os.path.join(demo, "demo.sh")], cwd, 300)
        res["demo_clean"] = rc
        if rc:
            res["out"] = out[-1500:]
        rc, out = run(["git", "apply", os.path.join(d, "patch.diff")], cwd)
        if rc:
            res["apply"] = out
            return res
        res["orig"] = original_lines(cwd, None)
        n, out = tests(cwd)
        res["passed"] = n
        if n < 733:
            res["tests"] = "\n".join(x for x in out.splitlines() if x.startswith("FAILED"))[-800:]
        rc, out = run(["sh", os.path.join(demo, "demo.sh")], cwd, 300)
        res["demo_bug"] = rc
        res["demo_says"] = out.strip().splitlines()[-1:] if out.strip() else ""
        if check:
            t = time.time()
            rc, out = run([os.path.join(VERIF, "run.py"), prop], VERIF, 900, EZMC_REPO=cwd,
                          VERIF_SEED="1", VERIF_TIER="quick", EZMC_EVIDENCE=os.path.join(WORK, "ev-" + id_))
            res["check"] = rc
            res["sec"] = round(time.time() - t)
            v = [x for x in out.splitlines() if x.startswith("VIOLATION")]
            res["caught"] = rc == 1 and any("property=%s " % prop in x for x in v)
            res["says"] = [x for x in out.splitlines() if x.strip()][-6:] if not res["caught"] else \
                [x for x in out.splitlines() if not x.startswith("VIOLATION")][-3:]
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
        shutil.rmtree(os.path.join(WORK, "demo-" + id_), ignore_errors=True)
    return res


def good(r):
    return (r.get("demo_clean") == 0 and r.get("demo_bug") not in (0, None, 124)
            and r.get("passed", 0) >= 733 and r.get("orig", 0) > 0)


def main():
    what, args = sys.argv[1], sys.argv[2:]
    ids = None
    if what == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        ids = []
        for bug in ns["BUGS"]:
            if args[1:] and bug["id"] not in args[1:]:
                continue
            err = make(bug)
            if err:
                print("MAKE", err)
            else:
                ids.append(bug["id"])
    else:
        ids = args or sorted(os.listdir(SEEDED))
    jobs = int(os.environ.get("JOBS", "3"))
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(attempt, ids):
            tag = "ok " if good(r) else "BAD"
            print(tag, "CAUGHT" if r.get("caught") else "missed", json.dumps(r)
                  if not (good(r) and r.get("caught")) else "%s %s %ss" % (r["id"], r["property"], r["sec"]), flush=True)


if __name__ == "__main__":
    main()
