#!/usr/bin/env python3
"""Look for blind spots: small changes of the source which survive the test
suite and the checks.

  mutate.py OUT.jsonl [FILE...]      (env JOBS, STRIDE, OFFSET)

A development aid only: no check uses it.  Every survivor has to be looked at
by hand: it is either equivalent, outside of every property, or a gap.
"""
import ast
import concurrent.futures as cf
import json
import os
import queue
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/mutwork"
PY = "/opt/venv/bin/python"
MAP = {
    "base": "P25 P15 P28", "body": "P16 P31 P13", "bytestreammanager": "P05 P02 P03",
    "cells": "P11 P10 P12 P28 P09 P08", "cellspancontroller": "P10 P08", "compatibility": "P06 P28 P14 P02 P05",
    "conf": "P09", "content": "P04 P31 P03", "document": "P31 P06 P24 P21 P17 P22 P05 P03 P04 P02 P01",
    "drawingpage": "P13 P28", "filemanager": "P03 P04 P02 P01 P05", "manifest": "P30 P03",
    "meta": "P17 P18 P31", "nodeorganizer": "P16 P13", "nodestructuretags": "P16 P13",
    "observer": "P24", "pagecontainer": "P13 P22", "propertymixins": "P28", "protection": "P28",
    "styles": "P21 P04", "table": "P27 P12 P28 P08 P10 P07 P09", "tablecolumncontroller": "P12 P27 P08 P07",
    "tablerowcontroller": "P12 P27 P08 P10 P07", "tablenormalizer": "P09 P07",
    "tableutils": "P12 P09 P10 P08 P07", "text": "P15 P14 P28", "timeparser": "P26",
    "variables": "P19 P20", "whitespaces": "P28 P15 P14 P23", "wrapcache": "P13 P22 P27",
    "xmlns": "P29 P31 P21 P04 P22", "presentationpage": "P13", "pages": "P13", "sheets": "P13",
    "const": "P29 P06",
}


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def rep(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what + ": " + text(n)[:60].replace("\n", " ") + " -> " + new[:60],
                    (raw[:a] + new.encode() + raw[b:]).decode()))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and \
                isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
    CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"],
           ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
           ast.In: ["not in"], ast.NotIn: ["in"]}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                rep(n, "%s %s %s" % (text(n.left), o, text(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            o = {"Add": "-", "Sub": "+", "Mult": "+"}[type(n.op).__name__]
            rep(n, "%s %s %s" % (text(n.left), o, text(n.right)), "bin")
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, bool):
                rep(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), "const")
                if n.value > 0:
                    rep(n, str(n.value - 1), "const")
            elif isinstance(n.value, str) and n.lineno > 10:
                rep(n, '(%s "X")' % text(n), "str")
                if n.value:
                    rep(n, '""', "str")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, o.join("(%s)" % text(v) for v in n.values), "bool")
            for v in n.values:
                rep(n, text(v), "bool1")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, text(n.operand), "not")
        elif isinstance(n, (ast.If, ast.While)):
            rep(n.test, "True" if isinstance(n, ast.If) else "False", "cond")
            if isinstance(n, ast.If):
                rep(n.test, "False", "cond")
        elif isinstance(n, ast.IfExp):
            rep(n, text(n.body), "ifexp")
            rep(n, text(n.orelse), "ifexp")
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                rep(n, text(n.lower) + ":", "slice")
                rep(n, ":" + text(n.upper), "slice")
        elif isinstance(n, ast.Call):
            if n.keywords and not n.args:
                pass
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                rep(n, "%s(%s, %s)" % (text(n.func), text(n.args[1]), text(n.args[0])), "swap")
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name):
                rep(n, "(%s)" % text(n.args[0]), "unwrap")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Break, ast.Continue)) \
                or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            rep(n, "pass", "del")
        if isinstance(n, ast.Return) and n.value is not None and not (
                isinstance(n.value, ast.Constant) and n.value.value is None):
            rep(n, "return None", "ret")
    return out


def sh(cmd, cwd, timeout, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC",
             PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", LC_ALL="C.UTF-8", **env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, text=True, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ""


def work(dirs, job):
    fname, i, line, what, new = job
    d = dirs.get()
    path = os.path.join(d, "ezodf", fname + ".py")
    old = open(path, encoding="utf-8", newline="").read()
    res = {"file": fname, "n": i, "line": line, "what": what}
    try:
        try:
            compile(new, path, "exec")
        except SyntaxError:
            res["fate"] = "syntax"
            return res
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(new)
        rc, out = sh([PY, "-W", "ignore", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                      "tests"], d, 120, PYTHONPATH=d)
        if rc:
            res["fate"] = "tests"
            return res
        for p in MAP[fname].split():
            rc, out = sh([os.path.join(VERIF, "run.py"), p], VERIF, 600, EZMC_REPO=d,
                         VERIF_TIER="quick", EZMC_EVIDENCE=os.path.join(WORK, "ev-" + os.path.basename(d)))
            if rc:
                res["fate"] = p if rc == 1 else "%s rc=%d" % (p, rc)
                return res
        res["fate"] = "SURVIVED"
        return res
    finally:
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(old)
        dirs.put(d)


def main():
    out, files = sys.argv[1], sys.argv[2:]
    n = int(os.environ.get("JOBS", "4"))
    stride, off = int(os.environ.get("STRIDE", "1")), int(os.environ.get("OFFSET", "0"))
    tag = os.environ.get("TAG", "w")
    dirs = queue.Queue()
    os.makedirs(WORK, exist_ok=True)
    for i in range(n):
        d = os.path.join(WORK, "%s%d" % (tag, i))
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        dirs.put(d)
    jobs = []
    for f in files or sorted(MAP):
        src = open("/repo/ezodf/%s.py" % f, encoding="utf-8", newline="").read()
        for i, (line, what, new) in enumerate(mutants(src)):
            if i % stride == off:
                jobs.append((f, i, line, what, new))
    print(len(jobs), "mutants", flush=True)
    with open(out, "w") as fo, cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda j: work(dirs, j), jobs):
            fo.write(json.dumps(r) + "\n")
            fo.flush()


if __name__ == "__main__":
    main()
