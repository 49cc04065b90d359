"""Bounded exhaustive exploration of the real ezodf code against small
reference models.

Two kinds of parts make up a check:

``Machine``  an operation alphabet over a pair (implementation, reference
             model).  Every operation sequence up to a depth is replayed on a
             fresh implementation; results and observable state are compared
             after the last operation.  With ``dedupe`` the search is a
             breadth-first search over canonical model states instead.
``Cases``    a finite set of inputs / schedules / fault points, every one of
             which is executed.

Nothing in here samples: VERIF_SEED only rotates the order in which the same
finite space is walked.
"""
import argparse
import atexit
import collections
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EZMC_REPO", "/repo")
CASE_TIMEOUT = int(os.environ.get("EZMC_CASE_TIMEOUT", "90"))
NPROC = max(1, min(8, os.cpu_count() or 1))

REJECT = (ValueError, IndexError, KeyError, TypeError)


class Mismatch(Exception):
    """The implementation disagrees with the reference model."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Hang(BaseException):
    pass


class Skip(Exception):
    """The history contains an operation which is not possible at this place:
    it is not a history of the property (and not counted)."""


# ---------------------------------------------------------------- scratch files

SCRATCH = None      # directory of this run, removed at its end


def scratch_dir():
    """A new empty directory for one execution (removed at the latest with
    the whole run)."""
    return tempfile.mkdtemp(dir=SCRATCH)


class scratch(object):
    """with scratch() as folder: ..."""

    def __enter__(self):
        self.folder = scratch_dir()
        return self.folder

    def __exit__(self, *a):
        shutil.rmtree(self.folder, ignore_errors=True)


def _make_scratch():
    global SCRATCH
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK | os.X_OK) else None
    SCRATCH = tempfile.mkdtemp(prefix="ezmc-", dir=base)
    owner = os.getpid()

    def remove():
        if os.getpid() == owner:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    atexit.register(remove)


def need(cond, msg, *args, **kw):
    if not cond:
        raise Mismatch(msg % args if args else msg, kw.get("key"))


def same(what, got, want, key=None):
    if got != want or type(got) != type(want) and not (
            isinstance(got, (list, tuple)) and isinstance(want, (list, tuple))):
        raise Mismatch("%s: got %r, expected %r" % (what, got, want), key)


def rejected(what, fn, exc=REJECT):
    """`fn` has to raise one of `exc`."""
    try:
        res = fn()
    except exc:
        return
    except Exception as e:
        raise Mismatch("%s: raised %s (%s) instead of a proper rejection"
                       % (what, type(e).__name__, e))
    raise Mismatch("%s: accepted (returned %r), expected a rejection" % (what, res))


def _on_alarm(signum, frame):
    raise Hang()


class guard(object):
    """Arms the watchdog around one execution."""

    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def cleanup():
    """Drop ezodf's global caches between executions (memory only)."""
    m = sys.modules.get("ezodf.wrapcache")
    if m is not None:
        try:
            m.clear()
        except Exception:
            pass


def explain(e):
    if isinstance(e, Mismatch):
        return str(e)
    if isinstance(e, Hang):
        return "no progress for %d s" % CASE_TIMEOUT
    tb = traceback.extract_tb(e.__traceback__)
    where = ["%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-4:]]
    return "unexpected %s: %s [%s]" % (type(e).__name__, e, " > ".join(where))


def execute(fn):
    """Run `fn`; returns (failure message or None, key, result)."""
    try:
        with guard():
            res = fn()
        return None, None, res
    except Skip:
        return None, None, Skip
    except Mismatch as e:
        return explain(e), e.key, None
    except (Exception, Hang) as e:
        return explain(e), None, None
    finally:
        cleanup()


# ---------------------------------------------------------------- parts

class Cases(object):
    """A finite set of cases; subclasses/instances give `cases(tier)` (an
    iterable of JSON-able values, deterministic) and `run(case)`, which raises
    Mismatch or returns a hashable outcome (None: trivial)."""
    kind = "cases"

    def __init__(self, name, cases, run, serial=False, chunk=None):
        self.name, self._cases, self._run = name, cases, run
        self.serial = serial

    def cases(self, tier):
        return self._cases(tier)

    def run(self, case):
        return self._run(case)


class Machine(object):
    """Subclass: configs(tier) -> list of (cfg, depth, dedupe);
    ops(cfg) -> list of operations; init(cfg) -> st; step(st, op);
    observe(st); canon(st) -> hashable (only for dedupe/statistics)."""
    kind = "machine"
    name = "machine"

    def enabled(self, cfg, st, op):
        return True

    def canon(self, st):
        return None

    def observe(self, st):
        pass

    def execute(self, cfg, seq):
        st = self.init(cfg)
        for op in seq:
            self.step(st, op)
        self.observe(st)
        return st


_PART = {}  # inherited by forked workers: name -> part
_TIER = "quick"
_KNOWN = {}  # keys of the listed findings of the property being checked


def _digest(obj):
    return hashlib.blake2b(repr(obj).encode("utf-8", "backslashreplace"),
                           digest_size=8).digest()


def _limits():
    signal.signal(signal.SIGALRM, _on_alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def _work_cases(args):
    name, lo, step, seed = args
    part = _PART[name]
    n, outcomes, sample, bad, hit = 0, set(), [], [], set()
    for i, case in enumerate(part.cases(_TIER)):
        if i % step != lo:
            continue
        err, key, res = execute(lambda: part.run(case))
        if res is Skip:
            continue
        n += 1
        if err is not None:
            if key in _KNOWN:
                hit.add(key)
                continue
            bad.append((i, case, err, key))
            if len(bad) >= 25:
                break
            continue
        if res is not None:
            outcomes.add(_digest(res))
        if len(sample) < 1:
            sample.append(case)
    return n, outcomes, sample, bad, hit


def _work_machine(args):
    """All sequences prefix + suffix with len(suffix) == k, exhaustively."""
    name, cfg, prefix, k = args
    m = _PART[name]
    ops = m.ops(cfg)
    n, canons, bad, steps = 0, set(), [], 0
    for suffix in itertools.product(range(len(ops)), repeat=k):
        seq = [ops[i] for i in prefix] + [ops[i] for i in suffix]
        err, key, st = execute(lambda: m.execute(cfg, seq))
        if st is Skip:
            continue
        n += 1
        steps += len(seq)
        if err is not None:
            if key in _KNOWN:
                if not any(b[3] == key for b in bad):
                    bad.append((len(seq), seq, err, key))
                continue
            bad.append((len(seq), seq, err, key))
            if len(bad) >= 25:
                break
            continue
        c = m.canon(st)
        if c is not None:
            canons.add(_digest(c))
    return n, steps, canons, bad


def _work_bfs(args):
    """Expand a batch of histories by every operation."""
    name, cfg, hists = args
    m = _PART[name]
    ops = m.ops(cfg)
    out, n, bad, steps = [], 0, [], 0
    for hist in hists:
        base = [ops[i] for i in hist]
        for j, op in enumerate(ops):
            seq = base + [op]
            err, key, st = execute(lambda: m.execute(cfg, seq))
            if st is Skip:
                continue
            n += 1
            steps += len(seq)
            if err is not None:
                if key in _KNOWN:
                    if not any(b[3] == key for b in bad):
                        bad.append((len(seq), seq, err, key))
                    continue
                bad.append((len(seq), seq, err, key))
                if len(bad) >= 25:
                    return out, n, steps, bad
                continue
            out.append((hist + (j,), _digest(m.canon(st))))
    return out, n, steps, bad


class Context(object):
    def __init__(self, pid, tier, seed, known):
        self.pid, self.tier, self.seed, self.known = pid, tier, seed, known
        self.violations = []
        self.known_hit = collections.OrderedDict()
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.executions = 0
        self.steps = 0
        self.samples = []
        self.parts = []
        self.extra = {}

    # -- results
    def fail(self, part, data, msg, key=None):
        if key is not None and key in self.known:
            self.known_hit[key] = self.known[key]
            return
        self.violations.append((part, data, msg))

    def pool(self):
        ctx = multiprocessing.get_context("fork")
        return ProcessPoolExecutor(NPROC, mp_context=ctx, initializer=_limits)

    def run(self, part):
        _PART[part.name] = part
        t = time.time()
        before = self.executions
        try:
            if part.kind == "cases":
                self._run_cases(part)
            elif part.kind == "machine":
                self._run_machine(part)
            else:
                part.run_in(self)
        except BrokenProcessPool:
            self.violations.append((part.name, {"note": "rerun the check"},
                                    "a worker process died while executing the code"))
        self.parts.append({"part": part.name, "executions": self.executions - before,
                           "wall_s": round(time.time() - t, 2)})

    def _run_cases(self, part):
        if part.serial:
            res = [_work_cases((part.name, 0, 1, self.seed))]
        else:
            step = NPROC * 4
            order = [(i + self.seed) % step for i in range(step)]
            with self.pool() as pool:
                res = list(pool.map(_work_cases,
                                    [(part.name, lo, step, self.seed) for lo in order]))
        bad = []
        for n, outcomes, sample, b, hit in res:
            for key in hit:
                self.known_hit[key] = self.known[key]
            self.executions += n
            self.transitions += n
            self.steps += n
            self.outcomes |= {part.name.encode() + o for o in outcomes}
            bad += b
            if sample and len([s for s in self.samples if s["part"] == part.name]) < 2:
                self.samples.append({"part": part.name, "case": sample[0]})
        bad.sort(key=lambda b: b[0])
        for i, case, err, key in bad:
            self.fail(part.name, {"case": case}, err, key)

    def _run_machine(self, part):
        for ci, (cfg, depth, dedupe) in enumerate(part.configs(self.tier)):
            ops = part.ops(cfg)
            tag = ("%s/%d/" % (part.name, ci)).encode()
            err, key, st = execute(lambda: part.execute(cfg, []))
            self.executions += 1
            if err is not None:
                self.fail(part.name, {"cfg": cfg, "ops": []}, err, key)
                continue
            c = part.canon(st)
            if c is not None:
                self.states.add(tag + _digest(c))
            self.samples.append({"part": part.name, "cfg": cfg,
                                 "ops": [ops[(i * 7 + 3) % len(ops)] for i in range(depth)],
                                 "depth": depth, "alphabet": len(ops),
                                 "search": "bfs" if dedupe else "all sequences"})
            if dedupe:
                self._bfs(part, cfg, ops, depth, tag)
            else:
                self._all(part, cfg, ops, depth, tag)

    def _all(self, part, cfg, ops, depth, tag):
        # level by level, so that the first counterexample is the shortest
        for d in range(1, depth + 1):
            plen = 0
            while plen < d and len(ops) ** plen < NPROC * 4:
                plen += 1
            prefixes = list(itertools.product(range(len(ops)), repeat=plen))
            r = self.seed % len(prefixes)
            prefixes = prefixes[r:] + prefixes[:r]
            jobs = [(part.name, cfg, p, d - plen) for p in prefixes]
            if len(ops) ** d < 200:
                res = [_work_machine(j) for j in jobs]
            else:
                with self.pool() as pool:
                    res = list(pool.map(_work_machine, jobs,
                                        chunksize=max(1, len(jobs) // 256)))
            bad = []
            for n, steps, canons, b in res:
                self.executions += n
                self.transitions += n
                self.steps += steps
                self.states |= {tag + c for c in canons}
                bad += b
            if bad:
                self._report(part, cfg, bad)
                if self.violations:
                    return

    def _bfs(self, part, cfg, ops, depth, tag):
        seen = set()
        err, key, st = execute(lambda: part.execute(cfg, []))
        seen.add(_digest(part.canon(st)))
        frontier = [()]
        for d in range(1, depth + 1):
            batch = max(1, min(64, len(frontier) // (NPROC * 4) + 1))
            jobs = [(part.name, cfg, frontier[i:i + batch])
                    for i in range(0, len(frontier), batch)]
            if len(frontier) * len(ops) < 200:
                res = [_work_bfs(j) for j in jobs]
            else:
                with self.pool() as pool:
                    res = list(pool.map(_work_bfs, jobs))
            nxt, bad = [], []
            for out, n, steps, b in res:
                self.executions += n
                self.transitions += n
                self.steps += steps
                bad += b
                for hist, dg in out:
                    if dg not in seen:
                        seen.add(dg)
                        nxt.append(hist)
            if bad:
                self._report(part, cfg, bad)
                if self.violations:
                    break
            frontier = nxt
            if not frontier:
                self.extra.setdefault("fixpoints", []).append(
                    "%s closed at depth %d" % (part.name, d))
                break
        self.states |= {tag + s for s in seen}

    def _report(self, part, cfg, bad):
        bad.sort(key=lambda b: (b[0], repr(b[1])))
        for _, seq, err, key in bad:
            self.fail(part.name, {"cfg": cfg, "ops": seq}, err, key)


class Check(object):
    def __init__(self, pid, level, parts, rule, assumptions=()):
        self.pid, self.level, self.parts = pid, level, parts
        self.rule, self.assumptions = rule, list(assumptions)


# ---------------------------------------------------------------- known findings

def known_findings(pid):
    """key -> text for the findings of `pid` listed in known_findings.txt."""
    found = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" ", 1)
                assert key.startswith("key="), line
                found[key[4:]] = text
    return found


# ---------------------------------------------------------------- main

def load(pid):
    for fn in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if fn.startswith("c_") and fn.endswith(".py"):
            src = open(os.path.join(VERIF, "checks", fn), encoding="utf-8").read()
            if '"%s"' % pid in src:
                mod = importlib.import_module("checks." + fn[:-3])
                for c in mod.CHECKS:
                    if c.pid == pid:
                        return c
    raise SystemExit("no such check: %s" % pid)


def write_replay(pid, part, data, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    doc = {"property": pid, "part": part, "data": data, "failure": msg,
           "replay_with": "python run.py %s --replay <this file>" % pid}
    txt = json.dumps(doc, indent=1, sort_keys=True, default=repr)
    name = "%s-%s.json" % (pid, hashlib.sha1(txt.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(txt)
    return os.path.relpath(path, VERIF)


def import_failure(pid, tier, seed, e, t0):
    msg = explain(e)
    path = write_replay(pid, "import", {"error": msg}, msg)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    print("  the library can not be used: " + msg)
    return 1


def replay(check, path):
    doc = json.load(open(path))
    data = doc["data"]
    for part in check.parts:
        if part.name != doc["part"]:
            continue
        if part.kind == "cases":
            err, key, _ = execute(lambda: part.run(_tuplify(data["case"])))
        elif part.kind == "machine":
            err, key, _ = execute(lambda: part.execute(_tuplify(data["cfg"]),
                                                       [_tuplify(o) for o in data["ops"]]))
        else:
            err, key = part.replay(data)
        if err is None:
            print("replay: the property holds on this execution")
            return 0
        print("VIOLATION property=%s replay=%s" % (check.pid, path))
        print("  " + err)
        return 1
    print("replay: part %r not found" % doc["part"])
    return 2


def _tuplify(x):
    if isinstance(x, list):
        return tuple(_tuplify(i) for i in x)
    return x


def main(argv):
    global _TIER, _KNOWN
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    _TIER = a.tier
    t0 = time.time()
    _limits()
    _make_scratch()
    try:
        import ezodf  # noqa: F401
        check = load(a.pid)
    except SystemExit:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(REPO + os.sep) for f in tb):
            return import_failure(a.pid, a.tier, seed, e, t0)
        raise
    if not os.path.abspath(ezodf.__file__).startswith(REPO + os.sep):
        print("ezodf is not imported from %s" % REPO)
        return 2
    if a.replay:
        return replay(check, a.replay)

    _KNOWN = known_findings(a.pid)
    ctx = Context(a.pid, a.tier, seed, _KNOWN)
    for part in check.parts:
        ctx.run(part)
        if ctx.violations:
            break

    for key, text in sorted(ctx.known_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (a.pid, text))
    cov = {
        "rule": check.rule,
        "samples": ctx.samples[:12] or ["none"],
        "parts": ctx.parts,
        "exhaustive": not ctx.violations,
    }
    if check.level == "model_checking":
        # every model trace is replayed on the real code: executions;
        # transitions are the model steps taken on those traces
        cov.update({"states": len(ctx.states) + len(ctx.outcomes),
                    "transitions": ctx.steps,
                    "traces_validated_against_impl": ctx.executions})
    else:
        cov.update({"evaluations": ctx.executions,
                    "distinct_nontrivial": len(ctx.outcomes) + len(ctx.states),
                    "operations_executed": ctx.steps})
    cov.update(ctx.extra)
    ev = {"property": a.pid, "tier": a.tier, "seed": seed, "level": check.level,
          "coverage": cov, "assumptions": check.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    print("%s %s: %d executions, %d states/outcomes, %d operations, %.1f s"
          % (a.pid, a.tier, ctx.executions, len(ctx.outcomes) + len(ctx.states),
             ctx.steps, time.time() - t0))
    if ctx.violations:
        part, data, msg = ctx.violations[0]
        path = write_replay(a.pid, part, data, msg)
        print("VIOLATION property=%s replay=%s" % (a.pid, path))
        print("  [%s] %s" % (part, msg))
        print("  %s" % json.dumps(data, default=repr)[:2000])
        return 1
    return 0
