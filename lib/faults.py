"""A part which enumerates crash points and faults at the system-call level.

For every scenario the fault-free execution is recorded first; its calls
define the plans, and every plan is executed in a process of its own."""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from lib import mc


class Faults(object):
    kind = "faults"

    def __init__(self, name, module, scenarios, plans):
        """scenarios(tier) -> list of JSON-able scenarios; plans(tier, scenario,
        log) -> list of plans for the recorded log of calls."""
        self.name, self.module = name, module
        self.scenarios, self.plans = scenarios, plans

    # -- servers
    def shim(self):
        path = os.path.join(mc.SCRATCH, "iofault.so")
        if not os.path.exists(path):
            subprocess.check_call(["gcc", "-O1", "-fPIC", "-shared", "-w", "-o", path,
                                   os.path.join(mc.VERIF, "lib", "iofault.c"), "-ldl"])
        return path

    def start(self):
        env = dict(os.environ, LD_PRELOAD=self.shim(), PYTHONHASHSEED="0")
        return subprocess.Popen(
            [sys.executable, "-W", "ignore", os.path.join(mc.VERIF, "lib", "faultserver.py"),
             mc.VERIF, mc.REPO, self.module],
            env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    @staticmethod
    def ask(server, req):
        server.stdin.write(json.dumps(req) + "\n")
        server.stdin.flush()
        line = server.stdout.readline()
        if not line:
            raise RuntimeError("fault server died")
        return json.loads(line)

    def request(self, scenario, plan):
        return {"part": self.name, "dir": mc.scratch_dir(), "scenario": scenario, "plan": plan}

    def run_in(self, ctx):
        scen = list(self.scenarios(ctx.tier))
        self.shim()
        r = ctx.seed % max(1, len(scen))
        order = list(range(len(scen)))[r:] + list(range(len(scen)))[:r]

        def work(mine):
            server = self.start()
            out = []
            try:
                for i in mine:
                    res = self.ask(server, self.request(scen[i], None))
                    out.append((i, -1, None, res))
                    if res.get("bad") or res.get("crash"):
                        continue
                    for j, plan in enumerate(self.plans(ctx.tier, scen[i], res["log"])):
                        out.append((i, j, plan, self.ask(server, self.request(scen[i], plan))))
            finally:
                server.stdin.close()
                server.wait()
            return out

        n = mc.NPROC
        with ThreadPoolExecutor(n) as pool:
            res = [x for part in pool.map(work, [order[k::n] for k in range(n)]) for x in part]
        res.sort(key=lambda x: x[:2])
        kinds = {}
        for i, j, plan, r in res:
            ctx.executions += 1
            ctx.transitions += 1
            ctx.steps += len(r.get("log") or ()) or 1
            if plan:
                what = plan[0] + ":" + (r.get("at") or "?")
                kinds[what] = kinds.get(what, 0) + 1
            if r.get("crash"):
                raise RuntimeError("harness error: " + r["crash"])
            if r.get("bad"):
                ctx.fail(self.name, {"scenario": scen[i], "plan": plan}, r["bad"], r.get("key"))
            else:
                ctx.outcomes.add(mc._digest((self.name, scen[i], plan and plan[0], r["outcome"])))
        if len(ctx.samples) < 6:
            ctx.samples += [{"part": self.name, "scenario": scen[i], "plan": p,
                             "outcome": r.get("outcome")} for i, j, p, r in res[5:3000:997]]
        ctx.extra.setdefault("fault_points", {}).update(
            {self.name + " " + k: v for k, v in sorted(kinds.items())})

    def replay(self, data):
        server = self.start()
        try:
            r = self.ask(server, self.request(data["scenario"], data["plan"]))
        finally:
            server.stdin.close()
            server.wait()
        return r.get("bad") or r.get("crash"), r.get("key")
