"""The engine of the checks: model checking, histories from the model, random programs, validation, evidence."""
import hashlib
import json
import os
import random
import re
import sys
import time
from concurrent.futures import ThreadPoolExecutor

from . import build, progs, run, tlc
from .base import CheckError, EVIDENCE, ROOT, say, seed

ABNORMAL = {"crash", "use_after_free", "heap_overflow", "double_free", "livelock", "vlimit", "stuck", "corrupt", "toolong",
            "too_many_threads"}
MAXEV = 3000


def cfg_of(m, gen=False):
    """The configuration of a model as text for TLC."""
    t = ["SPECIFICATION " + ("GenSpec" if gen else m.get("spec", "Spec")), "CONSTANTS"]
    c = {"MaxT": "0", "Calls": "2", "NC": "2"}
    c.update(m.get("const", {}))
    if gen:
        c.update(m.get("gconst", {}))
    if "Started" not in c:
        c["Started"] = "{%s}" % ", ".join(str(i) for i in range(int(c["NC"])))
    for k, v in {"Slack": "NoSlack", "ObjDefs": "Objects", "Menu": "AMenu", "Ghost0": "G0", "GCall": "ACall", "GRet": "ARet"}.items():
        t.append("  %s <- %s" % (k, v))
    for k, v in c.items():
        t.append("  %s = %s" % (k, v))
    if gen:
        t.append("VIEW GenView")
    else:
        t += ["INVARIANT " + i for i in m.get("inv", ["Inv"])]
        t += ["PROPERTY " + i for i in m.get("prop", [])]
    return "\n".join(t) + "\n"


HLINE = re.compile(r'^<<"H", "(.*)">>$')
OLINE = re.compile(r'^<<"OBJS", "(.*)">>$')


def _seq(s):
    return json.loads(s.replace('\\"', '"').replace("<<", "[").replace(">>", "]"))


def histories(m, cap, rng):
    """All histories of the generator, without those which are the beginning of another one."""
    import shutil
    d = tlc.scratch()
    try:
        with open(os.path.join(d, "gen.cfg"), "w") as f:
            f.write(cfg_of(m, True))
        code, out = tlc._tlc(["-config", "gen.cfg", "-workers", "1", "-noGenerateSpecTE", "-deadlock", "-metadir",
                              os.path.join(d, "m"), m["module"] + ".tla"], d, timeout=600)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    st = tlc.STATS.findall(out)
    if code or not st:
        raise CheckError("generator %s failed (exit %d):\n%s" % (m["module"], code, out[-3000:]))
    hs = set()
    for line in out.splitlines():
        x = HLINE.match(line)
        if x:
            hs.add(x.group(1))
    objs = None
    hist = {}
    for h in hs:
        s = _seq(h)
        hist[json.dumps(s)] = s
    pre = set()
    for s in hist.values():
        if len(s) > 1:
            pre.add(json.dumps(s[:-1]))
    todo = list(pre)
    leaves = sorted(k for k in hist if k not in pre)
    total = len(hist)
    if len(leaves) > cap:
        leaves = rng.sample(leaves, cap)
    states = int(st[-1][1].replace(",", ""))
    return [hist[k] for k in leaves], total, states


def trace_of(r, module):
    return {"PipeTrace": run.pipe_trace, "IoTrace": run.io_trace}.get(module, run.trace)(r)


class Check:
    def __init__(self, pid, spec, tier):
        self.pid, self.spec, self.tier = pid, spec, tier
        self.t0 = time.time()
        self.seed = seed()
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.models = []
        self.gens = []
        self.viol = []
        self.seen = set()
        self.runs = 0
        self.unrepeatable = 0
        self.prolonged = 0
        self.known = []

    # ------------------------------------------------------------ models
    def model(self, m):
        t = time.time()
        const = dict(m.get("const", {}))
        if self.tier == "thorough":
            const.update(m.get("thorough", {}))
        mm = dict(m, const=const)
        if m.get("plain"):
            r = tlc.model(m["module"], cfg=m["deep" if self.tier == "thorough" else "cfg"], timeout=5000 if self.tier == "thorough" else 400, workers=8 if self.tier == "thorough" else 3)
        else:
            r = tlc.model(m["module"], cfgtext=cfg_of(mm), timeout=5000 if self.tier == "thorough" else 400, workers=8 if self.tier == "thorough" else 3)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.models.append({"model": m["module"], "constants": const, "distinct": r.distinct, "generated": r.generated})
        say("model %s %s: %d distinct states, %.1f s" % (m["module"], const, r.distinct, time.time() - t))

    # -------------------------------------------------------------- runs
    def execute(self, exe, runs, module, label):
        """Runs in batches; ends at the first violation."""
        step = 1500
        for k in range(0, len(runs), step):
            part = runs[k:k + step]
            run.execute(exe, part)
            part = [r for r in part if not r.skipped]
            self.runs += len(part)
            slow = self.longer(exe, part)
            traces = []
            which = []
            for r in part:
                if len(r.events) > MAXEV:
                    r.events = r.events[:MAXEV] + [{"e": "toolong", "c": 0, "t": 0}]
                t = self.trace_of(r, module)
                key = hashlib.sha1(json.dumps(t, sort_keys=True).encode()).digest()
                if key in self.seen:
                    continue
                self.seen.add(key)
                traces.append(t)
                which.append(r)
            # runs which obviously went wrong first: they need no company
            odd = [i for i, t in enumerate(traces) if t["ev"] and t["ev"][-1]["e"] in ABNORMAL]
            if odd:
                odd.sort(key=lambda i: which[i] in slow)
                sel = odd[:20]
                traces = [traces[i] for i in sel]
                which = [which[i] for i in sel]
            if not traces:
                continue
            rej, st = tlc.validate(traces, module)
            self.cov["states"] += st[0]
            self.cov["transitions"] += st[1]
            self.cov["traces_validated_against_impl"] += len(traces)
            if len(self.cov["samples"]) < 3 and which:
                self.cov["samples"].append({"kind": label, "program": which[0].lines, "schedule": which[0].head,
                                            "events": len(which[0].events)})
            for i in sorted(rej):
                self.confirm(exe, which[i], module, rej[i], label)
                if self.viol:
                    return

    def longer(self, exe, runs):
        """A program which needs many steps is no livelock: one which reaches the limit gets ten times as many."""
        slow = [r for r in runs if r.events and r.events[-1]["e"] == "livelock"]
        for k in range(0, len(slow), 24):
            part = slow[k:k + 24]
            for r in part:
                h = r.head.split()
                h[-1] = str(int(h[-1]) * 10)
                r.head = " ".join(h)
            before = [r.events for r in part]
            run.execute(exe, part)
            for r, e in zip(part, before):
                if r.skipped:
                    r.events = e
            self.prolonged += len(part)
            if any(r.events[-1]["e"] in ABNORMAL for r in part):
                return slow[k + 24:]
        return []

    def trace_of(self, r, module):
        return trace_of(r, module)

    def confirm(self, exe, r, module, pos, label):
        again = run.Run(r.lines, r.head, r.flags)
        run.execute(exe, [again])
        if len(again.events) > MAXEV:
            again.events = again.events[:MAXEV] + [{"e": "toolong", "c": 0, "t": 0}]
        t = self.trace_of(again, module)
        rej, _ = tlc.validate([t], module)
        if not rej:
            self.unrepeatable += 1
            say("a rejected trace was not rejected again: ignored")
            return
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, "%s-replay.json" % self.pid)
        evs = t["ev"]
        with open(path, "w") as f:
            json.dump({"property": self.pid, "driver": os.path.basename(exe), "module": module, "label": label, "schedule": again.head,
                       "flags": again.flags, "program": again.lines, "rejected_at": rej[0],
                       "event": evs[rej[0] - 1] if rej[0] <= len(evs) else None, "events": evs}, f, indent=1)
        self.viol.append(path)
        say("rejected at event %d of %d: %s" % (rej[0], len(evs), json.dumps(evs[rej[0] - 1]) if rej[0] <= len(evs) else "?"))
        say("program:\n  " + "\n  ".join(again.lines))
        for e in evs[max(0, rej[0] - 12):rej[0]]:
            say("    " + json.dumps(e))

    # ---------------------------------------------------- known findings
    def findings(self, exes):
        """The programs of the known findings: what they show is reported, it does not count as a violation."""
        for k in known(self.pid):
            exe = exes.get(k.get("driver", "drv")) or build.build((k["driver"],))[k["driver"]]
            r = run.Run(k["program"], k["schedule"], k.get("flags", {}))
            run.execute(exe, [r])
            rej, _ = tlc.validate([self.trace_of(r, k.get("module", "CoTrace"))], k.get("module", "CoTrace"))
            if rej:
                self.known.append(k["what"])

    # --------------------------------------------------------------- all
    def go(self):
        th = self.tier == "thorough"
        drivers = sorted({g.get("driver", "drv") for g in self.spec.get("random", [])} | ({"drv"} if self.spec.get("gen") else set()))
        # models, generators and the build do not depend on each other
        pool = ThreadPoolExecutor(3)
        try:
            gens = []
            for m in self.spec.get("gen", []):
                gm = dict(m)
                if th and "gthorough" in m:
                    gm["gconst"] = dict(m.get("gconst", {}), **m["gthorough"])
                gens.append((m, pool.submit(histories, gm, m.get("cap", 1200) * (8 if th else 1), random.Random(self.rng.randrange(1 << 60)))))
            models = [pool.submit(self.model, m) for m in self.spec.get("models", [])]
            t = time.time()
            exes = build.build(tuple(drivers))
            say("built in %.1f s" % (time.time() - t))
            for m in models:
                m.result()
            hist = [(m, g.result()) for m, g in gens]
        finally:
            pool.shutdown(cancel_futures=True)
        self.findings(exes)
        for m, (hs, total, states) in hist:
            t = time.time()
            runs = []
            for h in hs:
                lines = progs.history(m["objs"], h, m.get("start"))
                for k in range(m.get("reps", 1)):
                    runs.append(run.Run(lines, run.coop_head(self.rng, 400000) if k == 0 else run.head(self.rng, 400000), self.spec.get("flags", {})))
            self.gens.append({"model": m["module"], "histories": total, "replayed": len(hs), "states": states})
            self.cov["states"] += states
            self.execute(exes["drv"], runs, "CoTrace", "history of the model")
            say("histories of %s: %d, replayed %d (%d runs), %.1f s" % (m["module"], total, len(hs), len(runs), time.time() - t))
            if self.viol:
                break
        for gspec in self.spec.get("random", []):
            if self.viol:
                break
            t = time.time()
            n = gspec["n"] * (20 if th else 1)
            runs = []
            fn = gspec["fn"]
            reps = gspec.get("reps", 3)
            while len(runs) < n:
                rr = random.Random(self.rng.randrange(1 << 60))
                x = fn(rr)
                lines, flags = x if isinstance(x, tuple) else (x, {})
                flags = dict(self.spec.get("flags", {}), **flags)
                for _ in range(reps):
                    runs.append(run.Run(lines, run.head(rr, gspec.get("steps", 600000), strategy=gspec.get("strategy"), ticks=gspec.get("ticks", (20, 200, 2000))), flags))
            self.execute(exes[gspec.get("driver", "drv")], runs, gspec.get("module", "CoTrace"), "random program: " + fn.__name__)
            say("random %s: %d runs, %.1f s" % (fn.__name__, len(runs), time.time() - t))
        self.evidence()
        for k in self.known:
            say("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.viol:
            for v in self.viol:
                say("VIOLATION property=%s replay=%s" % (self.pid, v))
            return 1
        say("property %s held: %d runs, %d distinct traces validated, %.1f s" % (
            self.pid, self.runs, self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0

    def evidence(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = dict(self.cov)
        cov["runs"] = self.runs
        cov["models"] = self.models
        cov["generators"] = self.gens
        cov["unrepeatable_rejections"] = self.unrepeatable
        cov["runs_with_more_steps"] = self.prolonged
        cov["exhaustive"] = False
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
                       "assumptions": self.spec.get("assume", []) + ASSUME,
                       "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}, f, indent=1)


def known(pid):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


ASSUME = ["sequentially consistent memory: the simulator interleaves threads at memory accesses and synchronisation, it does not reorder accesses",
          "time, thread scheduling, futexes and memory mapping are those of the simulator"]


def main(argv):
    from .checks import CHECKS
    if len(argv) < 2 or argv[1] not in CHECKS:
        print("usage: check.py <property> | replay <file>")
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        return Check(argv[1], CHECKS[argv[1]], tier).go()
    except CheckError as e:
        say("ERROR: %s" % e)
        return 3


def replay(path):
    with open(path) as f:
        x = json.load(f)
    exe = build.build((x["driver"],))[x["driver"]]
    r = run.Run(x["program"], x["schedule"], x["flags"])
    run.execute(exe, [r])
    t = trace_of(r, x["module"])
    rej, _ = tlc.validate([t], x["module"])
    for i, e in enumerate(t["ev"]):
        say("%4d %s%s" % (i + 1, json.dumps(e), "   <== not allowed" if rej.get(0) == i + 1 else ""))
    return 1 if rej else 0
