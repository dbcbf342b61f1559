"""Runs TLC: models, generators of histories, validation of traces."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading

from .base import CheckError, JOBS, SPEC, say


def _tlc(args, cwd, env=None, timeout=600, heap="2g", extra=""):
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -XX:ParallelGCThreads=2 -Djava.io.tmpdir=%s %s" % (heap, cwd, extra)
    try:
        p = subprocess.run(["tlc"] + args, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC needs more than %d s: %s" % (timeout, " ".join(args)))
    return p.returncode, p.stdout + p.stderr


def scratch():
    """A copy of the specification: TLC leaves files next to it."""
    d = tempfile.mkdtemp(prefix="cospec")
    for n in os.listdir(SPEC):
        if n.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, n), d)
    return d


STATS = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left")


class Model:
    def __init__(self, name, out, code):
        m = STATS.findall(out)
        self.name, self.code, self.out = name, code, out
        self.generated, self.distinct, self.left = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0, -1)


def model(module, cfg=None, cfgtext=None, timeout=600, workers=None, heap="4g", deadlock=False):
    """Model checks a module; the model must hold: everything else is an error of the check."""
    d = scratch()
    try:
        cfgname = cfg or (module + ".cfg")
        if cfgtext is not None:
            cfgname = module + "_x.cfg"
            with open(os.path.join(d, cfgname), "w") as f:
                f.write(cfgtext)
        args = ["-config", cfgname, "-workers", str(workers or JOBS), "-noGenerateSpecTE", "-metadir", os.path.join(d, "m")]
        if not deadlock:
            args.append("-deadlock")
        code, out = _tlc(args + [module + ".tla"], d, timeout=timeout, heap=heap)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = Model(cfgname, out, code)
    if code != 0 or m.left != 0 or m.distinct < 2:
        raise CheckError("model %s failed (exit %d):\n%s" % (cfgname, code, out[-3000:]))
    return m


def validate(traces, module="CoTrace", timeout=800, parts=None):
    """Validates a list of traces.  Returns ({index: position of the first event which is not allowed}, states)."""
    d = scratch()
    rejected = {}
    states = [0, 0]
    errs = []
    n = len(traces)
    parts = parts or min(JOBS, max(1, n // 20))
    # long traces are spread evenly
    order = sorted(range(n), key=lambda i: -len(traces[i]["ev"]))

    def work(k):
        idx = order[k::parts]
        path = os.path.join(d, "t%d.ndjson" % k)
        with open(path, "w") as f:
            for i in idx:
                t = dict(traces[i])
                t["id"] = str(i)
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        try:
            code, out = _tlc(["-config", module + ".cfg", "-workers", "1", "-noGenerateSpecTE", "-deadlock",
                              "-metadir", os.path.join(d, "m%d" % k), module + ".tla"], d,
                             env={"TRACES": path}, timeout=timeout, heap="2g", extra="-Dtlc2.tool.queue.IStateQueue=StateDeque")
        except CheckError as e:
            errs.append(e)
            return
        m = STATS.findall(out)
        ok = re.search(r'<<"VALIDATED", (\d+)>>', out)
        if not m or not ok or int(ok.group(1)) != len(idx):
            errs.append(CheckError("validation failed (exit %d):\n%s" % (code, out[-3000:])))
            return
        for i, pos in re.findall(r'<<"REJECTED", "(\d+)", (\d+)>>', out):
            rejected[int(i)] = int(pos)
        states[0] += int(m[-1][1].replace(",", ""))
        states[1] += int(m[-1][0].replace(",", ""))

    try:
        ths = [threading.Thread(target=work, args=(k,)) for k in range(parts) if order[k::parts]]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if errs:
        raise errs[0]
    return rejected, states
