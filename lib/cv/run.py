"""Runs programs in the simulator and turns what they did into traces."""
import json
import subprocess
import tempfile
import threading

from .base import CheckError, JOBS

OBJ_PAD = 4
# operations whose outcome depends on the time
TIMED = {"lockfor", "lockuntil", "rlockfor", "rlockuntil", "acqfor", "acquntil", "waitfor", "waituntil", "waitforp", "waituntilp",
         "sleep", "sleepu", "burn", "cowaitfor", "cowaituntil", "tstart", "tstop", "treset", "trun", "tcb"}


class Run:
    """A program and a schedule.  head: the parameters of the simulator, lines: the program."""
    __slots__ = ("id", "head", "lines", "flags", "events", "note", "skipped")

    def __init__(self, lines, head, flags=None, note=""):
        self.id = 0
        self.head = head
        self.lines = lines
        self.flags = flags or {}
        self.events = None
        self.skipped = False
        self.note = note

    def text(self):
        return "R %d %s\n%s\nG\n" % (self.id, self.head, "\n".join(self.lines))


def head(rng, maxsteps=3000000, strategy=None, mem=None, ticks=(20, 200, 2000)):
    """Parameters of a schedule: seed strategy mem sync tick_us step_ns maxsteps."""
    s = rng.choice([0, 1, 1, 1, 1, 2, 2]) if strategy is None else strategy
    return "%d %d %d %d %d 1000 %d" % (rng.randrange(1, 1 << 30), s, mem or rng.choice([3, 10, 30, 100, 300, 1000]),
                                       rng.choice([20, 100, 300, 600]), rng.choice(ticks), maxsteps)


def coop_head(rng, maxsteps=3000000):
    return "%d 0 1000 100 2000 1000 %d" % (rng.randrange(1, 1 << 30), maxsteps)


def _worker(exe, runs, errs, timeout):
    try:
        with tempfile.TemporaryFile("w+") as fi, tempfile.TemporaryFile("w+") as fo, tempfile.TemporaryFile("w+") as fe:
            for r in runs:
                fi.write(r.text())
            fi.seek(0)
            p = subprocess.run([exe], stdin=fi, stdout=fo, stderr=fe, timeout=timeout)
            fo.seek(0)
            byid = {r.id: r for r in runs}
            cur = None
            for line in fo:
                line = line.rstrip("\n")
                if line.startswith("# "):
                    _, i, code, sig = line.split()
                    cur = byid[int(i)]
                    ev = []
                    st = (int(code), int(sig))
                elif line == ".":
                    if st[0] == -2:
                        cur.skipped = True
                        continue
                    if not ev or ev[-1]["e"] != "end":
                        if not ev or ev[-1]["e"] in ("call", "ret", "begin", "fin", "quiet", "rest", "dead", "item", "body",
                                                     "bodyend", "cb", "fincb", "prcb", "fire", "gen", "fn", "pop", "got", "close", "closed", "to", "list", "ready", "alive", "fault"):
                            ev.append({"e": "crash", "c": 0, "t": 0, "r": st[1] or st[0]})
                    cur.events = ev
                else:
                    try:
                        ev.append(json.loads(line))
                    except ValueError:
                        ev.append({"e": "crash", "c": 0, "t": 0, "r": -1})
            if p.returncode:
                fe.seek(0)
                raise CheckError("%s ended with %d: %s" % (exe, p.returncode, fe.read()[-500:]))
            for r in runs:
                if r.events is None and not r.skipped:
                    fe.seek(0)
                    raise CheckError("no result for run %d: %s" % (r.id, fe.read()[-500:]))
    except Exception as e:  # handed to the caller
        errs.append(e)


def execute(exe, runs, timeout=600):
    """Executes all runs, several at a time."""
    for i, r in enumerate(runs):
        r.id = i
    errs = []
    ths = []
    for k in range(JOBS):
        part = runs[k::JOBS]
        if part:
            t = threading.Thread(target=_worker, args=(exe, part, errs, timeout))
            t.start()
            ths.append(t)
    for t in ths:
        t.join()
    if errs:
        e = errs[0]
        raise e if isinstance(e, CheckError) else CheckError(repr(e))


def pipe_trace(run):
    """The trace of a pipeline as PipeTrace reads it."""
    src, cons, st = None, None, []
    for ln in run.lines:
        f = ln.split()
        if f[0] == "S":
            src = {"k": f[1], "n": int(f[2]), "cap": -1 if f[1] == "stream" else int(f[3])}
        elif f[0] == "X":
            st.append({"k": f[1], "a": int(f[2]), "b": int(f[3])})
        elif f[0] == "K":
            cons = {"k": f[1], "n": int(f[2])}
    evs = []
    for e in run.events:
        e = dict(e, t=0)
        e.pop("th", None)
        evs.append(e)
    return {"pipe": {"src": src, "st": st, "cons": cons}, "ev": evs}


def io_trace(run):
    """The trace of a program which transfers data as IoTrace reads it."""
    pairs, dgrams, n, listen, files, slots = [], [], 0, 0, 0, 1
    for ln in run.lines:
        f = ln.split()
        if f[0] == "P":
            pairs.append([int(f[1]), int(f[2])])
            slots = max(slots, int(f[1]) + 1, int(f[2]) + 1)
        elif f[0] == "D":
            dgrams.append(int(f[1]))
            slots = max(slots, int(f[1]) + 1)
        elif f[0] == "L":
            listen = int(f[1])
        elif f[0] == "F":
            files = int(f[1])
        elif f[0] == "C":
            n += 1
            for o in f[2:]:
                o = o.split(":")
                if o[0] in ("connect", "accept", "fopen"):
                    slots = max(slots, int(o[2]) + 1)
    return {"n": n, "pairs": pairs, "dgrams": dgrams, "listen": listen, "files": files, "slots": slots, "ev": [dict(e, t=0) for e in run.events]}


def trace(run):
    """The trace of a run as CoTrace reads it; what does not matter is normalised, so that equal behaviours are equal."""
    objs, cos = [], []
    timed = bool(run.flags.get("timed"))
    for ln in run.lines:
        f = ln.split()
        if f[0] == "O":
            a = [int(x) for x in f[2:]]
            objs.append({"k": f[1], "a": a + [0] * (OBJ_PAD - len(a))})
            timed = timed or f[1].startswith("timer")
        elif f[0] == "C":
            cos.append({"env": int(f[1]), "prio": int(f[2]), "start": int(f[5])})
            timed = timed or any(o.split(":")[0] in TIMED for o in f[6:])
    th = {}
    evs = []
    for e in run.events:
        e = dict(e)
        if "th" in e:
            e["th"] = th.setdefault(e["th"], len(th))
        if not timed:
            e["t"] = 0
        e.setdefault("t", 0)
        evs.append(e)
    return {"objs": objs, "cos": cos, "sched": run.flags.get("sched", 0), "forced": run.flags.get("forced", 0), "fifo": run.flags.get("fifo", 0),
            "pool": run.flags.get("pool", 0), "ev": evs}
