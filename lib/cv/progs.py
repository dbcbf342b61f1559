"""Random programs, one generator per group of operations.

A generator returns the lines of a program.  The programs keep to the documented use of the library: values which are
shared are only changed with the lock held, nobody waits for a handle which has been given up, periodic timers are
stopped.  Everything else (how many coroutines, where they run, in which order they do what) is left to chance.
"""


class Prog:
    def __init__(self, rng, envs=None):
        self.r = rng
        self.objs = []
        self.cos = []
        self.n_env = envs if envs is not None else rng.choice([1, 1, 2, 3])
        self.mode = rng.choice(["envs", "envs", "pool", "mix", "mix"])
        self.used_main = False
        self.base = rng.choice([0, 0, 1, 3])
        self.preempt = 0
        self.max = 0

    def obj(self, kind, *a):
        self.objs.append("O %s %s" % (kind, " ".join(str(x) for x in (a or (0,)))))
        return len(self.objs) - 1

    def place(self, threads=True):
        r = self.r
        if self.mode == "envs":
            return r.randrange(self.n_env)
        if self.mode == "pool":
            return -1
        c = [-1] + list(range(self.n_env)) * 2
        if threads:
            c.append(-3)
            if not self.used_main:
                c.append(-2)
        p = r.choice(c)
        if p == -2:
            self.used_main = True
        return p

    def co(self, ops, env=None, prio=None, shared=0, stack=0, start=1, threads=True):
        if env is None:
            env = self.place(threads)
        if env == -2:
            self.used_main = True
        if prio is None:
            prio = self.r.choice([99, 99, 99, 50, 10, 0])
        self.cos.append("C %d %d %d %d %d %s" % (env, prio, shared, stack, start, " ".join(ops)))
        return len(self.cos) - 1

    def set(self, c, ops):
        """What coroutine c does, decided afterwards"""
        self.cos[c] = " ".join(self.cos[c].split()[:6] + ops)

    def lines(self):
        # whoever spins never leaves its turn to a lower priority
        if any(o.startswith("O spin") for o in self.objs):
            self.cos = [" ".join(c.split()[:2] + ["99"] + c.split()[3:]) for c in self.cos]
        own = self.r.randint(0, self.n_env) if self.r.random() < .2 else 0
        return ["E %d %d %d %d 0 %d" % (self.n_env, self.preempt, self.base, self.max, own)] + self.objs + self.cos


def pause(r, long=True):
    """Something between two operations."""
    x = r.random()
    if x < .45:
        return []
    if x < .8:
        return ["yield"] * r.randint(1, 3)
    if x < .9 or not long:
        return ["sleep:%d" % r.choice([300, 1000, 2000])]
    return ["sleep:%d" % r.choice([5000, 15000, 30000])]


def history(objs, hist, start=None):
    """A history of CoSys as a program: every client in an env of its own, the order is given by gates.

    A client which waits at a gate keeps its thread, so nothing else (callbacks of timers) may run there: the envs are
    exclusive.
    start: the clients which exist from the beginning, the others are spawned by them."""
    n = 1 + max(h[0] for h in hist)
    for c, op, a, soft in hist:
        if op in ("spawn",):
            n = max(n, a[0] + 1)
    ops = [[] for _ in range(n)]
    for k, (c, op, a, soft) in enumerate(hist):
        ops[c].append("%s:%d" % ("sgate" if soft else "gate", k + 1))
        ops[c].append(":".join([op] + [str(x) for x in a]))
    lines = ["E %d 0 0 0 1" % n] + ["O %s %s" % (k, " ".join(str(x) for x in a)) for k, a in objs]
    for c in range(n):
        lines.append("C %d 99 0 0 %d %s" % (c, 1 if start is None or c in start else 0, " ".join(ops[c])))
    return lines


# ------------------------------------------------------------------ locks

LOCKS = ["mutex", "rmutex", "tmutex", "rtmutex", "spin"]


def lock(r, kinds=LOCKS, timed=True):
    p = Prog(r)
    k = r.choice(kinds)
    m = [p.obj(k) for _ in range(r.choice([1, 1, 1, 2]))]
    v = [p.obj("var", 0) for _ in m]
    rec = k in ("rmutex", "rtmutex")
    for _ in range(r.randint(2, 5)):
        ops = []
        for _ in range(r.randint(1, 4)):
            i = r.randrange(len(m))
            held = 1
            x = r.random()
            if x < .6:
                ops.append("lock:%d" % m[i])
            elif x < .75 or not (timed and k in ("tmutex", "rtmutex")):
                ops.append("trylock:%d" % m[i])
                held = 0
            else:
                ops.append(r.choice(["lockfor:%d:%d", "lockuntil:%d:%d"]) % (m[i], r.choice([0, 500, 2000, 10000])))
                held = 0
            if rec and held and r.random() < .5:
                ops += ["lock:%d" % m[i]]
                ops += pause(r)
                ops += ["unlock:%d" % m[i]]
            if held:
                ops += ["add:%d:1" % v[i]] + pause(r) + ["add:%d:1" % v[i]]
            else:
                ops += pause(r)
            ops.append("unlock:%d" % m[i])
            if r.random() < .08:
                ops.append("unlock:%d" % m[i])
            ops += pause(r)
        p.co(ops)
    return p.lines()


def handoff(r, kinds=LOCKS):
    """Many coroutines wait for one lock, released in turn: every one gets it."""
    p = Prog(r)
    k = r.choice(kinds)
    m = p.obj(k)
    v = p.obj("var", 0)
    for i in range(r.randint(3, 7)):
        ops = []
        for _ in range(r.randint(1, 3)):
            ops += ["lock:%d" % m, "add:%d:1" % v] + (["yield"] * r.randint(1, 3) if r.random() < .7 else []) + ["unlock:%d" % m]
        p.co(ops)
    return p.lines()


def rec(r):
    return lock(r, ["rmutex", "rtmutex"])


def timedlock(r):
    p = Prog(r)
    k = r.choice(["tmutex", "rtmutex", "stmutex"])
    m = p.obj(k)
    for _ in range(r.randint(2, 5)):
        ops = []
        for _ in range(r.randint(1, 3)):
            rd = "r" if k == "stmutex" and r.random() < .5 else ""
            x = r.random()
            if x < .3:
                ops.append("%slock:%d" % (rd, m))
            else:
                ops.append("%slock%s:%d:%d" % (rd, r.choice(["for", "until"]), m, r.choice([0, 300, 1000, 3000, 10000])))
            ops += pause(r) + (["sleep:%d" % r.choice([500, 2000, 6000])] if r.random() < .6 else [])
            ops.append("%sunlock:%d" % (rd, m))
            ops += pause(r)
        p.co(ops)
    return p.lines()


def shared(r, kinds=("smutex", "stmutex")):
    p = Prog(r)
    k = r.choice(kinds)
    m = p.obj(k)
    v = p.obj("var", 0)
    for _ in range(r.randint(2, 6)):
        ops = []
        for _ in range(r.randint(1, 4)):
            rd = "r" if r.random() < .55 else ""
            x = r.random()
            sure = False
            if x < .7:
                ops.append(rd + "lock:%d" % m)
                sure = True
            elif x < .85 or k == "smutex":
                ops.append("try" + rd + "lock:%d" % m)
            else:
                ops.append("%slock%s:%d:%d" % (rd, r.choice(["for", "until"]), m, r.choice([0, 500, 3000])))
            if sure and not rd:
                ops += ["add:%d:1" % v]
            ops += pause(r)
            if sure and rd and r.random() < .3:
                ops += ["add:%d:0" % v]
            ops.append(rd + "unlock:%d" % m)
            if r.random() < .06:
                ops.append(r.choice(["unlock:%d", "runlock:%d"]) % m)
            ops += pause(r)
        p.co(ops)
    return p.lines()


# ---------------------------------------------------- condition variables

def cv(r, timed=True, kinds=("mutex", "mutex", "rmutex", "tmutex", "smutex", "spin")):
    p = Prog(r)
    m = p.obj(r.choice(kinds))
    c = p.obj("cv")
    v = p.obj("var", 0)
    n = r.randint(2, 5)
    for i in range(n):
        ops = []
        for _ in range(r.randint(1, 3)):
            x = r.random()
            if x < .45:  # notifier
                ops += ["lock:%d" % m]
                if r.random() < .8:
                    ops += ["set:%d:1" % v]
                inside = r.random() < .5
                nt = [r.choice(["notify:%d", "notifyall:%d"]) % c]
                if inside:
                    ops += nt
                ops += ["unlock:%d" % m]
                if not inside:
                    ops += nt
                ops += pause(r)
            else:
                ops += ["lock:%d" % m]
                y = r.random()
                if y < .35:
                    ops += ["waitp:%d:%d:%d" % (c, m, v)]
                elif y < .5 or not timed:
                    ops += ["wait:%d:%d" % (c, m)]
                elif y < .75:
                    ops += ["%s:%d:%d:%d" % (r.choice(["waitfor", "waituntil"]), c, m, r.choice([0, 500, 2000, 10000]))]
                else:
                    ops += ["%s:%d:%d:%d:%d" % (r.choice(["waitforp", "waituntilp"]), c, m, r.choice([0, 500, 2000, 10000]), v)]
                if r.random() < .4:
                    ops += ["set:%d:0" % v]
                if r.random() < .3:
                    ops += pause(r)
                ops += ["unlock:%d" % m] + pause(r)
        if r.random() < .15:
            ops.insert(0, "notifyexit:%d" % c)
        p.co(ops, env=None, threads=not any(o.startswith("notifyexit") for o in ops))
    return p.lines()


def cvplain(r):
    return cv(r, timed=False)


def cvmany(r):
    """Several waiters, notified one by one."""
    p = Prog(r)
    m, c, v = p.obj(r.choice(["mutex", "rmutex"])), p.obj("cv"), p.obj("var", 0)
    n = r.randint(2, 5)
    for i in range(n):
        x = r.random()
        w = "wait:%d:%d" % (c, m) if x < .6 else "waitfor:%d:%d:%d" % (c, m, r.choice([1000, 3000, 20000]))
        p.co(pause(r, False) + ["lock:%d" % m, w, "add:%d:1" % v, "unlock:%d" % m])
    for i in range(r.randint(1, 2)):
        ops = []
        for _ in range(r.randint(1, n + 1)):
            ops += pause(r) + r.choice([["notify:%d" % c], ["notify:%d" % c], ["lock:%d" % m, "notify:%d" % c, "unlock:%d" % m],
                                        ["notifyall:%d" % c]])
        p.co(ops)
    return p.lines()


def cvexit(r):
    """notify_all_at_co_exit: the waiters are woken when the coroutine has ended."""
    p = Prog(r)
    m, c, v = p.obj("mutex"), p.obj("cv"), p.obj("var", 0)
    for _ in range(r.randint(1, 3)):
        p.co(["lock:%d" % m, "waitp:%d:%d:%d" % (c, m, v), "unlock:%d" % m])
    p.co(pause(r) + ["notifyexit:%d" % c] + pause(r) + ["lock:%d" % m, "set:%d:1" % v, "unlock:%d" % m] + pause(r), threads=False)
    return p.lines()


# -------------------------------------- semaphores, latches, barriers ...

def sem(r, timed=True):
    p = Prog(r)
    k, mx = r.choice([("bsem", 1), ("sem1", 1), ("sem2", 2), ("sem3", 3)])
    s = p.obj(k, r.randint(0, mx))
    for _ in range(r.randint(2, 5)):
        ops = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .35:
                ops += ["acq:%d" % s]
            elif x < .45:
                ops += ["tryacq:%d" % s]
            elif x < .6 and timed:
                ops += ["%s:%d:%d" % (r.choice(["acqfor", "acquntil"]), s, r.choice([0, 500, 2000, 10000]))]
            else:
                ops += ["rel:%d:%d" % (s, r.choice([1, 1, 1, 2, 3]))]
            ops += pause(r)
        p.co(ops)
    return p.lines()


def sempair(r):
    """As many releases as acquisitions."""
    p = Prog(r)
    k, mx = r.choice([("bsem", 1), ("sem1", 1), ("sem2", 2), ("sem3", 3)])
    s = p.obj(k, r.randint(1, mx))
    for _ in range(r.randint(2, 6)):
        ops = []
        for _ in range(r.randint(1, 3)):
            ops += ["acq:%d" % s] + pause(r) + ["rel:%d:1" % s] + pause(r, False)
        p.co(ops)
    return p.lines()


def latch(r):
    p = Prog(r)
    n = r.randint(0, 4)
    o = p.obj("latch", n)
    for _ in range(r.randint(2, 5)):
        ops = []
        for _ in range(r.randint(1, 3)):
            ops += pause(r) + [r.choice(["cd:%d:1" % o, "cd:%d:1" % o, "cd:%d:2" % o, "lwait:%d" % o, "ltry:%d" % o, "law:%d:1" % o, "law:%d:2" % o])]
        p.co(ops)
    return p.lines()


def wg(r):
    p = Prog(r)
    n = r.randint(1, 5)
    o = p.obj("wg", n)
    split = [0] * r.randint(1, 4)
    for _ in range(n):
        split[r.randrange(len(split))] += 1
    for k in split:
        ops = []
        for _ in range(k):
            ops += pause(r) + ["done:%d" % o]
        if r.random() < .3:
            ops += ["wgwait:%d" % o]
        if ops:
            p.co(ops)
    for _ in range(r.randint(1, 3)):
        p.co(pause(r) + ["wgwait:%d" % o])
    return p.lines()


def barrier(r):
    p = Prog(r)
    n = r.randint(1, 4)
    o = p.obj("barrier", n)
    phases = r.randint(1, 4)
    if r.random() < .5:  # well formed: n participants
        for _ in range(n):
            ops = []
            for k in range(phases):
                ops += pause(r)
                x = r.random()
                if x < .6:
                    ops += ["barw:%d" % o]
                else:
                    ops += ["arrive:%d:1" % o] + pause(r) + ["bwait:%d" % o]
                if r.random() < .1:
                    ops += pause(r) + ["bdrop:%d" % o]
                    break
            p.co(ops)
    else:
        for _ in range(r.randint(2, 5)):
            ops = []
            for k in range(phases):
                ops += pause(r)
                x = r.random()
                if x < .5:
                    ops += ["barw:%d" % o]
                elif x < .75:
                    ops += ["arrive:%d:%d" % (o, 1)]
                    if r.random() < .7:
                        ops += pause(r) + ["bwait:%d" % o]
                elif x < .85:
                    ops += ["bdrop:%d" % o]
                else:
                    ops += ["arrive:%d:2" % o, "yield"]
            p.co(ops)
    return p.lines()


def once(r):
    p = Prog(r)
    os = [p.obj("once") for _ in range(r.choice([1, 1, 2]))]
    for i in range(r.randint(2, 6)):
        ops = []
        for j in range(r.randint(1, 3)):
            th = r.choice([0, 0, 0, 1 + i * 3 + j])
            ops += pause(r, False) + ["once:%d:%d:%d" % (r.choice(os), th, r.randint(0, 3))]
        p.co(ops)
    return p.lines()


# --------------------------------------------------------------- channels

PUSH = ["push", "push", "pushop", "pushsh"]
POP = ["pop", "pop", "popop", "popsh"]


def chan(r, caps=(-1, 1, 1, 2, 3), close=True):
    p = Prog(r)
    cap = r.choice(caps)
    o = p.obj("chan", cap)
    n = r.randint(2, 5)
    val = [0]

    def v():
        val[0] += 1
        return val[0]
    for i in range(n):
        ops = []
        role = r.choice(["push", "pop", "both"]) if i > 1 else ["push", "pop"][i]
        if role == "pop" and r.random() < .3:
            ops += pause(r) + ["range:%d" % o]
        else:
            for _ in range(r.randint(1, 4)):
                ops += pause(r)
                if role == "push" or (role == "both" and r.random() < .5):
                    ops += ["%s:%d:%d" % (r.choice(PUSH), o, v())]
                else:
                    ops += ["%s:%d" % (r.choice(POP), o)]
                if r.random() < .1:
                    ops += [r.choice(["closed:%d", "empty:%d", "chmax:%d"]) % o]
        if close and r.random() < .3:
            ops += pause(r) + ["close:%d" % o]
        p.co(ops)
    return p.lines()


def chan0(r):
    return chan(r, caps=(0,))


def chanclose(r):
    """A channel is closed while others are blocked in it."""
    p = Prog(r)
    cap = r.choice([0, 0, 1, 2, -1])
    o = p.obj("chan", cap)
    val = 0
    for i in range(r.randint(1, 4)):
        ops = pause(r, False)
        if r.random() < .5:
            for _ in range(r.randint(1, 4)):
                val += 1
                ops += ["%s:%d:%d" % (r.choice(PUSH), o, val)]
        else:
            ops += r.choice([["%s:%d" % (r.choice(POP), o) for _ in range(r.randint(1, 3))], ["range:%d" % o]])
        p.co(ops)
    p.co(pause(r) + pause(r) + ["close:%d" % o] + r.choice([[], ["%s:%d" % (r.choice(POP), o)], ["%s:%d:99" % (r.choice(PUSH), o)], ["closed:%d" % o], ["range:%d" % o]]))
    return p.lines()


def stream(r, caps=(-1, 0, 1, 2)):
    """Producers close at the end, consumers take everything."""
    p = Prog(r)
    o = p.obj("chan", r.choice(caps))
    w = p.obj("wg", 0)
    np = r.randint(1, 3)
    p.objs[w] = "O wg %d" % np
    for i in range(np):
        ops = []
        for j in range(r.randint(0, 5)):
            ops += pause(r, False) + ["push:%d:%d" % (o, i * 10 + j + 1)]
        p.co(ops + ["done:%d" % w])
    p.co(["wgwait:%d" % w, "close:%d" % o])
    for i in range(r.randint(1, 3)):
        p.co(pause(r, False) + ["range:%d" % o])
    return p.lines()


# ----------------------------------------------------------------- events

def event(r):
    p = Prog(r)
    es = [p.obj("event") for _ in range(r.choice([1, 1, 2]))]
    tag = [0]
    val = [0]
    for i in range(r.randint(1, 4)):
        ops = []
        for _ in range(r.randint(1, 5)):
            e = r.choice(es)
            x = r.random()
            if x < .4:
                tag[0] += 1
                ops += ["sub:%d:%d" % (e, tag[0]) + r.choice(["", "", "", ":1", ":2:%d" % r.randint(0, 3), ":3:%d" % (100 + tag[0])])]
            elif x < .8:
                val[0] += 1
                ops += ["pub:%d:%d" % (e, val[0])]
            else:
                ops += ["unsub:%d:%d" % (e, r.randint(0, 3))]
            ops += pause(r, False)
        p.co(ops)
    return p.lines()


# ------------------------------------------------------- time and timers

def sleep(r):
    p = Prog(r)
    for _ in range(r.randint(1, 5)):
        ops = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .45:
                ops += ["sleep:%d" % r.choice([0, 1, 300, 1000, 2500, 10000, 40000])]
            elif x < .75:
                ops += ["sleepu:%d" % r.choice([-1000, 0, 300, 1000, 2500, 10000])]
            elif x < .9:
                ops += ["yield"]
            else:
                ops += ["burn:%d" % r.choice([100, 2000, 8000])]
        p.co(ops)
    return p.lines()


def drop(r):
    """Who has waited for the others destroys what they used, although their last calls may not have returned."""
    p = Prog(r)
    for _ in range(r.randint(1, 3)):
        n = r.randint(1, 3)
        k = r.choice(["latch", "wg", "sem", "barrier", "cv", "cv"])
        if k == "latch":
            o = p.obj(k, n)
            one, all_, gone = ["cd:%d:1" % o], ["lwait:%d" % o], ["drop:%d" % o]
            if r.random() < .3:
                all_ = ["lwait:%d" % o, "ltry:%d" % o]
        elif k == "wg":
            o = p.obj(k, n)
            one, all_, gone = ["done:%d" % o], r.choice([[], ["wgwait:%d" % o]]), ["drop:%d" % o]
        elif k == "sem":
            o = p.obj("sem3", 0)
            one, all_, gone = ["rel:%d:1" % o], ["acq:%d" % o] * n, ["drop:%d" % o]
        elif k == "barrier":
            o = p.obj(k, n + 1)
            one, all_, gone = [r.choice(["arrive:%d:1", "bdrop:%d"]) % o], ["barw:%d" % o], ["drop:%d" % o]
        else:
            m, cv, v = p.obj(r.choice(LOCKS)), p.obj("cv"), p.obj("var", 1 - n)
            one = ["lock:%d" % m, "add:%d:1" % v, r.choice(["notify:%d", "notifyall:%d"]) % cv, "unlock:%d" % m]
            all_ = ["lock:%d" % m, "waitp:%d:%d:%d" % (cv, m, v), "unlock:%d" % m]
            gone = r.sample(["drop:%d" % m, "drop:%d" % cv], 2)
        p.co(pause(r) + all_ + (pause(r) if r.random() < .2 else []) + gone + pause(r))
        for _ in range(n):
            p.co(pause(r) + one)
    return p.lines()


def timer(r, lone=0):
    """lone: everything runs in the same thread, so that nothing happens beside an operation on a timer."""
    p = Prog(r, envs=0 if lone else None)
    if lone:
        p.mode, p.base, p.max = "pool", 1, 1
    wait = lambda r: ["burn:%d" % r.choice([500, 1500, 3000])] if lone and r.random() < .4 else pause(r)
    n = r.randint(1, 4)
    ts, loops = [], []
    for _ in range(n):
        x = r.random()
        if x < .5:
            ts.append(p.obj("timer", 0, r.choice([1, 1, 2, 5, 10]), lone))
        elif x < .75:
            ts.append(p.obj("timer", 1, r.choice([1, 2, 5]), lone))
            loops.append(ts[-1])
        else:
            ts.append(p.obj("timerabs", r.choice([0, 1000, 3000, 10000]), 0, lone))
    own = [[] for _ in range(r.randint(1, 3))]
    for t in ts:
        own[r.randrange(len(own))].append(t)
    for mine in own:
        ops = []
        for t in mine:
            ops += ["tstart:%d" % t] + wait(r)
        for _ in range(r.randint(0, 4)):
            t = r.choice(ts if r.random() < .3 and not loops else mine or [None])
            if t is not None:
                x = r.random()
                if x < .25 and t not in loops:
                    ops += ["tstart:%d" % t]
                elif x < .5:
                    ops += ["tstop:%d" % t]
                elif x < .7:
                    ops += ["treset:%d" % t]
                elif x < .85:
                    ops += ["tcb:%d:%d" % (t, r.randint(1, 9))]
                else:
                    ops += ["trun:%d" % t]
            ops += wait(r)
        ops += ["sleep:%d" % r.choice([500, 3000, 12000, 30000])]
        for t in mine:
            if t in loops:
                ops += ["tstop:%d" % t]
        p.co(ops)
    return p.lines()


def timerlone(r):
    return timer(r, 1)


def timersame(r):
    """Many timers which expire at the same time, and sleepers."""
    p = Prog(r)
    at = r.choice([2000, 5000])
    ts = [p.obj("timerabs", at if r.random() < .8 else at + 1) for _ in range(r.randint(2, 5))]
    ops = []
    for t in ts:
        ops += ["tstart:%d" % t]
    if r.random() < .4:
        ops += ["tstop:%d" % r.choice(ts)]
    p.co(ops + pause(r))
    for _ in range(r.randint(0, 3)):
        p.co(["sleepu:%d" % r.choice([at, 1000])])
    return p.lines()


# -------------------------------------------------------------- coroutines

def kid(r, throws=True, short=False):
    ops = pause(r, not short)
    if r.random() < .4:
        ops += pause(r, not short)
    x = r.random()
    if x < .5:
        return ops + ["retv:%d" % r.randint(1, 900)]
    if x < .7 and throws:
        return ops + ["throw:%d" % r.randint(1, 900)]
    return ops


def life(r, timed=True, shared=True):
    """Coroutines are created, waited for, detached, destroyed."""
    p = Prog(r)
    nm = r.randint(1, 2)
    plans = []
    for m in range(nm):
        ks = r.randint(1, 3)
        plans.append(ks)
    masters = [p.co([]) for _ in range(nm)]
    for m in range(nm):
        ops = []
        mine = []
        for _ in range(plans[m]):
            throws = r.random() < .35
            ko = kid(r, throws)
            c = p.co(ko, start=0, threads=False, shared=1 if shared and r.random() < .2 else 0)
            mine.append((c, any(o.startswith("throw") for o in ko)))
        todo = []
        for c, th in mine:
            a = ["spawn:%d" % c]
            x = r.random()
            for _ in range(r.randint(0, 2) if not th else r.randint(0, 1)):
                y = r.random()
                if timed and y < .4:
                    a += pause(r) + ["%s:%d:%d" % (r.choice(["cowaitfor", "cowaituntil"]), c, r.choice([0, 500, 3000, 20000]))]
                elif y < .6:
                    a += pause(r) + ["cowait:%d" % c]
                elif y < .7:
                    a += pause(r) + ["cowaitbad:%d" % c]
                else:
                    a += pause(r) + ["cowaitv:%d" % c]
            if x < .4:
                a += pause(r) + ["join:%d" % c]
            elif x < .6:
                a += pause(r) + ["detach:%d" % c]
            elif x < .8 and not th:
                a += pause(r) + ["destroyco:%d" % c]
            todo.append(a)
        # mixed up, each one in its order
        while todo:
            a = r.choice(todo)
            k = r.randint(1, len(a))
            ops += a[:k]
            del a[:k]
            todo = [x for x in todo if x]
        f = p.cos[masters[m]].split()
        p.cos[masters[m]] = " ".join(f[:6] + ops)
    return p.lines()


def lifeplain(r):
    return life(r, timed=False)


def many(r):
    """Several coroutines wait for the same one."""
    p = Prog(r)
    l = p.obj("latch", 1)
    m = p.co([])
    ko = kid(r)
    c = p.co(ko, start=0, threads=False)
    f = p.cos[m].split()
    p.cos[m] = " ".join(f[:6] + ["spawn:%d" % c, "cd:%d:1" % l] + pause(r) + [r.choice(["cowait:%d", "cowaitv:%d", "cowaitfor:%d:5000"]) % c])
    for _ in range(r.randint(1, 3)):
        p.co(["lwait:%d" % l] + pause(r) + [r.choice(["cowait:%d" % c, "cowaitv:%d" % c, "cowaitfor:%d:%d" % (c, r.choice([500, 5000]))])])
    return p.lines()


def reclaim(r):
    """Coroutines which have ended are destroyed when others run in their env."""
    p = Prog(r)
    m = p.co([], env=r.choice([-2, -3, -1]))
    ops = []
    for _ in range(r.randint(2, 5)):
        c = p.co(kid(r, False, True), start=0, env=r.randrange(p.n_env), shared=1 if r.random() < .2 else 0)
        ops += ["spawn:%d" % c] + pause(r) + [r.choice(["join:%d", "detach:%d", "destroyco:%d", "assignco:%d:%d"]).replace("%d", str(c))] + pause(r)
    f = p.cos[m].split()
    p.cos[m] = " ".join(f[:6] + ops)
    return p.lines()


def line(r):
    """Locks are held, and conditions awaited, for so long that others have to queue."""
    p = Prog(r)
    far = lambda: "sleep:%d" % r.choice([12000, 15000, 25000, 40000])
    n = r.randint(3, 6)
    if r.random() < .35:
        m = p.obj(r.choice(["mutex", "rmutex", "tmutex"]))
        cv = p.obj("cv")
        for _ in range(n - 1):
            ops = [far()] * r.randint(0, 2) + ["lock:%d" % m, r.choice(["wait:%d:%d", "wait:%d:%d", "waitfor:%d:%d:60000"]) % (cv, m), "unlock:%d" % m]
            p.co(ops)
        p.co(sum(([far(), r.choice(["notify:%d", "notify:%d", "notifyall:%d"]) % cv] for _ in range(n + 1)), []))
        return p.lines()
    k = r.choice(["mutex", "mutex", "rmutex", "tmutex", "rtmutex", "smutex", "stmutex"])
    m = p.obj(k)
    for _ in range(n):
        ops = [far()] * r.randint(0, 3)
        for _ in range(r.randint(1, 2)):
            x = r.random()
            if k in ("smutex", "stmutex") and x < .4:
                ops += ["rlock:%d" % m, far(), "runlock:%d" % m]
            elif x < .8:
                ops += ["lock:%d" % m, r.choice([far(), "yield"]), "unlock:%d" % m]
            else:
                ops += ["trylock:%d" % m, "unlock:%d" % m]
            ops += pause(r)
        p.co(ops)
    return p.lines()


def handles(r):
    """Handles are moved and overwritten; everybody is who they are."""
    p = Prog(r)
    m = p.co([], env=r.choice([-3, -1, 0, 0]))
    kids = []
    for _ in range(r.randint(2, 4)):
        ko = []
        for _ in range(r.randint(0, 3)):
            ko += pause(r) + [r.choice(["selfname", "selfid"])]
        if r.random() < .5:
            ko += ["retv:%d" % r.randint(1, 900)]
        kids.append(p.co(ko, start=0, threads=False, shared=1 if r.random() < .3 else 0))
    ops = []
    wait = list(kids)
    held, there = [], []
    for _ in range(r.randint(6, 14)):
        x = r.random()
        if wait and (not there or x < .3):
            c = wait.pop()
            ops.append("spawn:%d" % c)
            held.append(c)
            there.append(c)
            continue
        c = r.choice(there)
        if x < .6:
            ops.append("%s:%d" % (r.choice(["moveco", "coname", "coid"]), c))
        elif x < .7 and held:
            ops.append("cofin:%d" % r.choice(held))
        elif x < .8 and c in held:
            ops.append(r.choice(["cowait:%d", "cowaitv:%d"]) % c)
        elif x < .9:
            ops.append("assignco:%d:%d" % (c, r.choice(there)))
            if c in held:
                held.remove(c)
        elif x < .95:
            ops.append(r.choice(["join:%d", "detach:%d"]) % c)
            if c in held:
                held.remove(c)
        ops += pause(r, False)
    f = p.cos[m].split()
    p.cos[m] = " ".join(f[:6] + ops)
    return p.lines()


# --------------------------------------------------------------- scheduling

def prio(r, waits=False):
    """One env, priorities, everybody only yields: the order is determined up to the start of a round."""
    p = Prog(r, envs=1)
    n = r.randint(2, 5)
    pr = [r.choice([0, 1, 50, 98, 99, 99, 99]) for _ in range(n)]
    if r.random() < .4:
        pr = [99] * n
    if waits:
        mu, cv = p.obj("mutex"), p.obj("cv")
    notify = lambda: ["lock:%d" % mu, "%s:%d" % (r.choice(["notify", "notifyall"]), cv), "unlock:%d" % mu]
    m = p.co([], env=0, prio=0)
    kids = []
    for i in range(n):
        ops = []
        for _ in range(r.randint(1, 7)):
            x = r.random()
            if waits and r.random() < .4:
                if x < .4 and kids:
                    ops += ["%s:%d" % (r.choice(["cowait", "cowaitv"]), r.choice(kids))]
                elif x < .75:
                    ops += ["lock:%d" % mu, "wait:%d:%d" % (cv, mu), "unlock:%d" % mu]
                else:
                    ops += notify()
            elif x < .8:
                ops += ["yield"]
            elif x < .9:
                ops += ["setselfprio:%d" % r.choice([0, 1, 50, 99, 120, -5])]
            else:
                ops += ["getselfprio:0"]
        kids.append(p.co(ops, env=0, prio=pr[i], start=0, shared=1 if r.random() < .1 else 0))
    ops = []
    for c in kids:
        ops += ["spawn:%d" % c]
        if r.random() < .3:
            ops += ["yield"]
    if r.random() < .5:
        ops += ["setselfprio:%d" % r.choice([99, 50, 1])]
    for _ in range(r.randint(0, 4)):
        ops += ["yield"]
        if r.random() < .5:
            c = r.choice(kids)
            ops += [r.choice(["setprio:%d:%d" % (c, r.choice([0, 1, 50, 99])), "getprio:%d" % c])]
        if waits and r.random() < .4:
            ops += notify()
    if waits and r.random() < .5:
        ops += ["setselfprio:99"] + ["cowait:%d" % c for c in kids if r.random() < .3] + ["yield"] + notify()
    f = p.cos[m].split()
    p.cos[m] = " ".join(f[:6] + ops)
    return p.lines(), {"sched": 1}


def priowait(r):
    """As before, but they also wait for each other and for notifications."""
    return prio(r, True)


def prioval(r):
    """Priorities are kept and limited, whoever sets them."""
    p = Prog(r)
    m = p.co([])
    kids = []
    for _ in range(r.randint(1, 3)):
        ops = pause(r, False) + ["getselfprio:0"]
        if r.random() < .5:
            ops += ["setselfprio:%d" % r.choice([-100, -1, 0, 42, 99, 100, 1000]), "getselfprio:0"]
        ops += pause(r, False)
        if kids and r.random() < .4:
            ops += [r.choice(["cowait:%d", "cowaitv:%d", "cowaitfor:%d:3000"]) % r.choice(kids), "getselfprio:0"]
        kids.append(p.co(ops, start=0, threads=False, prio=r.choice([-7, 0, 5, 99, 100, 250])))
    ops = []
    for c in kids:
        ops += ["spawn:%d" % c]
    for _ in range(r.randint(1, 4)):
        c = r.choice(kids)
        if not any(o.startswith("setself") for o in p.cos[c].split()):
            ops += r.choice([["setprio:%d:%d" % (c, r.choice([-3, 0, 7, 99, 100, 5000])), "getprio:%d" % c], ["getprio:%d" % c]])
        ops += pause(r, False)
    f = p.cos[m].split()
    p.cos[m] = " ".join(f[:6] + ops)
    return p.lines()


def tell(r):
    """Who wants to know when coroutines end and when their priorities change is told."""
    p = Prog(r)
    m = p.co([])
    n = r.randint(1, 3)
    kids = [p.co([], start=0, threads=False, prio=r.choice([0, 5, 50, 99])) for _ in range(n)]
    tag = [0]
    subs = {}

    def watch(c, who):
        x = r.random()
        if x < .35:
            tag[0] += 1
            subs.setdefault(who, []).append(("fin", c, tag[0]))
            return ["onfin:%d:%d" % (c, tag[0])]
        if x < .7:
            tag[0] += 1
            subs.setdefault(who, []).append(("prio", c, tag[0]))
            return ["onprio:%d:%d" % (c, tag[0])]
        if x < .8 and subs.get(who):
            k, c, t = r.choice(subs[who])
            return ["off%s:%d:%d" % (k, c, t)]
        return ["setprio:%d:%d" % (c, r.choice([-3, 0, 5, 7, 50, 99, 100]))]

    others = [p.co([], start=0, threads=False) for _ in range(r.randint(0, 2))]
    ops = []
    for c in kids:
        ops += ["spawn:%d" % c]
    for c in others:
        ops += ["spawn:%d" % c]
        o = []
        for _ in range(r.randint(1, 4)):
            o += watch(r.choice(kids), c) + pause(r, False)
        p.set(c, o)
    for _ in range(r.randint(1, 6)):
        ops += watch(r.choice(kids), m) + pause(r, False)
    cv = None
    if r.random() < .3:
        cv, mu = p.obj("cv"), p.obj("mutex")
        w = p.co(["lock:%d" % mu, "waitfor:%d:%d:%d" % (cv, mu, r.choice([2000, 20000])), "unlock:%d" % mu], start=0, threads=False)
        ops = ["spawn:%d" % w] + ops
    for c in kids:
        o = []
        for _ in range(r.randint(0, 4)):
            x = r.random()
            o += ["setselfprio:%d" % r.choice([0, 5, 50, 99, 300])] if x < .4 else ["yield"] if x < .7 else pause(r, True)
            if c != kids[0] and r.random() < .2:
                o += [r.choice(["cowaitv:%d", "cowaitfor:%d:2000"]) % r.choice(kids[:kids.index(c)])]
            if cv is not None and r.random() < .2:
                o += ["notifyexit:%d" % cv]
        p.set(c, o)
    p.set(m, ops)
    return p.lines()


def envs(r):
    """Where coroutines run: bound to an env, anywhere, on converted threads; exclusive envs.

    idle: there are more envs than the maximum, and they have nothing to do for long."""
    p = Prog(r, envs=r.randint(1, 3))
    p.mode = "mix"
    idle = r.random() < .3
    if idle:
        p.base = p.max = r.choice([1, 2])
    m = p.co([], env=r.choice([-2, -3, 0]))
    ops = []
    for _ in range(r.randint(2, 6)):
        if r.random() < .3:
            ops += ["exclusive:%d" % r.randrange(p.n_env)]
        c = p.co(["yield"] * r.randint(0, 2) + pause(r, False), start=0, threads=False, env=r.choice([-1, -1] + list(range(p.n_env))))
        if idle and r.random() < .4:
            ops += ["sleep:%d" % r.choice([25000, 60000])]
        ops += ["spawn:%d" % c] + pause(r, False)
        if r.random() < .4:
            ops += ["cowaitv:%d" % c]
    f = p.cos[m].split()
    p.cos[m] = " ".join(f[:6] + ops)
    for _ in range(r.randint(0, 3)):
        p.co(pause(r) + pause(r))
    return p.lines()


def local(r):
    p = Prog(r)
    m = p.obj("mutex")
    for c in range(r.randint(2, 5)):
        ops = []
        for j in range(r.randint(2, 6)):
            ops += ["local:%d:%d" % (r.randrange(3), 100 * (c + 1) + j)] + pause(r, False)
            if r.random() < .2:
                ops += ["lock:%d" % m, "yield", "unlock:%d" % m]
        p.co(ops, shared=1 if r.random() < .2 else 0)
    return p.lines()


def stacks(r, shared=None):
    """Deep stacks and registers survive the switch, with stacks of their own and shared ones."""
    p = Prog(r, envs=r.choice([1, 1, 2]))
    m = p.obj("mutex")
    for c in range(r.randint(2, 5)):
        ops = []
        stack = r.choice([0, 0, 65536, 131072])
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .08 and stack == 0:
                ops += ["deep:%d:%d" % (r.choice([250, 300, 450]), r.choice([1, 2]))]
            elif x < .45:
                # unused stack is given back after about a thousand switches
                ops += ["deep:%d:%d" % (r.choice([0, 1, 5, 20, 60, r.randint(0, 100)]), r.choice([1, 2, 3, r.randint(1020, 1100)]))]
            elif x < .75:
                ops += ["regyield:0"]
            elif x < .85:
                ops += ["lock:%d" % m, "deep:3:1", "unlock:%d" % m]
            else:
                ops += ["sleep:%d" % r.choice([300, 2000])]
        sh = (1 if r.random() < .7 else 0) if shared is None else shared
        p.co(ops, shared=sh, threads=not sh, stack=stack)
    return p.lines()


def sharedstack(r):
    return stacks(r, 1)


def ownstack(r):
    return stacks(r, 0)


def forced(r):
    """A coroutine keeps the processor, the others of its env run nevertheless."""
    p = Prog(r, envs=1)
    p.preempt = 1
    m = p.co([], env=0, prio=99)
    n = r.randint(1, 3)
    kids = [p.co(["yield"] * 6, env=0, prio=99, start=0) for _ in range(n)]
    f = p.cos[m].split()
    p.cos[m] = " ".join(f[:6] + ["spawn:%d" % c for c in kids] + ["burn:200000"])
    return p.lines(), {"forced": 1}


def pool(r):
    """More coroutines than threads; some keep their thread busy."""
    p = Prog(r, envs=0)
    p.mode = "pool"
    p.base = r.randint(1, 3)
    p.max = r.choice([1, p.base, p.base + r.randint(0, 3)])
    v = p.obj("latch", 1)
    n = r.randint(3, 9)
    for i in range(n):
        x = r.random()
        if x < .3:
            ops = ["burn:%d" % r.choice([2000, 30000, 100000])]
        elif x < .5:
            ops = ["sleep:%d" % r.choice([1000, 30000, 60000])]
        elif x < .7:
            ops = ["lwait:%d" % v]
        else:
            ops = ["yield"] * r.randint(1, 4)
        p.co(ops, env=-1, prio=r.choice([99, 99, 50, 0]))
    p.co((pause(r) if r.random() < .5 else ["sleep:%d" % r.choice([40000, 80000])]) + ["cd:%d:1" % v], env=-1)
    return p.lines(), {"pool": p.base if p.max >= p.base else 0}


def occupied(r):
    """Coroutines which keep their threads, created one after the other."""
    p = Prog(r, envs=0)
    p.mode = "pool"
    p.base = r.randint(1, 4)
    p.max = p.base + r.randint(0, 2)
    n = r.randint(1, p.base)
    out = p.obj("door", 0)
    ops, kids = [], []
    for i in range(n):
        d = p.obj("door", 0)
        extra = r.choice([[], [], ["yield"], ["yield", "yield"]])
        k = p.co(extra + ["open:%d" % d, "hold:%d" % out] + r.choice([[], ["yield"]]), env=-1, start=0)
        kids.append(k)
        ops += ["spawn:%d" % k, "hold:%d" % d] + r.choice([[], ["yield"]])
    more = [p.co(["yield"] * r.randint(0, 2), env=-1, start=0) for _ in range(r.randint(0, 2))]
    kids += more
    first = r.randint(0, len(more)) if n == p.base else 0
    for k in more[:first]:
        ops.append("spawn:%d" % k)
    ops += ["open:%d" % out]
    for k in more[first:]:
        ops.append("spawn:%d" % k)
    for k in kids:
        if r.random() < .5:
            ops.append("%s:%d" % (r.choice(["join", "cowait", "detach"]), k))
    p.co(ops, env=r.choice([-2, -3]))
    return p.lines(), {"pool": p.base}


# ------------------------------------------------------------------ pipelines
def stage(r):
    k = r.choice(["map", "filter", "filter", "take", "take", "skip", "fork", "fork", "group", "reduce"])
    if k == "map":
        return "X map %d 0" % r.choice([1, 10, 100])
    if k == "filter":
        m = r.choice([2, 3])
        return "X filter %d %d" % (m, r.randrange(m))
    if k == "fork":
        return "X fork %d %d" % (r.choice([1, 2, 3]), r.choice([1, 10]))
    if k == "reduce":
        return "X reduce %d 0" % r.choice([1, 5])
    return "X %s %d 0" % (k, r.choice([1, 2, 3]) if k == "group" else r.choice([0, 1, 2, 3, 5]))


def pipe(r):
    """A pipeline with a finite source and any stages."""
    kind = r.choice(["gen", "gen", "gen", "col", "list", "iter", "range", "stream"])
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 8])
    if kind == "list":
        n = r.choice([1, 2, 4])
    one = r.random() < .5
    out = []
    base, top = (1, 1) if one else r.choice([(1, 3), (2, 4), (3, 3)])
    out.append("E %d %d %d" % (base, top, r.choice([0, 1])))
    out.append("S %s %d %d" % (kind, n, r.choice([-1, -1, 0, 1, 2])))
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        out.append(stage(r))
    ck = r.choice(["all", "all", "to", "some", "some", "leave"])
    out.append("K %s %d %d" % (ck, r.choice([0, 1, 2, 3]), r.choice([-1, -2, -3])))
    return out


def endless(r):
    """A source without an end: only what is asked for is taken from it."""
    one = r.random() < .5
    base, top = (1, 1) if one else r.choice([(1, 3), (2, 4), (3, 3)])
    out = ["E %d %d 1" % (base, top), "S gen 1000000 %d" % r.choice([0, 1, 2])]
    st = []
    for _ in range(r.choice([0, 1, 1, 2, 2])):
        x = stage(r)
        # something has to come through: not two filters
        if x.split()[1] not in ("reduce", "take") and not (x.split()[1] == "filter" and any(y.split()[1] == "filter" for y in st)):
            st.append(x)
    if r.random() < .5:
        st.append("X take %d 0" % r.choice([0, 1, 2, 3]))
        for _ in range(r.choice([0, 1])):
            st.append(stage(r))
        ck = r.choice(["all", "to", "some"])
    else:
        ck = "some"
    out += st
    out.append("K %s %d %d" % (ck, r.choice([0, 1, 2]), r.choice([-1, -2, -3])))
    return out


# ------------------------------------------------------------------------ I/O
PUT = ["wr", "send", "sendto", "sendmsg", "wrn", "cwr"]
GET = ["rd", "recv", "recvfrom", "recvmsg", "crd"]


def _io_lines(r, head, cos, n_env, errors=True):
    out = ["E %d %d" % (n_env, r.choice([0, 10, 30, 50]))] + head
    for ops in cos:
        out.append("C %d %s" % (r.choice([-1] + list(range(n_env)) * 3), " ".join(ops)))
    if errors and r.random() < .3:
        out.append("H %d %d %d" % (r.randrange(len(cos)), r.randrange(1, 5), r.choice([104, 5, 110])))
    return out


def _puts(r, s, n):
    out = []
    for _ in range(n):
        out.append("%s:%d:%d" % (r.choice(PUT), s, r.choice([1, 2, 3, 5])))
        if r.random() < .3:
            out.append("yield")
    return out


def _gets(r, s, n):
    out = []
    for _ in range(n):
        out.append("%s:%d:%d" % (r.choice(GET), s, r.choice([1, 2, 4, 6])))
    return out


def iostream(r):
    """One connection, one direction: everything arrives, in order, and then the end."""
    n_env = r.choice([1, 1, 2])
    cos = [_puts(r, 0, r.choice([1, 2, 4])) + [r.choice(["shut:0", "cl:0", "shut:0"])],
           (["peek:1:%d" % r.choice([1, 3])] if r.random() < .3 else []) + _gets(r, 1, r.choice([0, 1, 2])) + (["rdn:1:%d" % r.choice([2, 4])] if r.random() < .4 else []) + ["drain:1:%d" % r.choice([1, 3, 8]), "cl:1"]]
    # the reader does not stay
    if r.random() < .15:
        cos[1] = _gets(r, 1, r.choice([0, 1])) + ["cl:1"]
    if r.random() < .3:
        cos.append(["yield"] * r.choice([1, 3]))
    return _io_lines(r, ["P 0 1"], cos, n_env)


def ioduplex(r):
    """One connection, both directions."""
    n_env = r.choice([1, 1, 2])
    cos = [_puts(r, 0, r.choice([1, 2])) + ["shut:0"], ["drain:1:%d" % r.choice([1, 4])],
           _puts(r, 1, r.choice([1, 2])) + ["shut:1"], _gets(r, 0, r.choice([0, 1])) + ["drain:0:%d" % r.choice([1, 4])]]
    if r.random() < .3:
        cos = [cos[0] + cos[3], cos[2] + cos[1]]
    return _io_lines(r, ["P 0 1"], cos, n_env)


def ioaccept(r):
    """Connections are made, accepted and used."""
    n_env = r.choice([1, 1, 2])
    n = r.choice([1, 2, 3])
    cos = []
    for i in range(n):
        cos.append(["connect:0:%d" % i] + _puts(r, i, r.choice([0, 1, 2])) + ["shut:%d" % i, "drain:%d:4" % i])
    if r.random() < .5:
        cos.append(sum([["accept:0:%d" % (n + i)] + ["drain:%d:%d" % (n + i, r.choice([1, 4]))] + _puts(r, n + i, r.choice([0, 1])) + ["shut:%d" % (n + i)]
                        for i in range(n)], []))
    else:
        for i in range(n):
            cos.append(["accept:0:%d" % (n + i), "drain:%d:%d" % (n + i, r.choice([1, 4]))] + _puts(r, n + i, r.choice([0, 1])) + ["shut:%d" % (n + i)])
    if r.random() < .2:
        cos.append(["connect:1:%d" % (2 * n)])
    return _io_lines(r, ["L 1"], cos, n_env, errors=False)


def iodgram(r):
    """Datagrams: every one is received as a whole, and as often as it was sent."""
    n = r.choice([2, 2, 3])
    ops = [[] for _ in range(n)]
    todo = [0] * n
    for _ in range(r.choice([2, 4, 8])):
        s, d = r.randrange(n), r.randrange(n)
        ops[s].append("%s:%d:%d:%d" % (r.choice(["gto", "gto", "gmsgto"]), s, r.choice([1, 2, 3, 5, 5, 40]), d))
        todo[d] += 1
        if r.random() < .2:
            ops[s].append("yield")
    cos = []
    for s in range(n):
        get = []
        for _ in range(todo[s]):
            if r.random() < .2:
                get.append("gpeek:%d:%d" % (s, r.choice([2, 40])))
            get.append("%s:%d:%d" % (r.choice(["gfrom", "gfrom", "gmsg", "grecv", "grd"]), s, r.choice([2, 5, 40, 64, 64])))
        if r.random() < .3:
            cos.append(ops[s])
            cos.append(get)
        else:
            cos.append(ops[s] + get)
    # somebody has gone, or goes
    if r.random() < .3:
        cos.append(["cl:%d" % n])
        cos[0] = ["gto:0:2:%d" % n] + cos[0] + ["gto:0:1:%d" % n]
        return _io_lines(r, ["D %d" % i for i in range(n + 1)], cos, r.choice([1, 2]), errors=False)
    return _io_lines(r, ["D %d" % i for i in range(n)], cos, r.choice([1, 2]), errors=False)


def iofile(r):
    """Files: several coroutines, each with its own position."""
    nf = r.choice([1, 1, 2])
    n = r.choice([1, 2, 3])
    cos = []
    for i in range(n):
        ops = ["fopen:%d:%d" % (r.randrange(nf), i)]
        for _ in range(r.choice([2, 4, 6])):
            k = r.choice(["fwr", "fwr", "frd", "frd", "seek", "seek", "trunc", "fsize"])
            if k in ("fwr", "frd"):
                ops.append("%s:%d:%d" % (k, i, r.choice([1, 2, 5])))
            elif k == "seek":
                ops.append("seek:%d:%d:%d" % (i, r.choice([0, 0, 1, 3, -1]), r.choice([0, 0, 1, 2])))
            elif k == "trunc":
                ops.append("trunc:%d:%d" % (i, r.choice([0, 1, 4])))
            else:
                ops.append("fsize:%d" % i)
        ops.append("fcl:%d" % i)
        cos.append(ops)
    return _io_lines(r, ["F %d" % nf], cos, r.choice([1, 2]), errors=False)
