"""What is checked for each property.

models   exhaustively checked instances of the specification
gen      instances whose histories are replayed with the library (objs: the objects of the program)
random   generators of random programs, n runs each
The specification decides about every recorded trace, whatever made it.
"""
from . import progs as p

T, F = "TRUE", "FALSE"


def mod(module, prop=(), thorough=None, **const):
    return {"module": module, "const": {k: str(v) for k, v in const.items()}, "prop": list(prop),
            "thorough": {k: str(v) for k, v in (thorough or {}).items()}}


def gen(module, objs, cap=1000, gthorough=None, start=None, reps=1, **const):
    m = mod(module, **const)
    m.update(objs=objs, cap=cap, reps=reps, start=start, gthorough={k: str(v) for k, v in (gthorough or {}).items()})
    return m


def rnd(fn, n, **kw):
    return dict(kw, fn=fn, n=n)


def q(s):
    return '"%s"' % s


def lockm(kind, timed=F, nc=3, calls=2, nest=1, maxt=0):
    return mod("MC_lock", ["TryFails"], {"Calls": calls + 1} if timed == F else {"MaxT": 4000}, Kind=q(kind), Timed=timed, Nest=nest, NC=nc, Calls=calls, MaxT=maxt)


def lockg(kind, timed=F, nc=3, calls=3, nest=1, cap=1000):
    return gen("MC_lock", [[kind, [0]]], cap, {"Calls": calls + 1}, Kind=q(kind), Timed=timed, Nest=nest, NC=nc, Calls=calls)


def sharedm(kind, timed=F, nc=3, calls=2, maxt=0):
    return mod("MC_shared", ["ReadersShare"], {"Calls": calls + 1} if timed == F else {"MaxT": 4000}, Kind=q(kind), Timed=timed, NC=nc, Calls=calls, MaxT=maxt)


def sharedg(kind, timed=F, nc=3, calls=2, cap=1000):
    return gen("MC_shared", [[kind, [0]]], cap, {"Calls": calls + 1}, Kind=q(kind), Timed=timed, NC=nc, Calls=calls)


CVO = [["mutex", [0]], ["cv", [0]], ["var", [0]]]


def cvm(timed, preds, nc, calls, maxt=0, thorough=None):
    return mod("MC_cv", (), thorough or {}, Timed=timed, Preds=preds, NC=nc, Calls=calls, MaxT=maxt)


def cvg(timed, preds, nc, calls, cap=1000):
    return gen("MC_cv", CVO, cap, {"Calls": calls + 1}, Timed=timed, Preds=preds, NC=nc, Calls=calls)


def chanm(cap, close=T, nc=3, calls=2):
    return mod("MC_chan", (), {"Calls": calls + 1}, CapN=abs(cap), Neg=T if cap < 0 else F, Close=close, NC=nc, Calls=calls)


def chang(cap, close=T, nc=3, calls=2, n=1000):
    return gen("MC_chan", [["chan", [cap]]], n, {"Calls": calls + 1}, CapN=abs(cap), Neg=T if cap < 0 else F, Close=close, NC=nc, Calls=calls)


def semm(kind, mx, first, timed=F, nc=3, calls=2, maxt=0):
    return mod("MC_sem", (), {"Calls": calls + 1} if timed == F else {}, Kind=q(kind), Max=mx, First=first, Timed=timed, NC=nc, Calls=calls, MaxT=maxt)


def semg(kind, mx, first, timed=F, nc=3, calls=2, cap=700):
    return gen("MC_sem", [[kind, [first]]], cap, {"Calls": calls + 1}, Kind=q(kind), Max=mx, First=first, Timed=timed, NC=nc, Calls=calls)


def lifem(nc, calls, started, timed=F, masters=1, maxt=0):
    return mod("MC_life", (), {"Calls": calls + 1}, NC=nc, Calls=calls, Started=started, Timed=timed, Masters=masters, MaxT=maxt)


def lifeg(nc, calls, started, timed=F, masters=1, cap=1000):
    return gen("MC_life", [], cap, {"Calls": calls + 1}, start=[int(x) for x in started.strip("{}").split(",")],
               NC=nc, Calls=calls, Started=started, Timed=timed, Masters=masters)


def plain(module, cfg=None, deep=None):
    """A model with a configuration of its own, and another one for the thorough tier."""
    return {"module": module, "plain": True, "cfg": (cfg or module) + ".cfg", "deep": (deep or cfg or module) + ".cfg", "const": {}, "thorough": {}}


LOCALM = mod("MC_local", (), {"Calls": 3}, NC=2, Calls=3)
LOCALG = gen("MC_local", [], 600, {"Calls": 4}, NC=2, Calls=3)

SLOWTICK = (20, 200)

CHECKS = {
    "C01": {
        "models": [lockm("mutex", calls=3), lockm("rmutex", nest=2)],
        "gen": [lockg("mutex", cap=700), lockg("tmutex", timed=T, calls=2, cap=400)],
        "random": [rnd(p.lock, 2500), rnd(p.handoff, 600)],
    },
    "C02": {
        "models": [lockm("mutex", calls=3)],
        "gen": [lockg("mutex", nc=4, calls=2, cap=700)],
        "random": [rnd(p.handoff, 2500), rnd(p.lock, 800)],
    },
    "C03": {
        "models": [lockm("rmutex", nc=2, calls=4, nest=2), lockm("rtmutex", timed=T, nc=2, calls=3, nest=2, maxt=3000)],
        "gen": [lockg("rmutex", nc=2, calls=4, nest=2, cap=900), lockg("rtmutex", timed=T, nc=2, calls=3, nest=2, cap=500)],
        "random": [rnd(p.rec, 2500)],
    },
    "C04": {
        "models": [sharedm("smutex"), sharedm("stmutex", timed=T, nc=2, calls=2, maxt=3000)],
        "gen": [sharedg("smutex", nc=4, calls=2, cap=1200)],
        "random": [rnd(p.shared, 3000)],
    },
    "C05": {
        "models": [lockm("tmutex", timed=T, nc=2, calls=3, maxt=3000), sharedm("stmutex", timed=T, nc=2, calls=2, maxt=3000)],
        "gen": [lockg("tmutex", timed=T, calls=2, cap=700), lockg("rtmutex", timed=T, nc=2, calls=3, nest=2, cap=500),
                sharedg("stmutex", timed=T, cap=700)],
        "random": [rnd(p.timedlock, 2500)],
    },
    "C06": {
        "models": [cvm(F, T, 3, 2, thorough={"Calls": 3}), cvm(F, F, 3, 3)],
        "gen": [cvg(F, T, 3, 2, 800), cvg(F, F, 3, 3, 800)],
        "random": [rnd(p.cvplain, 1200), rnd(p.cvmany, 1000), rnd(p.cvexit, 600)],
    },
    "C07": {
        "models": [cvm(T, F, 2, 3, 3000), cvm(T, T, 2, 3, 3000)],
        "gen": [cvg(T, F, 3, 2, 900), cvg(T, T, 2, 3, 900)],
        "random": [rnd(p.cv, 2000), rnd(p.cvmany, 600)],
    },
    "C08": {
        "models": [semm("sem2", 2, 1), semm("bsem", 1, 0, timed=T, nc=2, calls=3, maxt=3000)],
        "gen": [semg("sem2", 2, 1), semg("bsem", 1, 0, timed=T), semg("sem3", 3, 0)],
        "random": [rnd(p.sem, 2000), rnd(p.sempair, 1200)],
    },
    "C09": {
        "models": [mod("MC_count", (), {"Calls": 3}, Kind=q("latch"), First=2, NC=3, Calls=2),
                   mod("MC_count", (), {"NC": 4}, Kind=q("wg"), First=3, NC=3, Calls=3)],
        "gen": [gen("MC_count", [["latch", [2]]], 900, {"Calls": 3}, Kind=q("latch"), First=2, NC=3, Calls=2),
                gen("MC_count", [["wg", [3]]], 500, {"Calls": 4}, Kind=q("wg"), First=3, NC=4, Calls=2)],
        "random": [rnd(p.latch, 1800), rnd(p.wg, 1500)],
    },
    "C10": {
        "models": [mod("MC_barrier", (), {"Calls": 4}, First=3, WellFormed=T, NC=3, Calls=3),
                   mod("MC_barrier", (), {"NC": 3}, First=2, WellFormed=F, NC=2, Calls=3)],
        "gen": [gen("MC_barrier", [["barrier", [3]]], 1000, {"Calls": 4}, First=3, WellFormed=T, NC=3, Calls=3),
                gen("MC_barrier", [["barrier", [2]]], 700, {"NC": 3}, First=2, WellFormed=F, NC=2, Calls=3)],
        "random": [rnd(p.barrier, 3000)],
    },
    "C11": {
        "models": [mod("MC_once", (), {"Calls": 3}, NC=3, Calls=2)],
        "gen": [gen("MC_once", [["once", [0]]], 500, {"Calls": 3}, NC=3, Calls=2, reps=2)],
        "random": [rnd(p.once, 4000)],
    },
    "C12": {
        "models": [chanm(1, close=F), chanm(2, close=F), chanm(-1, close=F)],
        "gen": [chang(1, n=700), chang(2, n=600), chang(-1, n=500)],
        "random": [rnd(p.chan, 1800), rnd(p.stream, 1200)],
    },
    "C13": {
        "models": [chanm(1), chanm(0), chanm(-1)],
        "gen": [chang(1, n=600), chang(0, n=700), chang(-1, n=400)],
        "random": [rnd(p.chanclose, 2500), rnd(p.stream, 800)],
    },
    "C14": {
        "models": [chanm(0), chanm(0, close=F)],
        "gen": [chang(0, n=1000), chang(0, close=F, nc=4, n=700)],
        "random": [rnd(p.chan0, 2500)],
    },
    "C15": {
        "models": [lifem(3, 3, "{0}"), lifem(4, 2, "{0, 1}", masters=2)],
        "gen": [lifeg(3, 3, "{0}", cap=900), lifeg(4, 2, "{0, 1}", masters=2, cap=500)],
        "random": [rnd(p.lifeplain, 2000), rnd(p.many, 800)],
    },
    "C16": {
        "models": [lifem(3, 2, "{0}", timed=T, maxt=3000)],
        "gen": [lifeg(3, 3, "{0}", timed=T, cap=900)],
        "random": [rnd(p.life, 2500), rnd(p.many, 600)],
    },
    "C17": {
        "models": [lifem(3, 3, "{0}")],
        "gen": [lifeg(3, 3, "{0}", cap=600)],
        "random": [rnd(p.reclaim, 2000), rnd(p.lifeplain, 1200)],
    },
    "C18": {
        "models": [mod("MC_timer", (), {"NC": 2, "Calls": 2, "MaxT": 3000}, NC=1, Calls=3, MaxT=4000)],
        "random": [rnd(p.timer, 2000, ticks=SLOWTICK), rnd(p.timerlone, 1500, ticks=SLOWTICK), rnd(p.timersame, 800), rnd(p.sleep, 1200)],
    },
    "C19": {
        "models": [plain("MC_sched"), plain("MC_sched", "MC_sched_rr")],
        "random": [rnd(p.prio, 2500), rnd(p.priowait, 2500)],
    },
    "C20": {
        "models": [LOCALM],
        "gen": [LOCALG],
        "random": [rnd(p.prioval, 3000)],
    },
    "C21": {
        "models": [plain("MC_env")],
        "random": [rnd(p.envs, 4000)],
    },
    "C22": {
        "models": [LOCALM],
        "gen": [LOCALG],
        "random": [rnd(p.local, 3000)],
    },
    "C23": {
        "models": [plain("MC_stack")],
        "random": [rnd(p.sharedstack, 3000), rnd(p.stacks, 800)],
    },
    "C24": {
        "models": [plain("MC_stack")],
        "random": [rnd(p.ownstack, 3000), rnd(p.stacks, 800)],
    },
    "C26": {
        "models": [plain("MC_pipe")],
        "random": [rnd(p.pipe, 3000, driver="pipe", module="PipeTrace"),
                   rnd(p.endless, 2000, driver="pipe", module="PipeTrace", strategy=1)],
    },
    "C27": {
        "models": [plain("MC_io", deep="MC_io_deep"), plain("MC_dgram", deep="MC_dgram_deep")],
        "random": [rnd(p.iostream, 2400, driver="io", module="IoTrace"), rnd(p.ioduplex, 1500, driver="io", module="IoTrace"),
                   rnd(p.ioaccept, 1500, driver="io", module="IoTrace"), rnd(p.iofile, 1200, driver="io", module="IoTrace"),
                   rnd(p.iodgram, 1200, driver="io", module="IoTrace")],
    },
    "C28": {
        "models": [mod("MC_event", (), {"NC": 3, "Calls": 2}, NC=2, Calls=3)],
        "gen": [gen("MC_event", [["event", [0]]], 900, {"Calls": 4}, NC=2, Calls=3)],
        "random": [rnd(p.event, 3000)],
    },
    "C29": {
        "models": [plain("MC_env"), plain("MC_pool", deep="MC_pool_deep")],
        "random": [rnd(p.pool, 2500), rnd(p.occupied, 1500)],
    },
    "C31": {
        "models": [mod("MC_handle", (), {"Calls": 6}, NC=3, Calls=5, Started="{0}")],
        "gen": [gen("MC_handle", [], 900, {"Calls": 6}, start=[0], NC=3, Calls=5, Started="{0}")],
        "random": [rnd(p.handles, 2500), rnd(p.lifeplain, 500)],
    },
    "C33": {
        "models": [mod("MC_tell", (), {"Calls": 5}, NC=2, Calls=4, Started="{0}")],
        "gen": [gen("MC_tell", [], 900, {"Calls": 5}, start=[0], NC=2, Calls=4, Started="{0}")],
        "random": [rnd(p.tell, 2500)],
    },
    "C34": {
        "models": [mod("MC_drop", (), {"NC": 4, "Calls": 5}, Kind=q(k), NC=3, Calls=5) for k in ("latch", "wg", "sem3", "barrier", "mutex", "rtmutex")],
        "gen": [gen("MC_drop", [["latch", [2]]], 200, {}, Kind=q("latch"), NC=3, Calls=5),
                gen("MC_drop", [["wg", [2]]], 200, {}, Kind=q("wg"), NC=3, Calls=5),
                gen("MC_drop", [["sem3", [0]]], 200, {}, Kind=q("sem3"), NC=3, Calls=5),
                gen("MC_drop", [["mutex", [0]], ["cv", [0]], ["var", [-1]]], 300, {}, Kind=q("mutex"), NC=3, Calls=5)],
        "random": [rnd(p.drop, 3500)],
    },
    "C32": {
        "flags": {"fifo": 1},
        "models": [plain("MC_queue", deep="MC_queue_deep")],
        "gen": [lockg("mutex", nc=4, calls=2, cap=500), lockg("rtmutex", timed=T, nc=3, calls=2, nest=2, cap=300), sharedg("smutex", nc=4, calls=2, cap=500),
                cvg(F, F, 4, 2, 500)],
        "random": [rnd(p.line, 2500)],
    },
}
