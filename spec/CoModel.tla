------------------------------ MODULE CoModel ------------------------------
(* What the operations of the library mean to the code which calls them.   *)
(*                                                                         *)
(* The state of a program is a world: its objects, and what has become of  *)
(* its coroutines.  A coroutine which has called an operation has a        *)
(* pending record; Step gives all the ways the operation can go on in a    *)
(* world.  An operation without a way to go on is blocked.  Operations     *)
(* with one effect take one step, the others (waiting for a condition,     *)
(* arriving at a barrier, handing over a value ...) take several.          *)
(*                                                                         *)
(* Nothing in here says how the library does it: no queues of waiters, no  *)
(* spinning, no threads.  The same operators are used by the models which  *)
(* are checked exhaustively (MC), by those   which generate histories for  *)
(* the real library (Gen), and by the validation of recorded traces        *)
(* (CoTrace).                                                              *)
EXTENDS Integers, Sequences, FiniteSets

None == -1

\* An operation with a deadline which has passed may fail although what it waits for has become available, but only
\* if that happened just before the deadline.
CONSTANT Slack
Never == -1000000000
NoSlack == Never

(* ---------------------------------------------------------------- worlds *)

\* k: kind, a: sequence of numbers
InitObj(k, a) ==
  CASE k \in {"mutex", "tmutex", "spin"} -> [k |-> "mutex", own |-> None, cnt |-> 0, rt |-> Never]
    [] k \in {"rmutex", "rtmutex"}   -> [k |-> "rmutex", own |-> None, cnt |-> 0, rt |-> Never]
    [] k \in {"smutex", "stmutex"}   -> [k |-> "smutex", own |-> None, rd |-> {}, rt |-> Never]
    [] k = "cv"                      -> [k |-> "cv", w |-> {}, tw |-> {}]
    [] k = "sem1"                    -> [k |-> "sem", n |-> a[1], max |-> 1, rt |-> Never]
    [] k = "bsem"                    -> [k |-> "sem", n |-> a[1], max |-> 1, rt |-> Never]
    [] k = "sem2"                    -> [k |-> "sem", n |-> a[1], max |-> 2, rt |-> Never]
    [] k = "sem3"                    -> [k |-> "sem", n |-> a[1], max |-> 3, rt |-> Never]
    [] k = "latch"                   -> [k |-> "latch", n |-> a[1]]
    [] k = "wg"                      -> [k |-> "wg", n |-> a[1]]
    [] k = "barrier"                 -> [k |-> "barrier", exp |-> a[1], max |-> a[1], gen |-> 0]
    [] k = "once"                    -> [k |-> "once", st |-> "unset", by |-> None]
    [] k = "chan"                    -> [k |-> "chan", cap |-> a[1], q |-> << >>, closed |-> FALSE, in |-> 0, out |-> 0]
    [] k = "var"                     -> [k |-> "var", v |-> a[1]]
    [] k = "door"                    -> [k |-> "door", v |-> 0]
    [] k = "event"                   -> [k |-> "event", subs |-> << >>, next |-> 0]
    [] k = "timer"                   -> [k |-> "timer", loop |-> a[1] = 1, iv |-> a[2] * 1000, abs |-> None,
                                         run |-> FALSE, due |-> 0, must |-> 0, may |-> 0, t0 |-> 0, st |-> 0, n |-> 0, cb |-> 0, old |-> {}, sure |-> Len(a) > 2 /\ a[3] = 1]
    [] k = "timerabs"                -> [k |-> "timer", loop |-> FALSE, iv |-> 0, abs |-> a[1],
                                         run |-> FALSE, due |-> 0, must |-> 0, may |-> 0, t0 |-> 0, st |-> 0, n |-> 0, cb |-> 0, old |-> {}, sure |-> Len(a) > 2 /\ a[3] = 1]

\* A coroutine: st new -> spawned -> live -> ending -> fin
InitCo(started, prio) ==
  [st |-> IF started THEN "spawned" ELSE "new", held |-> started, val |-> 0, exc |-> None, dead |-> FALSE,
   prio |-> IF prio > 99 THEN 99 ELSE IF prio < 0 THEN 0 ELSE prio, loc |-> <<0, 0, 0>>, tok |-> None, exitcv |-> << >>, obs |-> TRUE, told |-> FALSE, ps |-> << >>, th |-> None, env |-> None]

(* ------------------------------------------------------------ operations *)

Idle == [op |-> "none", a |-> <<0, 0, 0, 0>>, ph |-> "idle", x |-> 0, r |-> 0, t |-> 0, dl |-> 0]

\* The earliest moment at which an operation called at time t may give up
Deadline(op, a, t) ==
  CASE op \in {"lockfor", "rlockfor", "acqfor", "cowaitfor"}           -> t + a[2]
    [] op \in {"lockuntil", "rlockuntil", "acquntil", "cowaituntil"}   -> a[2]
    [] op \in {"waitfor", "waitforp"}                                  -> t + a[3]
    [] op \in {"waituntil", "waituntilp"}                              -> a[3]
    [] op = "sleep"                                                    -> t + a[1]
    [] op = "sleepu"                                                   -> a[1]
    [] OTHER                                                           -> 0

\* Operations which end by themselves and change nothing that others can see.  burn keeps the processor; regyield and
\* deep yield in between and report how many of the registers and stack contents have been changed.
Plain == {"yield", "burn", "spawn", "throw", "retv", "exclusive", "regyield", "deep"}

Invoke(op, a, t) ==
  [op |-> op, a |-> a, ph |-> IF op \in Plain THEN "done" ELSE "run", x |-> 0,
   r |-> IF op \in Plain /\ op \notin {"regyield", "deep"} THEN 1 ELSE 0, t |-> t, dl |-> Deadline(op, a, t)]

SetO(w, i, o) == [w EXCEPT !.O[i] = o]
Fin(w, p, r)  == [w |-> w, p |-> [p EXCEPT !.ph = "done", !.r = r]]
Go(w, p, ph)  == [w |-> w, p |-> [p EXCEPT !.ph = ph]]
GoX(w, p, ph, x) == [w |-> w, p |-> [p EXCEPT !.ph = ph, !.x = x]]
B(b) == IF b THEN 1 ELSE 0

(* ----------------------------------------------------------------- locks *)

LockFree(o, c) ==
  CASE o.k = "mutex"  -> o.own = None
    [] o.k = "rmutex" -> o.own \in {None, c}
    [] o.k = "smutex" -> o.own = None /\ o.rd = {}
LockTake(o, c) ==
  CASE o.k = "mutex"  -> [o EXCEPT !.own = c]
    [] o.k = "rmutex" -> [o EXCEPT !.own = c, !.cnt = @ + 1]
    [] o.k = "smutex" -> [o EXCEPT !.own = c]
LockHeld(o, c) == o.own = c
LockDrop(o, c, t) ==
  CASE o.k = "mutex"  -> [o EXCEPT !.own = None, !.rt = t]
    [] o.k = "rmutex" -> IF o.cnt = 1 THEN [o EXCEPT !.own = None, !.cnt = 0, !.rt = t] ELSE [o EXCEPT !.cnt = @ - 1]
    [] o.k = "smutex" -> [o EXCEPT !.own = None, !.rt = t]

ReadFree(o, c) == o.own = None

LockOps == {"lock", "trylock", "unlock", "lockfor", "lockuntil", "rlock", "tryrlock", "runlock", "rlockfor", "rlockuntil"}

LockStep(c, p, w, tn) ==
  LET i == p.a[1]
      o == w.O[i]
      take == Fin(SetO(w, i, LockTake(o, c)), p, 1)
      rtake == Fin(SetO(w, i, [o EXCEPT !.rd = @ \cup {c}]), p, 1)
      giveup == IF tn >= p.dl /\ o.rt >= p.dl - Slack /\ o.rt >= p.t THEN {Fin(w, p, 0)} ELSE {}
  IN CASE p.op = "lock"    -> IF LockFree(o, c) THEN {take} ELSE {}
       [] p.op = "trylock" -> IF LockFree(o, c) THEN {take} ELSE {Fin(w, p, 0)}
       [] p.op \in {"lockfor", "lockuntil"} ->
            IF LockFree(o, c) THEN {take} \cup giveup ELSE IF tn >= p.dl THEN {Fin(w, p, 0)} ELSE {}
       [] p.op = "unlock"  -> IF LockHeld(o, c) THEN {Fin(SetO(w, i, LockDrop(o, c, tn)), p, 1)} ELSE {Fin(w, p, -1)}
       [] p.op = "rlock"    -> IF ReadFree(o, c) THEN {rtake} ELSE {}
       [] p.op = "tryrlock" -> IF ReadFree(o, c) THEN {rtake} ELSE {Fin(w, p, 0)}
       [] p.op \in {"rlockfor", "rlockuntil"} ->
            IF ReadFree(o, c) THEN {rtake} \cup giveup ELSE IF tn >= p.dl THEN {Fin(w, p, 0)} ELSE {}
       [] p.op = "runlock"  -> IF c \in o.rd THEN {Fin(SetO(w, i, [o EXCEPT !.rd = @ \ {c}, !.rt = tn]), p, 1)} ELSE {Fin(w, p, -1)}

(* --------------------------------------------------- condition variables *)

CvOps == {"wait", "waitp", "waitfor", "waituntil", "waitforp", "waituntilp", "notify", "notifyall", "notifyexit"}
CvTimed == {"waitfor", "waituntil", "waitforp", "waituntilp"}

\* a: condition variable, mutex, ...  The predicate of those whose name ends with p is: the variable is positive.
CvStep(c, p, w, tn) ==
  LET i == p.a[1]
      o == w.O[i]
      m == p.a[2]
      pred == IF p.op = "waitp" THEN w.O[p.a[3]].v > 0 ELSE IF p.op \in {"waitforp", "waituntilp"} THEN w.O[p.a[4]].v > 0 ELSE FALSE
      haspred == p.op \in {"waitp", "waitforp", "waituntilp"}
      \* unlock and begin to wait, in one step
      begin == LET w1 == SetO(w, m, LockDrop(w.O[m], c, tn)) IN Go(SetO(w1, i, [o EXCEPT !.w = @ \cup {c}, !.tw = IF p.op \in CvTimed THEN @ \cup {c} ELSE @]), p, "wait")
      Without(x) == SetO(w, i, [o EXCEPT !.w = @ \ x, !.tw = @ \ x])
      relocked == SetO(w, m, LockTake(w.O[m], c))
  IN CASE p.op = "notify" -> IF o.w = {} THEN {Fin(w, p, 1)} ELSE {Fin(Without({d}), p, 1) : d \in o.w}
       [] p.op = "notifyall" -> \* a deadline may come while the waiters are being notified
            IF p.ph = "rest" THEN {Fin(Without(p.x), p, 1)}
            ELSE {Fin(Without(o.w), p, 1)} \cup {GoX(Without(o.w \ x), p, "rest", x) : x \in SUBSET o.tw \ {{}}}
       [] p.op = "notifyexit" -> {Fin([w EXCEPT !.L[c].exitcv = Append(@, i)], p, 1)}
       [] p.ph = "run" ->
            IF haspred /\ pred THEN {Fin(w, p, 1)}
            ELSE IF p.op \in {"waitforp", "waituntilp"} /\ p.x = 1 THEN {Fin(w, p, 0)}
            ELSE {begin}
       [] p.ph = "wait" ->
            IF c \in o.w
            THEN IF p.op \in CvTimed /\ tn >= p.dl
                 THEN {GoX(Without({c}), p, "wait", 1)}
                 ELSE {}
            ELSE IF ~LockFree(w.O[m], c) THEN {}
            ELSE IF haspred THEN {Go(relocked, p, "run")}
            ELSE {Fin(relocked, p, 1 - p.x)}

(* ------------------------------- semaphores, latches, wait groups, once *)

SemOps == {"acq", "tryacq", "acqfor", "acquntil", "rel"}

\* rel: a[2] units, one after the other, each one waits for room
SemStep(c, p, w, tn) ==
  LET i == p.a[1]
      o == w.O[i]
      dec == Fin(SetO(w, i, [o EXCEPT !.n = @ - 1]), p, 1)
  IN CASE p.op = "acq"    -> IF o.n > 0 THEN {dec} ELSE {}
       [] p.op = "tryacq" -> IF o.n > 0 THEN {dec} ELSE {Fin(w, p, 0)}
       [] p.op \in {"acqfor", "acquntil"} -> IF o.n > 0 THEN {dec} \cup (IF tn >= p.dl /\ o.rt >= p.dl - Slack /\ o.rt >= p.t THEN {Fin(w, p, 0)} ELSE {})
                                              ELSE IF tn >= p.dl THEN {Fin(w, p, 0)} ELSE {}
       [] p.op = "rel" ->
            IF p.x = p.a[2] THEN {Fin(w, p, 1)}
            ELSE IF o.n = o.max THEN {}
            ELSE LET w1 == SetO(w, i, [o EXCEPT !.n = @ + 1, !.rt = IF o.n = 0 THEN tn ELSE @])
                 IN IF p.x + 1 = p.a[2] THEN {Fin(w1, p, 1)} ELSE {GoX(w1, p, "run", p.x + 1)}

CountOps == {"cd", "lwait", "ltry", "law", "done", "wgwait"}

CountStep(c, p, w, tn) ==
  LET i == p.a[1]
      o == w.O[i]
  IN CASE p.op = "cd" -> IF o.n < p.a[2] THEN {Fin(w, p, -1)} ELSE {Fin(SetO(w, i, [o EXCEPT !.n = @ - p.a[2]]), p, 1)}
       [] p.op \in {"lwait", "wgwait"} -> IF o.n = 0 THEN {Fin(w, p, 1)} ELSE {}
       [] p.op = "ltry" -> {Fin(w, p, B(o.n = 0))}
       [] p.op = "law" ->
            IF p.ph = "wait" THEN IF o.n = 0 THEN {Fin(w, p, 1)} ELSE {}
            ELSE IF o.n < p.a[2] THEN {Fin(w, p, -1)} ELSE {Go(SetO(w, i, [o EXCEPT !.n = @ - p.a[2]]), p, "wait")}
       [] p.op = "done" -> {Fin(SetO(w, i, [o EXCEPT !.n = @ - 1]), p, 1)}

BarrierOps == {"arrive", "bwait", "barw", "bdrop"}

Arrive(o, n) == IF o.exp = n THEN [o EXCEPT !.exp = o.max, !.gen = @ + 1] ELSE [o EXCEPT !.exp = @ - n]

BarrierStep(c, p, w, tn) ==
  LET i == p.a[1]
      o == w.O[i]
  IN CASE p.op = "arrive" -> IF p.a[2] > o.exp THEN {Fin(w, p, -1)}
                             ELSE {Fin([SetO(w, i, Arrive(o, p.a[2])) EXCEPT !.L[c].tok = o.gen], p, 1)}
       [] p.op = "bwait" -> IF w.L[c].tok = None THEN {Fin(w, p, -1)} ELSE IF w.L[c].tok # o.gen THEN {Fin(w, p, 1)} ELSE {}
       [] p.op = "barw" -> IF p.ph = "wait" THEN IF p.x # o.gen THEN {Fin(w, p, 1)} ELSE {}
                           ELSE IF o.exp < 1 THEN {Fin(w, p, -1)}
                           ELSE {GoX(SetO(w, i, Arrive(o, 1)), p, "wait", o.gen)}
       [] p.op = "bdrop" -> IF o.max = 0 \/ o.exp < 1 THEN {Fin(w, p, -1)}
                            ELSE {Fin(SetO(w, i, Arrive([o EXCEPT !.max = @ - 1], 1)), p, 1)}

\* a: flag, throws?, ...   The begin and the end of the function are separate steps of the one who calls it.
OnceBegin(c, p, w) == p.op = "once" /\ p.ph = "run" /\ w.O[p.a[1]].st = "unset"
OnceBeginTo(c, p, w) == Go(SetO(w, p.a[1], [w.O[p.a[1]] EXCEPT !.st = "running", !.by = c]), p, "body")
OnceEnd(c, p, w) == p.op = "once" /\ p.ph = "body"
OnceEndTo(c, p, w) ==
  IF p.a[2] > 0 THEN Fin(SetO(w, p.a[1], [w.O[p.a[1]] EXCEPT !.st = "unset", !.by = None]), p, -1000 - p.a[2])
  ELSE Fin(SetO(w, p.a[1], [w.O[p.a[1]] EXCEPT !.st = "set", !.by = None]), p, 1)
OnceStep(c, p, w, tn) == IF p.ph = "run" /\ w.O[p.a[1]].st = "set" THEN {Fin(w, p, 1)} ELSE {}

(* -------------------------------------------------------------- channels *)

ChanOps == {"push", "pushop", "pushsh", "pop", "popop", "popsh", "close", "closed", "empty", "chmax", "range"}

ChanStep(c, p, w, tn) ==
  LET i == p.a[1]
      o == w.O[i]
      put == SetO(w, i, [o EXCEPT !.q = Append(@, p.a[2]), !.in = @ + 1])
      get == SetO(w, i, [o EXCEPT !.q = Tail(@), !.out = @ + 1])
      refused == Fin(w, p, IF p.op = "pushsh" THEN 1 ELSE 0)
  IN CASE p.op \in {"push", "pushop", "pushsh"} ->
            IF p.ph = "wait" \* without buffer: until the value is taken
            THEN IF o.out >= p.x \/ o.closed THEN {Fin(w, p, 1)} ELSE {}
            ELSE IF o.closed THEN {refused}
            ELSE IF o.cap = 0 THEN IF o.q = << >> THEN {GoX(put, p, "wait", o.in + 1)} ELSE {}
            ELSE IF o.cap < 0 \/ Len(o.q) < o.cap THEN {Fin(put, p, 1)} ELSE {}
       [] p.op \in {"pop", "popop", "popsh"} ->
            IF o.q # << >> THEN {Fin(get, p, Head(o.q))} ELSE IF o.closed THEN {Fin(w, p, 0)} ELSE {}
       [] p.op = "close"  -> {Fin(SetO(w, i, [o EXCEPT !.closed = TRUE]), p, 1)}
       [] p.op = "closed" -> {Fin(w, p, B(o.closed))}
       [] p.op = "chmax"  -> {Fin(w, p, o.cap)}
       [] p.op = "empty"  -> {Fin(w, p, B(o.q = << >>))}
       [] p.op = "range" -> \* every element is reported while it goes on
            IF p.ph = "item" THEN {}
            ELSE IF o.q # << >> THEN {GoX(get, p, "item", Head(o.q))} ELSE IF o.closed THEN {Fin(w, p, 1)} ELSE {}

(* ---------------------------------------------------------------- events *)

EventOps == {"sub", "unsub", "pub"}

\* sub: event, tag, what the function does when it is called: 1 unsubscribes itself, 2 unsubscribes a[4], 3 subscribes
\* another one, with the tag a[4], instead of itself.  A publication has to call those who are subscribed when it begins, in their order; it
\* need not call those who are unsubscribed meanwhile, and may call those who are subscribed meanwhile.
Unsubscribe(o, h) == [o EXCEPT !.subs = SelectSeq(@, LAMBDA s : s[1] # h)]
Subscribe(o, tag, act, arg) == [o EXCEPT !.subs = Append(@, <<o.next, tag, act, arg>>), !.next = @ + 1]
Subscribed(o, s) == \E i \in DOMAIN o.subs : o.subs[i] = s

EventStep(c, p, w, tn) ==
  LET i == p.a[1]
      o == w.O[i]
  IN CASE p.op = "sub"   -> {Fin(SetO(w, i, Subscribe(o, p.a[2], p.a[3], p.a[4])), p, o.next)}
       [] p.op = "unsub" -> {Fin(SetO(w, i, Unsubscribe(o, p.a[2])), p, 1)}
       [] p.op = "pub"   ->
            IF p.ph = "run" THEN IF o.subs = << >> THEN {Fin(w, p, 1)} ELSE {GoX(w, p, "cbs", [todo |-> o.subs, from |-> o.next])}
            ELSE IF \E k \in DOMAIN p.x.todo : Subscribed(o, p.x.todo[k]) THEN {} ELSE {Fin(w, p, 1)}
\* The subscriptions which a publication may call next
CbNext(p, w) ==
  LET o == w.O[p.a[1]]
      Skip(k) == \A j \in 1 .. k - 1 : ~Subscribed(o, p.x.todo[j])
  IN {p.x.todo[k] : k \in {k \in DOMAIN p.x.todo : Skip(k)}}
     \cup (IF \E k \in DOMAIN p.x.todo : Subscribed(o, p.x.todo[k]) THEN {}
           ELSE {o.subs[k] : k \in {k \in DOMAIN o.subs : o.subs[k][1] >= p.x.from}})
CbCan(p, w) == IF p.op = "pub" /\ p.ph = "cbs" THEN CbNext(p, w) ELSE {}
CbTo(c, p, w, s) ==
  LET o == w.O[p.a[1]]
      o1 == CASE s[3] = 1 -> Unsubscribe(o, s[1])
              [] s[3] = 2 -> Unsubscribe(o, s[4])
              [] s[3] = 3 -> Subscribe(Unsubscribe(o, s[1]), s[4], 0, 0)
              [] OTHER    -> o
      later == SelectSeq(p.x.todo, LAMBDA q : q[1] > s[1])
  IN GoX(SetO(w, p.a[1], o1), p, "cbs", [todo |-> later, from |-> IF s[1] >= p.x.from THEN s[1] + 1 ELSE p.x.from])

(* ---------------------------------------------------------------- timers *)

TimerOps == {"tstart", "tstop", "treset", "trun", "tcb"}

TStart(o, t) == IF o.run THEN o ELSE [o EXCEPT !.run = TRUE, !.due = IF o.abs # None THEN o.abs ELSE t + o.iv, !.t0 = t, !.st = 0, !.n = 0]
CanExpire(o, tn) == o.k = "timer" /\ o.run /\ tn >= o.due
Expire(o) == [o EXCEPT !.run = o.loop, !.due = @ + o.iv, !.must = @ + 1]
\* An expiration whose callback has not been called yet may be called after stop, it need not; but not if nothing runs
\* beside the one who stops the timer (sure), since no callback is about to be called then
TStop(o, t, tn) ==
  [o EXCEPT !.run = FALSE, !.must = 0, !.st = IF o.run THEN t ELSE @,
            !.may = IF o.sure THEN 0 ELSE @ + o.must + (IF ~CanExpire(o, tn) THEN 0 ELSE IF o.loop THEN (tn - o.due) \div o.iv + 1 ELSE 1)]
CanFire(o) == o.k = "timer" /\ (o.must > 0 \/ o.may > 0)
\* A call which has to be made is made before one which only may be made
FireN(o) == IF o.must > 0 THEN [o EXCEPT !.must = @ - 1, !.n = @ + 1] ELSE [o EXCEPT !.may = @ - 1, !.n = @ + 1]
\* cb: the function which is called; old: those which may still be called since an expiration came before their replacement
Waiting(o) == o.must > 0 \/ o.may > 0
Fire(o) == LET q == FireN(o) IN [q EXCEPT !.old = IF Waiting(q) THEN @ ELSE {}]
Functions(o) == {o.cb} \cup o.old

TimerStep(c, p, w, tn) ==
  LET i == p.a[1]
      o == w.O[i]
  IN CASE p.op = "tstart" -> {Fin(SetO(w, i, TStart(o, p.t)), p, 1)}
       [] p.op = "tstop"  -> {Fin(SetO(w, i, TStop(o, p.t, tn)), p, 1)}
       [] p.op = "treset" -> IF p.ph = "run" THEN {Go(SetO(w, i, TStop(o, p.t, tn)), p, "start")} ELSE {Fin(SetO(w, i, TStart(o, p.t)), p, 1)}
       [] p.op = "tcb"    -> {Fin(SetO(w, i, [o EXCEPT !.cb = p.a[2], !.old = IF ~o.sure /\ (Waiting(o) \/ CanExpire(o, tn)) THEN @ \cup {o.cb} ELSE {}]), p, o.cb)}
       [] p.op = "trun"   -> {Fin(w, p, B(o.run))}

(* ------------------------------------------------------------ coroutines *)

LifeOps == {"join", "cowait", "cowaitv", "cowaitbad", "cowaitfor", "cowaituntil", "detach", "destroyco",
            "moveco", "assignco", "coname", "coid", "cofin", "selfname", "selfid",
            "setprio", "setselfprio", "getprio", "getselfprio", "local", "onfin", "offfin", "onprio", "offprio"}

Clamp(x) == IF x > 99 THEN 99 ELSE IF x < 0 THEN 0 ELSE x

\* An exception which ended the coroutine is given to the first one who waits for it
WaitEnd(w, p, d, value) ==
  IF w.L[d].exc # None THEN Fin([w EXCEPT !.L[d].exc = None], p, -1000 - w.L[d].exc) ELSE Fin(w, p, value)

\* A change of priority is announced to all who are subscribed, one after the other
Listening(w, x) == \E k \in DOMAIN x.todo : \E j \in DOMAIN w.L[x.of].ps : w.L[x.of].ps[j] = x.todo[k]
SetPrio(p, w, d, new) ==
  LET old == w.L[d].prio
      x == [of |-> d, old |-> old, new |-> new, todo |-> w.L[d].ps]
  IN IF p.ph = "pcbs" THEN IF Listening(w, p.x) THEN {} ELSE {Fin(w, p, 1)}
     ELSE IF old = new \/ w.L[d].ps = << >> THEN {Fin([w EXCEPT !.L[d].prio = new], p, 1)}
     ELSE {GoX([w EXCEPT !.L[d].prio = new], p, "pcbs", x)}
\* Who may be told next
PcbCan(p, w) ==
  IF p.ph # "pcbs" THEN {}
  ELSE {p.x.todo[k] : k \in {k \in DOMAIN p.x.todo : \A i \in 1 .. k - 1 : \A j \in DOMAIN w.L[p.x.of].ps : w.L[p.x.of].ps[j] # p.x.todo[i]}}
PcbTo(p, w, tag) ==
  LET k == CHOOSE k \in DOMAIN p.x.todo : p.x.todo[k] = tag
  IN GoX(w, p, "pcbs", [p.x EXCEPT !.todo = SubSeq(@, k + 1, Len(@))])

Tag(x) == -1 - x

LifeStep(c, p, w, tn) ==
  LET d == p.a[1]
      l == w.L[d]
      released == [w EXCEPT !.L[d].held = FALSE]
  IN CASE p.op \in {"join", "destroyco", "assignco"} -> IF ~l.held THEN {Fin(w, p, 1)} ELSE IF l.st = "fin" THEN {WaitEnd(released, p, d, 1)} ELSE {}
       [] p.op = "cowaitv" -> IF ~l.held THEN {Fin(w, p, 1)} ELSE IF l.st = "fin" THEN {WaitEnd(w, p, d, 1)} ELSE {}
       [] p.op = "cowait" -> IF l.st = "fin" THEN {WaitEnd(w, p, d, IF l.val = None THEN -2 ELSE l.val)} ELSE {}
       [] p.op = "cowaitbad" -> IF l.st = "fin" THEN {WaitEnd(w, p, d, -2)} ELSE {}
       [] p.op \in {"cowaitfor", "cowaituntil"} ->
            IF l.st = "fin" THEN {WaitEnd(w, p, d, IF l.val = None THEN -2 ELSE l.val)} ELSE IF tn >= p.dl THEN {Fin(w, p, 0)} ELSE {}
       [] p.op = "detach" -> {Fin(released, p, 1)}
       \* a handle which is moved stays with its coroutine; one which has been given up belongs to nobody
       [] p.op \in {"moveco", "selfid"} -> {Fin(w, p, 1)}
       [] p.op = "coname" -> {Fin(w, p, IF l.held THEN d ELSE -1)}
       [] p.op = "coid" -> {Fin(w, p, IF l.held THEN 1 ELSE 2)}
       [] p.op = "cofin" -> {Fin(w, p, B(l.st = "fin"))}
       [] p.op = "selfname" -> {Fin(w, p, c)}
       [] p.op = "setprio" -> SetPrio(p, w, d, Clamp(p.a[2]))
       [] p.op = "setselfprio" -> SetPrio(p, w, c, Clamp(p.a[1]))
       \* a[2]: a tag.  While the end is being announced a subscription may come too late, as may its end.
       [] p.op = "onfin" -> IF l.told THEN {Fin(w, p, 1)}
                            ELSE {Fin([w EXCEPT !.L[d].exitcv = Append(@, Tag(p.a[2]))], p, 1)} \cup (IF l.st = "fin" THEN {Fin(w, p, 1)} ELSE {})
       [] p.op = "offfin" -> {Fin([w EXCEPT !.L[d].exitcv = SelectSeq(@, LAMBDA x : x # Tag(p.a[2]))], p, 1)}
                             \cup (IF l.st = "fin" THEN {Fin(w, p, 1)} ELSE {})
       [] p.op = "onprio" -> {Fin([w EXCEPT !.L[d].ps = Append(@, p.a[2])], p, 1)}
       [] p.op = "offprio" -> {Fin([w EXCEPT !.L[d].ps = SelectSeq(@, LAMBDA x : x # p.a[2])], p, 1)}
       [] p.op = "getprio" -> {Fin(w, p, l.prio)}
       [] p.op = "getselfprio" -> {Fin(w, p, w.L[c].prio)}
       [] p.op = "local" -> {Fin([w EXCEPT !.L[c].loc[p.a[1] + 1] = p.a[2]], p, w.L[c].loc[p.a[1] + 1])}

\* After its last action a coroutine becomes finished; then its end is announced: the condition variables registered for
\* it are notified, the functions which are subscribed are called, in the order of registration
Exiting == [Idle EXCEPT !.op = "exit", !.ph = "run"]
ExitStep(c, p, w, tn) ==
  LET cvs == w.L[c].exitcv
  IN IF p.ph = "run" THEN {[w |-> [w EXCEPT !.L[c].st = "fin"], p |-> IF cvs = << >> /\ ~w.L[c].obs THEN Idle ELSE [p EXCEPT !.ph = "notify"]]}
     ELSE IF cvs = << >> THEN {[w |-> [w EXCEPT !.L[c].told = TRUE], p |-> Idle]}
     ELSE IF Head(cvs) < 0 THEN {}
     ELSE LET i == Head(cvs)
              o == w.O[i]
              Without(x) == SetO(w, i, [o EXCEPT !.w = @ \ x, !.tw = @ \ x])
              Done(w1) == [w |-> [w1 EXCEPT !.L[c].exitcv = Tail(@)], p |-> [p EXCEPT !.ph = "notify"]]
          IN IF p.ph = "rest" THEN {Done(Without(p.x))}
             ELSE {Done(Without(o.w))} \cup {GoX(Without(o.w \ x), p, "rest", x) : x \in SUBSET o.tw \ {{}}}
FcbCan(c, p, w) == IF p.op = "exit" /\ p.ph = "notify" /\ w.L[c].exitcv # << >> /\ Head(w.L[c].exitcv) < 0 THEN {-1 - Head(w.L[c].exitcv)} ELSE {}
FcbTo(c, p, w) == [w |-> [w EXCEPT !.L[c].exitcv = Tail(@)], p |-> p]

(* ---------------------------------------------------------------- others *)

MiscStep(c, p, w, tn) ==
  LET i == p.a[1]
  IN CASE p.op \in {"sleep", "sleepu"} -> IF tn >= p.dl THEN {Fin(w, p, 1)} ELSE {}
       \* at a closed door the thread is kept
       [] p.op = "hold" -> IF w.O[i].v = 1 THEN {Fin(w, p, 1)} ELSE {}
       [] p.op = "open" -> {Fin(SetO(w, i, [w.O[i] EXCEPT !.v = 1]), p, 1)}
       \* the object is destroyed; a wait group is waited for before
       [] p.op = "drop" -> IF w.O[i].k = "wg" /\ w.O[i].n > 0 THEN {} ELSE {Fin(SetO(w, i, [k |-> "gone"]), p, 1)}
       [] p.op = "set" -> {Fin(SetO(w, i, [w.O[i] EXCEPT !.v = p.a[2]]), p, 1)}
       [] p.op = "add" -> {Fin(SetO(w, i, [w.O[i] EXCEPT !.v = @ + p.a[2]]), p, w.O[i].v + p.a[2])}

Step(c, p, w, tn) ==
  IF p.ph \in {"idle", "done"} THEN {}
  ELSE CASE p.op \in LockOps    -> LockStep(c, p, w, tn)
         [] p.op \in CvOps      -> CvStep(c, p, w, tn)
         [] p.op \in SemOps     -> SemStep(c, p, w, tn)
         [] p.op \in CountOps   -> CountStep(c, p, w, tn)
         [] p.op \in BarrierOps -> BarrierStep(c, p, w, tn)
         [] p.op = "once"       -> OnceStep(c, p, w, tn)
         [] p.op \in ChanOps    -> ChanStep(c, p, w, tn)
         [] p.op \in EventOps   -> EventStep(c, p, w, tn)
         [] p.op \in TimerOps   -> TimerStep(c, p, w, tn)
         [] p.op \in LifeOps    -> LifeStep(c, p, w, tn)
         [] p.op = "exit"       -> ExitStep(c, p, w, tn)
         [] OTHER               -> MiscStep(c, p, w, tn)

\* What a call changes at once: what it starts may be seen before the call returns
AtCall(c, op, a, w) ==
  CASE op = "spawn" -> [w EXCEPT !.L[a[1]].st = "spawned", !.L[a[1]].held = TRUE]
    [] op = "throw" -> [w EXCEPT !.L[c].exc = a[1], !.L[c].val = None]
    [] op = "retv"  -> [w EXCEPT !.L[c].val = a[1]]
    [] OTHER        -> w

\* Nothing more happens by itself: no operation can go on, and none has ended without returning.  Time passes until
\* every deadline is over.  late: those for whom no thread is free.
Later == 1000000000
AtRest(P, w, late) ==
  /\ \A c \in DOMAIN P : /\ P[c].ph # "done"
                         /\ Step(c, P[c], w, Later) = {}
                         /\ ~OnceBegin(c, P[c], w)
                         /\ P[c].ph \notin {"item", "cbs", "body", "pcbs"} /\ P[c].op # "exit"
  /\ \A i \in DOMAIN w.O : w.O[i].k = "timer" => ~w.O[i].run /\ w.O[i].must = 0
  /\ \A c \in DOMAIN w.L \ late : w.L[c].st # "spawned"

\* Nothing more happens before time has passed
Paused(P, w, late) ==
  /\ \A c \in DOMAIN P : /\ P[c].ph # "done"
                         /\ Step(c, P[c], w, -Later) = {}
                         /\ ~OnceBegin(c, P[c], w)
                         /\ P[c].ph \notin {"item", "cbs", "pcbs"} /\ P[c].op # "exit"
  /\ \A i \in DOMAIN w.O : w.O[i].k = "timer" => w.O[i].must = 0
  /\ \A c \in DOMAIN w.L \ late : w.L[c].st # "spawned"
=============================================================================
