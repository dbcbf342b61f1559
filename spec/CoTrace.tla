------------------------------ MODULE CoTrace ------------------------------
(* Is a trace recorded from the real library a behaviour of CoModel?       *)
(*                                                                         *)
(* A file holds many traces, one JSON object per line:                     *)
(*   id     name of the run                                                *)
(*   objs   the objects: k (kind), a (arguments)                           *)
(*   cos    the coroutines: env (>= 0 the number of an env, -1 any, -2 the *)
(*          main thread, -3 a thread of its own), prio, start              *)
(*   sched  1: judge the order in which the coroutines of an env run       *)
(*   pool   the number of threads for coroutines of any env, 0: not judged *)
(*   fifo   1: judge the order in which blocked coroutines are served      *)
(*   ev     the events: e, c (coroutine), t (time in microseconds), ...    *)
(* Operations take effect silently between call and ret.  A step can       *)
(* always be put off to just before the next event which is not possible   *)
(* without it, so silent steps are only taken there.                       *)
(*                                                                         *)
(* A trace is accepted when all of its events have been consumed.  There   *)
(* is no action for the events of runs which went wrong (crash, access to  *)
(* freed memory, corrupted stack, no progress), so they are rejected.      *)
EXTENDS CoModel, CoSched, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)

VARIABLES ti,   \* which trace
          l,    \* the next event
          w,    \* the world
          P,    \* the pending operations
          S     \* what has been observed about threads, order, lifetimes

vars == <<ti, l, w, P, S>>

T == Traces[ti]
Ev == T.ev[l]
Cos == 0 .. Len(T.cos) - 1
Objs == 0 .. Len(T.objs) - 1
Cfg(c) == T.cos[c + 1]

\* Does anybody want to be told of its end?
Observed(c) == \E i \in DOMAIN T.ev : T.ev[i].e = "call" /\ T.ev[i].op \in {"onfin", "offfin"} /\ T.ev[i].a[1] = c

Init ==
  /\ ti \in 1 .. N
  /\ l = 1
  /\ w = [O |-> [i \in Objs |-> InitObj(T.objs[i + 1].k, T.objs[i + 1].a)],
          L |-> [c \in Cos |-> [InitCo(Cfg(c).start = 1, Cfg(c).prio) EXCEPT !.obs = Observed(c)]]]
  /\ P = [c \in Cos |-> Idle]
  /\ S = [place |-> << >>,                      \* thread -> the env or thread it belongs to
          ex    |-> {},                         \* exclusive envs
          late  |-> [c \in Cos |-> {}],         \* the envs which were exclusive when c was created, if that is for any env
          lateth |-> {},                        \* pairs: a thread, an env which it cannot belong to
          rel   |-> [c \in Cos |-> 0], fin |-> [c \in Cos |-> 0], sp |-> [c \in Cos |-> 0],
          blk   |-> {},                         \* who has waited
          sch   |-> SchedInit(Cos),             \* who has run since when
          burn  |-> [c \in Cos |-> {}],         \* coroutines which must have run before c has ended its burn
          pool  |-> {},                         \* the threads of the pool
          q     |-> [c \in Cos |-> 0]]          \* at which event c was seen blocked for the first time

(* --------------------------------------------------------------- threads *)

\* The place of a coroutine is its env or thread; None: any env
Place(c) == LET e == Cfg(c).env IN IF e >= 0 THEN e ELSE IF e = -2 THEN 1000 ELSE IF e = -3 THEN 2000 + c ELSE None
ThreadOk(c, th) ==
  IF Place(c) # None
  THEN /\ th \in DOMAIN S.place => S.place[th] = Place(c)
       /\ th \notin DOMAIN S.place => \A x \in DOMAIN S.place : S.place[x] # Place(c)
       /\ <<th, Place(c)>> \notin S.lateth
  ELSE /\ th \in DOMAIN S.place => S.place[th] < 1000
       /\ th \in DOMAIN S.place => S.place[th] \notin S.late[c]
       /\ T.pool > 0 => Cardinality(S.pool \cup {th}) <= T.pool
SeeThread(c, th, s) ==
  IF Place(c) # None
  THEN IF th \in DOMAIN s.place THEN s ELSE [s EXCEPT !.place = (th :> Place(c)) @@ @]
  ELSE [s EXCEPT !.lateth = @ \cup {<<th, e>> : e \in s.late[c]}, !.pool = IF T.pool = 0 THEN @ ELSE @ \cup {th}]

(* ------------------------------------------------------------- the order *)

SameEnv(c, d) == Cfg(c).env = Cfg(d).env /\ Cfg(c).env >= 0
\* Waiting for the end of a coroutine, or for a notification
Waits(d) == \/ P[d].op \in {"cowait", "cowaitv"} /\ w.L[P[d].a[1]].st # "fin"
            \/ P[d].op = "wait" /\ (P[d].ph = "run" \/ (P[d].ph = "wait" /\ d \in w.O[P[d].a[1]].w))
Ready(d) == w.L[d].st \in {"spawned", "live"} /\ ~Waits(d)
Peers(c) == {d \in Cos : SameEnv(c, d) /\ Ready(d)}
Prio == [d \in Cos |-> w.L[d].prio]
ChosenOk(c) == T.sched = 0 \/ MayRun(c, Peers(c), Prio, S.sch)
Chosen(c, s) == IF T.sched = 0 THEN s ELSE [s EXCEPT !.sch = HasRun(c, Peers(c), Prio, @)]
Left(d, s) == IF T.sched = 0 THEN s ELSE [s EXCEPT !.sch = Leaves(d, @)]

(* ---------------------------------------------------------------- events *)

Consume == l' = l + 1 /\ UNCHANGED ti

Begin ==
  /\ Ev.e = "begin"
  /\ LET c == Ev.c
     IN /\ w.L[c].st = "spawned"
        /\ ThreadOk(c, Ev.th)
        /\ ChosenOk(c)
        /\ w' = [w EXCEPT !.L[c].st = "live"]
        /\ S' = [Chosen(c, SeeThread(c, Ev.th, S)) EXCEPT !.burn = [d \in Cos |-> @[d] \ {c}]]
  /\ UNCHANGED P

SwitchOps == {"yield"}

\* An operation with a deadline returns in time, whatever it has to report (in microseconds)
Late == 2000000
InTime(p, t) == Deadline(p.op, p.a, p.t) # 0 => t <= p.dl + Late \/ t <= p.t + Late

Call ==
  /\ Ev.e = "call"
  /\ LET c == Ev.c
         s1 == [SeeThread(c, Ev.th, S) EXCEPT !.q[c] = 0]
         s2 == IF Ev.op = "spawn"
               THEN [s1 EXCEPT !.sp[Ev.a[1]] = l, !.late[Ev.a[1]] = IF Place(Ev.a[1]) = None THEN s1.ex ELSE {}]
               ELSE IF Ev.op = "burn" /\ T.forced = 1
               THEN [s1 EXCEPT !.burn[c] = {d \in Cos \ {c} : SameEnv(c, d) /\ w.L[d].st = "spawned" /\ w.L[d].prio <= w.L[c].prio}]
               ELSE IF Ev.op = "setprio" THEN Left(Ev.a[1], s1)
               ELSE IF Ev.op = "setselfprio" THEN Left(c, s1)
               ELSE IF T.sched = 1 /\ (Ev.op = "wait" \/ (Ev.op \in {"cowait", "cowaitv"} /\ w.L[Ev.a[1]].st # "fin"))
               THEN Left(c, [s1 EXCEPT !.blk = @ \cup {c}])
               ELSE s1
     IN /\ P[c].ph = "idle"
        /\ w.L[c].st = "live"
        /\ ThreadOk(c, Ev.th)
        /\ w' = AtCall(c, Ev.op, Ev.a, w)
        /\ P' = [P EXCEPT ![c] = Invoke(Ev.op, Ev.a, Ev.t)]
        /\ S' = s2

CanRet == P[Ev.c].ph = "done" /\ P[Ev.c].r = Ev.r
Ret ==
  /\ Ev.e = "ret"
  /\ CanRet
  /\ LET c == Ev.c
         op == P[c].op
         s1 == SeeThread(c, Ev.th, S)
         s2 == IF op \in {"join", "detach", "destroyco", "assignco"} THEN [s1 EXCEPT !.rel[P[c].a[1]] = l]
               ELSE IF op = "exclusive" THEN [s1 EXCEPT !.ex = @ \cup {P[c].a[1]}]
               ELSE IF op \in SwitchOps \/ c \in s1.blk THEN [Chosen(c, s1) EXCEPT !.blk = @ \ {c}]
               ELSE s1
     IN /\ ThreadOk(c, Ev.th)
        /\ (op \in SwitchOps \/ c \in S.blk) => ChosenOk(c)
        /\ op = "burn" => S.burn[c] = {}
        /\ InTime(P[c], Ev.t)
        \* a periodic timer keeps firing
        /\ op = "tstop" => LET o == w.O[P[c].a[1]] IN o.loop /\ o.st > 0 => o.n >= (o.st - o.t0) \div (20 * o.iv)
        /\ P' = [P EXCEPT ![c] = Idle]
        /\ S' = s2
  /\ UNCHANGED w

End ==
  /\ Ev.e = "fin"
  /\ LET c == Ev.c
     IN /\ P[c].ph = "idle"
        /\ w.L[c].st = "live"
        /\ ThreadOk(c, Ev.th)
        /\ IF Cfg(c).env <= -2
           THEN w' = [w EXCEPT !.L[c].st = "fin"] /\ UNCHANGED P
           ELSE w' = [w EXCEPT !.L[c].st = "ending"] /\ P' = [P EXCEPT ![c] = Exiting]
        /\ S' = Left(c, [S EXCEPT !.fin[c] = l])

\* What the coroutine has captured is destroyed: once, undamaged, and not before its end
Dead ==
  /\ Ev.e = "dead"
  /\ w.L[Ev.c].st \in {"ending", "fin"}
  /\ ~w.L[Ev.c].dead
  /\ Ev.r = 1
  /\ w' = [w EXCEPT !.L[Ev.c].dead = TRUE]
  /\ UNCHANGED <<P, S>>

CanItem == P[Ev.c].op = "range" /\ P[Ev.c].ph = "item" /\ P[Ev.c].x = Ev.r
Item ==
  /\ Ev.e = "item"
  /\ CanItem
  /\ P' = [P EXCEPT ![Ev.c].ph = "run"]
  /\ UNCHANGED <<w, S>>

CanBody == OnceBegin(Ev.c, P[Ev.c], w)
Body ==
  /\ Ev.e = "body"
  /\ CanBody
  /\ LET s == OnceBeginTo(Ev.c, P[Ev.c], w) IN w' = s.w /\ P' = [P EXCEPT ![Ev.c] = s.p]
  /\ UNCHANGED S
BodyEnd ==
  /\ Ev.e = "bodyend"
  /\ OnceEnd(Ev.c, P[Ev.c], w)
  /\ LET s == OnceEndTo(Ev.c, P[Ev.c], w) IN w' = s.w /\ P' = [P EXCEPT ![Ev.c] = s.p]
  /\ UNCHANGED S

\* A callback of an event: c is its tag, r the published value, which is different for every pub
CbOk(d, s) == s \in CbCan(P[d], w) /\ s[2] = Ev.c /\ P[d].a[2] = Ev.r
CanCb == \E d \in Cos : \E s \in CbCan(P[d], w) : CbOk(d, s)
Cb ==
  /\ Ev.e = "cb"
  /\ \E d \in Cos : \E q \in CbCan(P[d], w) :
       CbOk(d, q) /\ LET s == CbTo(d, P[d], w, q) IN w' = s.w /\ P' = [P EXCEPT ![d] = s.p]
  /\ UNCHANGED S

\* The announcement of the end of coroutine r, and of a change of priority; c is the tag of the subscription
CanFinCb == Ev.c \in FcbCan(Ev.r, P[Ev.r], w)
FinCb ==
  /\ Ev.e = "fincb"
  /\ CanFinCb
  /\ LET s == FcbTo(Ev.r, P[Ev.r], w) IN w' = s.w /\ P' = [P EXCEPT ![Ev.r] = s.p]
  /\ UNCHANGED S
PrioTold(d) == P[d].ph = "pcbs" /\ Ev.c \in PcbCan(P[d], w) /\ Ev.r = 1000 * P[d].x.old + P[d].x.new
CanPrioCb == \E d \in Cos : PrioTold(d)
PrioCb ==
  /\ Ev.e = "prcb"
  /\ \E d \in Cos : PrioTold(d) /\ LET s == PcbTo(P[d], w, Ev.c) IN w' = s.w /\ P' = [P EXCEPT ![d] = s.p]
  /\ UNCHANGED S

FireE ==
  /\ Ev.e = "fire"
  /\ Ev.r \in Functions(w.O[Ev.c])
  /\ CanFire(w.O[Ev.c]) /\ (w.O[Ev.c].must > 0 \/ ~CanExpire(w.O[Ev.c], Ev.t))
  /\ w' = SetO(w, Ev.c, Fire(w.O[Ev.c]))
  /\ UNCHANGED <<P, S>>

(* ------------------------------------------------- first come, first served *)

\* When nothing can run, who has not got a lock, or has not been notified, is blocked, and stands in a queue
Blocked(c) == \/ P[c].op \in {"lock", "rlock"} /\ P[c].ph = "run"
              \/ P[c].op \in {"wait", "waitfor", "waituntil"} /\ P[c].ph = "wait" /\ c \in w.O[P[c].a[1]].w
Line(s) == IF T.fifo = 0 THEN s ELSE [s EXCEPT !.q = [c \in Cos |-> IF ~Blocked(c) THEN 0 ELSE IF @[c] = 0 THEN l ELSE @[c]]]

Before(d, c) == S.q[d] > 0 /\ (S.q[c] = 0 \/ S.q[d] < S.q[c])
\* A lock is not taken before those who stand in front; a notification is for the one in front
InLine(c, s) ==
  T.fifo = 0 \/
  LET p == P[c]
      i == p.a[1]
  IN CASE p.op \in {"lock", "trylock", "lockfor", "lockuntil"} ->
            \/ ~(s.p.ph = "done" /\ s.p.r = 1) \/ LockHeld(w.O[i], c)
            \/ \A d \in Cos \ {c} : ~(P[d].op \in {"lock", "rlock"} /\ P[d].ph = "run" /\ P[d].a[1] = i /\ Before(d, c))
       [] p.op = "notify" ->
            LET x == w.O[i].w \ s.w.O[i].w
            IN \A c1 \in x : \A d \in w.O[i].w : ~Before(d, c1)
       [] OTHER -> TRUE

\* What a finished coroutine has captured is gone when its env has run another coroutine since
Reclaimed ==
  \A c \in Cos : \A d \in Cos :
    (SameEnv(c, d) /\ S.rel[c] > 0 /\ S.fin[c] > 0 /\ S.sp[d] > S.rel[c] /\ S.sp[d] > S.fin[c] /\ w.L[d].st = "fin")
    => w.L[c].dead
\* A coroutine without an env of its own has to begin unless all the threads of the pool are kept at closed doors
NoThread == IF T.pool > 0 /\ Cardinality({d \in Cos : Cfg(d).env = -1 /\ P[d].op = "hold"}) >= T.pool
            THEN {c \in Cos : Cfg(c).env = -1} ELSE {}
CanQuiet == AtRest(P, w, NoThread) /\ Reclaimed
Quiet ==
  /\ Ev.e = "quiet"
  /\ CanQuiet
  /\ S' = Line(S)
  /\ UNCHANGED <<w, P>>

\* Nothing can run until a deadline or the end of a sleep: whatever can be done has been done
CanPause == Paused(P, w, NoThread)
Pause ==
  /\ Ev.e = "rest"
  /\ CanPause
  /\ S' = Line(S)
  /\ UNCHANGED <<w, P>>

Finished ==
  /\ Ev.e = "end"
  /\ UNCHANGED <<w, P, S>>

Event == (Begin \/ Call \/ Ret \/ End \/ Dead \/ Item \/ Body \/ BodyEnd \/ Cb \/ FinCb \/ PrioCb \/ FireE \/ Quiet \/ Pause \/ Finished) /\ Consume

(* ---------------------------------------------------------- silent steps *)

NeedsMore ==
  CASE Ev.e = "ret"   -> ~CanRet /\ P[Ev.c].ph # "done"
    [] Ev.e = "item"  -> ~CanItem
    [] Ev.e = "body"  -> ~CanBody
    [] Ev.e = "cb"    -> ~CanCb
    [] Ev.e = "fincb" -> ~CanFinCb
    [] Ev.e = "prcb"  -> ~CanPrioCb
    [] Ev.e = "fire"  -> w.O[Ev.c].must = 0 \/ \E c \in Cos : P[c].op \in {"tstop", "treset", "tcb"} /\ P[c].a[1] = Ev.c /\ P[c].ph # "done"
    [] Ev.e = "quiet" -> ~CanQuiet
    [] Ev.e = "rest"  -> ~CanPause
    [] OTHER          -> FALSE

\* The expiration of a timer is put off until its callback, an operation on it, or the end
MayExpire(i) ==
  CASE Ev.e = "fire" -> Ev.c = i
    [] Ev.e = "ret"  -> P[Ev.c].op \in TimerOps /\ P[Ev.c].a[1] = i /\ ~w.O[i].loop
    [] OTHER         -> Ev.e = "quiet"

Silent ==
  /\ NeedsMore
  /\ UNCHANGED <<ti, l, S>>
  /\ \/ \E c \in Cos : \E s \in Step(c, P[c], w, Ev.t) : InLine(c, s) /\ w' = s.w /\ P' = [P EXCEPT ![c] = s.p]
     \/ \E i \in Objs : MayExpire(i) /\ CanExpire(w.O[i], Ev.t) /\ w' = SetO(w, i, Expire(w.O[i])) /\ UNCHANGED P

Next == l <= Len(T.ev) /\ (Event \/ Silent)

Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ acceptance *)

ASSUME \A i \in 1 .. N : TLCSet(i, 0)

\* Remember how far each trace has come; a trace which has been accepted is not explored any further
Reach ==
  LET m == TLCGet(ti)
  IN IF m > Len(T.ev) THEN FALSE
     ELSE IF l > m THEN TLCSet(ti, l) ELSE TRUE

Accepted ==
  /\ \A i \in 1 .. N : \/ TLCGet(i) > Len(Traces[i].ev)
                       \/ PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", N>>)
=============================================================================
