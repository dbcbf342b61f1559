------------------------------- MODULE CoSys -------------------------------
(* A closed system: clients which call the operations of CoModel in every  *)
(* order their menu allows.  The modules MC_xxx give the objects, the menu *)
(* and the properties; a ghost observes nothing but calls and returns, so  *)
(* that the properties are stated about what users see and not about the   *)
(* state the operations are defined with.                                  *)
EXTENDS CoModel, TLC

CONSTANTS ObjDefs,          \* the objects: sequence of [k, a]
          NC,               \* number of clients
          Calls,            \* how many operations each client calls at most
          Started,          \* the clients which run from the beginning, the others have to be spawned
          MaxT,             \* time goes from 0 to MaxT in steps of 1000
          Menu(_, _, _),    \* what client c may call in world w with ghost g: a set of <<op, a>>
          Ghost0,           \* initial ghost
          GCall(_, _, _, _),\* ghost, client, op, a
          GRet(_, _, _, _, _) \* ghost, client, op, a, result

VARIABLES w, P, left, tn, g, hist
vars == <<w, P, left, tn, g, hist>>

Clients == 0 .. NC - 1
Objs == 0 .. Len(ObjDefs) - 1

Obj(k, a) == [k |-> k, a |-> a]

Init ==
  /\ w = [O |-> [i \in Objs |-> InitObj(ObjDefs[i + 1].k, ObjDefs[i + 1].a)],
          L |-> [c \in Clients |-> IF c \in Started THEN [InitCo(TRUE, 99) EXCEPT !.st = "live"] ELSE InitCo(FALSE, 99)]]
  /\ P = [c \in Clients |-> Idle]
  /\ left = [c \in Clients |-> Calls]
  /\ tn = 0
  /\ g = Ghost0
  /\ hist = << >>

Become(c, s) == w' = s.w /\ P' = [P EXCEPT ![c] = s.p]

Call(c) ==
  /\ P[c].ph = "idle" /\ w.L[c].st = "live" /\ left[c] > 0
  /\ \E m \in Menu(c, w, g) :
       /\ w' = AtCall(c, m[1], m[2], w)
       /\ P' = [P EXCEPT ![c] = Invoke(m[1], m[2], tn)]
       /\ g' = GCall(g, c, m[1], m[2])
  /\ left' = [left EXCEPT ![c] = @ - 1]
  /\ UNCHANGED tn

Ret(c) ==
  /\ P[c].ph = "done"
  /\ P' = [P EXCEPT ![c] = Idle]
  /\ g' = GRet(g, c, P[c].op, P[c].a, P[c].r)
  /\ UNCHANGED <<w, left, tn>>

\* All the ways a pending operation of c can go on at time t
Ways(c, t) ==
  Step(c, P[c], w, t)
  \cup (IF OnceBegin(c, P[c], w) THEN {OnceBeginTo(c, P[c], w)} ELSE {})
  \cup (IF OnceEnd(c, P[c], w) THEN {OnceEndTo(c, P[c], w)} ELSE {})
  \cup (IF P[c].ph = "item" THEN {[w |-> w, p |-> [P[c] EXCEPT !.ph = "run"]]} ELSE {})
  \cup {CbTo(c, P[c], w, s) : s \in CbCan(P[c], w)}
  \cup {PcbTo(P[c], w, k) : k \in PcbCan(P[c], w)}
  \cup (IF FcbCan(c, P[c], w) # {} THEN {FcbTo(c, P[c], w)} ELSE {})

\* A function which is subscribed is called
Told(c) ==
  /\ \/ \E s \in CbCan(P[c], w) : Become(c, CbTo(c, P[c], w, s)) /\ g' = GRet(g, c, "cb", P[c].a, s)
     \/ \E t \in PcbCan(P[c], w) : Become(c, PcbTo(P[c], w, t)) /\ g' = GRet(g, c, "prcb", <<P[c].x.of, P[c].x.old, P[c].x.new>>, t)
     \/ \E t \in FcbCan(c, P[c], w) : Become(c, FcbTo(c, P[c], w)) /\ g' = GRet(g, c, "fincb", P[c].a, t)
  /\ UNCHANGED <<left, tn>>
Telling(c) == CbCan(P[c], w) # {} \/ PcbCan(P[c], w) # {} \/ FcbCan(c, P[c], w) # {}

Go1(c) ==
  /\ P[c].ph # "idle"
  /\ \E s \in (IF Telling(c) THEN Step(c, P[c], w, tn) ELSE Ways(c, tn)) : Become(c, s)
  /\ g' = IF P[c].ph = "item" THEN GRet(g, c, "item", P[c].a, P[c].x)
          ELSE IF P'[c].ph = "body" THEN GRet(g, c, "body", P[c].a, 0)
          ELSE IF P[c].ph = "body" THEN GRet(g, c, "bodyend", P[c].a, 0)
          ELSE g
  /\ UNCHANGED <<left, tn>>

TimerExpires(i) == CanExpire(w.O[i], tn) /\ w' = SetO(w, i, Expire(w.O[i])) /\ UNCHANGED <<P, left, tn, g>>
TimerFires(i) ==
  /\ CanFire(w.O[i])
  /\ w' = SetO(w, i, Fire(w.O[i]))
  /\ \E v \in Functions(w.O[i]) : g' = GRet(g, None, "fire", <<i, tn>>, v)
  /\ UNCHANGED <<P, left, tn>>

\* A spawned coroutine begins; it ends when it wants to
Begin(c) == w.L[c].st = "spawned" /\ w' = [w EXCEPT !.L[c].st = "live"] /\ UNCHANGED <<P, left, tn, g>>
Finish(c) ==
  /\ c \notin Started /\ w.L[c].st = "live" /\ P[c].ph = "idle"
  /\ w' = [w EXCEPT !.L[c].st = "ending"]
  /\ P' = [P EXCEPT ![c] = Exiting]
  /\ g' = GCall(g, c, "fin", <<0, 0, 0, 0>>)
  /\ UNCHANGED <<left, tn>>

Tick == tn < MaxT /\ tn' = tn + 1000 /\ UNCHANGED <<w, P, left, g>>

Next1 ==
  \/ \E c \in Clients : Call(c) \/ Ret(c) \/ Go1(c) \/ Told(c) \/ Begin(c) \/ Finish(c)
  \/ \E i \in Objs : TimerExpires(i) \/ TimerFires(i)
  \/ Tick
Next == Next1 /\ UNCHANGED hist

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A c \in Clients : WF_vars(Call(c) /\ UNCHANGED hist) /\ WF_vars(Ret(c) /\ UNCHANGED hist) /\ SF_vars((Go1(c) \/ Told(c)) /\ UNCHANGED hist)

\* No operation can go on by itself, now or later
Rest == AtRest(P, w, {})
Pending(c) == P[c].ph # "idle"
NoResult == \A c \in Clients : P[c].ph = "done" => Step(c, P[c], w, tn) = {}

(* ------------------------------------------------ generation of histories *)
(* The next call is made when nothing can go on: either at once (soft), or *)
(* after all deadlines are over (hard).  Every transition of this graph    *)
(* prints the history which leads to it; they are replayed with the real   *)
(* library, where the gates of the driver give the same order.             *)

\* no step possible at this moment, with or without waiting for deadlines
Settled(t) == \A c \in Clients : P[c].ph # "done" /\ (P[c].ph # "idle" => Ways(c, t) = {})
TimedPending == \E c \in Clients : P[c].ph # "idle" /\ P[c].dl > 0

GenCall(c, soft) ==
  /\ Settled(0)
  /\ IF soft THEN TimedPending ELSE Settled(Later)
  /\ P[c].ph = "idle" /\ w.L[c].st = "live" /\ left[c] > 0
  /\ \E m \in Menu(c, w, g) :
       /\ w' = AtCall(c, m[1], m[2], w)
       /\ P' = [P EXCEPT ![c] = [Invoke(m[1], m[2], 0) EXCEPT !.dl = IF @ > 0 THEN 1 ELSE 0]]
       /\ g' = GCall(g, c, m[1], m[2])
       /\ hist' = Append(hist, <<c, m[1], [i \in 1 .. 4 |-> IF m[2][i] = 2000 THEN 1000000 ELSE m[2][i]], IF soft THEN 1 ELSE 0>>)
       /\ PrintT(<<"H", ToString(hist')>>)
  /\ left' = [left EXCEPT ![c] = @ - 1]
  /\ UNCHANGED tn

\* Deadlines only pass when nothing else can happen
GenGo(c) ==
  /\ P[c].ph \notin {"idle", "done"}
  /\ ~Telling(c)
  /\ \E s \in (IF Settled(0) THEN Ways(c, Later) ELSE Ways(c, 0)) : Become(c, s)
  /\ g' = IF P[c].ph = "item" THEN GRet(g, c, "item", P[c].a, P[c].x)
          ELSE g
  /\ UNCHANGED <<left, tn, hist>>
GenRet(c) == Ret(c) /\ UNCHANGED hist
GenBegin(c) == Begin(c) /\ UNCHANGED hist
\* with the last call, or earlier when there is nothing to do
GenFinish(c) == Settled(0) /\ (left[c] = 0 \/ Menu(c, w, g) = {}) /\ Finish(c) /\ UNCHANGED hist

GenTold(c) == Told(c) /\ UNCHANGED hist
GenNext == \E c \in Clients : GenTold(c) \/ GenRet(c) \/ GenGo(c) \/ GenBegin(c) \/ GenFinish(c) \/ GenCall(c, TRUE) \/ GenCall(c, FALSE)
GenSpec == Init /\ [][GenNext]_vars
GenView == <<w, P, left, g>>
=============================================================================
