------------------------------ MODULE IoTrace ------------------------------
(* Is a trace recorded from the real library a behaviour of CoIo?          *)
(* Events: begin, call (op, a, d), ret (r, d the bytes read, x the value   *)
(* of errno after an error), fault (the system has reported the error r to *)
(* coroutine c), fin, quiet, end.                                          *)
EXTENDS CoIo, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)

VARIABLES ti, l, w, P, live
vars == <<ti, l, w, P, live>>

T == Traces[ti]
Ev == T.ev[l]
Cos == 0 .. T.n - 1

Init ==
  /\ ti \in 1 .. N /\ l = 1
  /\ w = World0(0 .. T.slots - 1, T.pairs, T.listen, T.files, {T.dgrams[i] : i \in 1 .. Len(T.dgrams)})
  /\ P = [c \in Cos |-> IoIdle]
  /\ live = [c \in Cos |-> "new"]

Consume == l' = l + 1 /\ UNCHANGED ti

CanRet == /\ P[Ev.c].ph = "done" /\ P[Ev.c].r = Ev.r
          /\ Ev.r >= 0 => P[Ev.c].got = Ev.d
          \* a datagram comes from where it was sent, if that is told
          /\ P[Ev.c].op \in {"gget", "gpeek"} /\ Ev.r >= 0 => Ev.x \in {-1, P[Ev.c].from}
          /\ P[Ev.c].fault # 0 => Ev.x = P[Ev.c].fault

Event ==
  /\ \/ Ev.e = "begin" /\ live[Ev.c] = "new" /\ live' = [live EXCEPT ![Ev.c] = "live"] /\ UNCHANGED <<w, P>>
     \/ /\ Ev.e = "call" /\ live[Ev.c] = "live" /\ P[Ev.c].ph = "idle"
        /\ P' = [P EXCEPT ![Ev.c] = IoCall(Ev.op, Ev.a, Ev.d)] /\ UNCHANGED <<w, live>>
     \/ /\ Ev.e = "fault" /\ P[Ev.c].ph = "run"
        /\ P' = [P EXCEPT ![Ev.c].fault = Ev.r] /\ UNCHANGED <<w, live>>
     \/ Ev.e = "ret" /\ CanRet /\ P' = [P EXCEPT ![Ev.c] = IoIdle] /\ UNCHANGED <<w, live>>
     \/ Ev.e = "fin" /\ live[Ev.c] = "live" /\ P[Ev.c].ph = "idle" /\ live' = [live EXCEPT ![Ev.c] = "fin"] /\ UNCHANGED <<w, P>>
     \/ Ev.e = "quiet" /\ IoRest(P, w) /\ (\A c \in Cos : live[c] = "fin" \/ P[c].ph = "run") /\ UNCHANGED <<w, P, live>>
     \/ Ev.e = "end" /\ UNCHANGED <<w, P, live>>
  /\ Consume

NeedsMore ==
  CASE Ev.e = "ret"   -> P[Ev.c].ph # "done"
    [] Ev.e = "quiet" -> ~IoRest(P, w)
    [] OTHER          -> FALSE

\* An operation which has not moved anything may still be told an error later: a fault comes before any effect of a
\* single transfer, so operations which will be told one do not go on before
Doomed(c) == P[c].op \notin {"rdn", "wrn"} /\ \E j \in l .. Len(T.ev) : /\ T.ev[j].e = "fault" /\ T.ev[j].c = c
                                    /\ \A i \in l .. j - 1 : ~(T.ev[i].e = "ret" /\ T.ev[i].c = c)
Silent ==
  /\ NeedsMore
  /\ UNCHANGED <<ti, l, live>>
  /\ \E c \in Cos : ~Doomed(c) /\ \E y \in IoStep(P[c], w) : w' = y.w /\ P' = [P EXCEPT ![c] = y.p]

Next == l <= Len(T.ev) /\ (Event \/ Silent)
Spec == Init /\ [][Next]_vars

ASSUME \A i \in 1 .. N : TLCSet(i, 0)
Reach ==
  LET m == TLCGet(ti)
  IN IF m > Len(T.ev) THEN FALSE
     ELSE IF l > m THEN TLCSet(ti, l) ELSE TRUE
Accepted ==
  /\ \A i \in 1 .. N : \/ TLCGet(i) > Len(Traces[i].ev)
                       \/ PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", N>>)
=============================================================================
