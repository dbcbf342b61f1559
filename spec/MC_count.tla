----------------------------- MODULE MC_count ------------------------------
(* Latches and wait groups.                                                *)
EXTENDS CoSys

CONSTANTS Kind, First

Objects == <<Obj(Kind, <<First>>)>>
Latch == Kind = "latch"

\* what has been counted down: called (c), returned (r); n: who has been refused
G0 == [c |-> 0, r |-> 0]

AMenu(c, ww, gg) ==
  IF Latch
  THEN {<<"cd", <<0, 1, 0, 0>>>>, <<"cd", <<0, 2, 0, 0>>>>, <<"lwait", <<0, 0, 0, 0>>>>, <<"ltry", <<0, 0, 0, 0>>>>,
        <<"law", <<0, 1, 0, 0>>>>}
  ELSE {<<"wgwait", <<0, 0, 0, 0>>>>} \cup (IF gg.c < First THEN {<<"done", <<0, 0, 0, 0>>>>} ELSE {})

Units(op, a) == IF op \in {"cd", "law"} THEN a[2] ELSE IF op = "done" THEN 1 ELSE 0
ACall(gg, c, op, a) == [gg EXCEPT !.c = @ + Units(op, a)]
ARet(gg, c, op, a, r) == IF r = -1 THEN [gg EXCEPT !.c = @ - Units(op, a)] ELSE [gg EXCEPT !.r = @ + Units(op, a)]

Wait(c) == P[c].op \in {"lwait", "wgwait", "law"} \/ (P[c].op = "ltry" /\ P[c].r = 1)
\* Nobody passes before all has been counted down
Complete == \A c \in Clients : Wait(c) /\ P[c].ph = "done" /\ P[c].r = 1 => g.c >= First
\* It is never counted below zero
NotBelow == g.r <= First
\* Everybody passes when it has been counted down
NoLostWakeup == Rest => \A c \in Clients : Pending(c) => g.c < First
\* Once open it stays open
Open == g.r = First => \A c \in Clients : P[c].op = "ltry" /\ P[c].ph = "run" => w.O[0].n = 0

Inv == Complete /\ NotBelow /\ NoLostWakeup /\ Open
=============================================================================
