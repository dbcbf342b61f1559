------------------------------ MODULE MC_sem -------------------------------
(* Semaphores.                                                             *)
EXTENDS CoSys

CONSTANTS Kind, Max, First, Timed

Objects == <<Obj(Kind, <<First>>)>>

\* units which have been taken / given, counted at calls (c) and returns (r)
G0 == [ar |-> 0, ac |-> 0, rr |-> 0, rc |-> 0]

AMenu(c, ww, gg) ==
  {<<"acq", <<0, 0, 0, 0>>>>, <<"tryacq", <<0, 0, 0, 0>>>>, <<"rel", <<0, 1, 0, 0>>>>}
  \cup (IF Max > 1 THEN {<<"rel", <<0, 2, 0, 0>>>>} ELSE {})
  \cup (IF Timed THEN {<<"acqfor", <<0, 2000, 0, 0>>>>} ELSE {})

Acq == {"acq", "tryacq", "acqfor"}
ACall(gg, c, op, a) == IF op = "rel" THEN [gg EXCEPT !.rc = @ + a[2]] ELSE [gg EXCEPT !.ac = @ + 1]
ARet(gg, c, op, a, r) ==
  CASE op = "rel" -> [gg EXCEPT !.rr = @ + a[2]]
    [] op \in Acq -> IF r = 1 THEN [gg EXCEPT !.ar = @ + 1] ELSE [gg EXCEPT !.ac = @ - 1]
    [] OTHER -> gg

\* Nobody gets a unit which has not been given
Conservation == g.ar <= First + g.rc
\* Never more units than the maximum
Limit == First + g.rr - g.ac <= Max
\* Nobody waits while there are units, or room for them
NoLostWakeup ==
  Rest => \A c \in Clients : Pending(c) => IF P[c].op = "rel" THEN First + g.rc - g.ar > Max
                                           ELSE First + g.rr - g.ar <= 0
NotEarly == \A c \in Clients : P[c].op = "acqfor" /\ P[c].ph = "done" /\ P[c].r = 0 => tn >= P[c].t + 2000

Inv == Conservation /\ Limit /\ NoLostWakeup /\ NotEarly
=============================================================================
