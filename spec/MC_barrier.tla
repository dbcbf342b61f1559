---------------------------- MODULE MC_barrier -----------------------------
(* Barriers.  WellFormed: as many clients as participants, each of them    *)
(* arrives and waits; otherwise everybody does everything.                 *)
EXTENDS CoSys

CONSTANTS First, WellFormed

Objects == <<Obj("barrier", <<First>>)>>

\* a: how often each client has arrived; dropped: who has left; tok: whose token is good
G0 == [a |-> [c \in 0 .. NC - 1 |-> 0], dropped |-> {}, tok |-> {}]

AMenu(c, ww, gg) ==
  IF WellFormed
  THEN IF c \in gg.dropped THEN {}
       ELSE IF c \in gg.tok THEN {<<"bwait", <<0, 0, 0, 0>>>>}
       ELSE {<<"barw", <<0, 0, 0, 0>>>>, <<"arrive", <<0, 1, 0, 0>>>>, <<"bdrop", <<0, 0, 0, 0>>>>}
  ELSE {<<"barw", <<0, 0, 0, 0>>>>, <<"arrive", <<0, 1, 0, 0>>>>, <<"arrive", <<0, 2, 0, 0>>>>, <<"bdrop", <<0, 0, 0, 0>>>>,
        <<"bwait", <<0, 0, 0, 0>>>>}

ACall(gg, c, op, a) ==
  CASE op \in {"barw", "arrive"} -> [gg EXCEPT !.a[c] = @ + 1]
    [] op = "bdrop" -> [gg EXCEPT !.a[c] = @ + 1, !.dropped = @ \cup {c}]
    [] OTHER -> gg
ARet(gg, c, op, a, r) ==
  CASE op = "arrive" -> [gg EXCEPT !.tok = @ \cup {c}]
    [] op = "bwait"  -> [gg EXCEPT !.tok = @ \ {c}]
    [] OTHER -> gg

Waits(c) == P[c].op \in {"barw", "bwait"}
\* c goes on after its k-th arrival only when all who still take part have arrived k times
Together ==
  WellFormed => \A c \in Clients : Waits(c) /\ P[c].ph = "done" => \A d \in Clients : g.a[d] >= g.a[c] \/ d \in g.dropped
\* ... and then it does go on
NoLostWakeup ==
  (WellFormed /\ Rest) => \A c \in Clients : Pending(c) => \E d \in Clients : g.a[d] < g.a[c] /\ d \notin g.dropped
\* Arrivals never fail when everybody keeps to the rules
NoRefusal == WellFormed => \A c \in Clients : P[c].ph = "done" => P[c].r = 1

Inv == Together /\ NoLostWakeup /\ NoRefusal
=============================================================================
