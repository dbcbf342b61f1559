------------------------------ MODULE MC_once ------------------------------
(* call_once.                                                              *)
EXTENDS CoSys

Objects == <<Obj("once", <<0>>)>>

\* running: whose function runs; ok: how often it has returned; thrown: who got an exception
G0 == [running |-> {}, ok |-> 0]

\* the function of call a[2] # 0 throws
AMenu(c, ww, gg) == {<<"once", <<0, 0, 1, 0>>>>, <<"once", <<0, 1 + c, 1, 0>>>>}
ACall(gg, c, op, a) == gg
ARet(gg, c, op, a, r) ==
  CASE op = "body"    -> [gg EXCEPT !.running = @ \cup {c}]
    [] op = "bodyend" -> [gg EXCEPT !.running = @ \ {c}, !.ok = IF a[2] = 0 THEN @ + 1 ELSE @]
    [] OTHER -> gg

OneAtATime == Cardinality(g.running) <= 1
OnlyOnce == g.ok <= 1 /\ (g.ok = 1 => g.running = {})
\* Whoever returns normally can rely on the effects
Done == \A c \in Clients : P[c].op = "once" /\ P[c].ph = "done" /\ P[c].r = 1 => g.ok = 1 /\ g.running = {}
\* An exception goes to the one whose function has thrown it
Thrown == \A c \in Clients : P[c].op = "once" /\ P[c].ph = "done" /\ P[c].r # 1 => P[c].r = -1000 - P[c].a[2] /\ P[c].a[2] # 0
NoWait == Rest => \A c \in Clients : ~Pending(c)

Inv == OneAtATime /\ OnlyOnce /\ Done /\ Thrown /\ NoWait
=============================================================================
