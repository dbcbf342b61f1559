------------------------------ MODULE CoSched ------------------------------
(* Which of the coroutines of one env may run next.                        *)
(*                                                                         *)
(* A smaller number is a higher priority.  Among those with the same       *)
(* priority it goes round: whoever has been ready ever since c was chosen  *)
(* is chosen before c is chosen again.                                     *)
EXTENDS Integers, FiniteSets

\* seen[c]: who has run since c was chosen the last time
\* el[c]:   who was ready with the same priority when c was chosen, and is ever since
SchedInit(cos) == [seen |-> [c \in cos |-> {}], el |-> [c \in cos |-> {}]]

\* rdy: those of the same env which are ready, prio: a function
MayRun(c, rdy, prio, s) ==
  /\ \A d \in rdy \ {c} : prio[d] >= prio[c]
  /\ s.el[c] \subseteq s.seen[c]
HasRun(c, rdy, prio, s) ==
  [seen |-> [d \in DOMAIN s.seen |-> IF d = c THEN {} ELSE s.seen[d] \cup {c}],
   el   |-> [s.el EXCEPT ![c] = {d \in rdy \ {c} : prio[d] = prio[c]}]]
\* d has another priority, or is no longer ready
Leaves(d, s) == [s EXCEPT !.el = [c \in DOMAIN s.el |-> IF c = d THEN {} ELSE s.el[c] \ {d}]]
=============================================================================
