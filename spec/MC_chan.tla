------------------------------ MODULE MC_chan ------------------------------
(* Channels: without buffer (Cap = 0), with a bounded one, unbounded (-1). *)
(* Client c pushes the values 10 * c + 1, 10 * c + 2 ... in this order.    *)
EXTENDS CoSys

CONSTANTS CapN, Close, Neg
Cap == IF Neg THEN -1 ELSE CapN

Objects == <<Obj("chan", <<Cap>>)>>

C0 == 0 .. NC - 1
\* n: pushes called by each client; called/acc: values offered / accepted (the push has returned 1);
\* out: values which have been popped; last: what each consumer has got last from each producer
\* close: has been called (1), has returned (2); pr: refused before close; popc: pops called or pending
G0 == [n |-> [c \in C0 |-> 0], called |-> {}, acc |-> {}, out |-> {}, last |-> [c \in C0 |-> [d \in C0 |-> 0]],
       close |-> 0, late |-> {}, bad |-> FALSE]

AMenu(c, ww, gg) ==
  {<<"push", <<0, 10 * c + gg.n[c] + 1, 0, 0>>>>, <<"pop", <<0, 0, 0, 0>>>>}
  \cup (IF Close THEN {<<"close", <<0, 0, 0, 0>>>>} ELSE {})

ACall(gg, c, op, a) ==
  CASE op = "push"  -> [gg EXCEPT !.n[c] = @ + 1, !.called = @ \cup {a[2]}, !.late = IF gg.close = 2 THEN @ \cup {c} ELSE @ \ {c}]
    [] op = "close" -> [gg EXCEPT !.close = IF @ = 0 THEN 1 ELSE @]
    [] OTHER -> gg
ARet(gg, c, op, a, r) ==
  CASE op = "push" /\ r = 1 -> [gg EXCEPT !.acc = @ \cup {a[2]}]
    [] op = "pop" /\ r > 0  -> [gg EXCEPT !.out = @ \cup {r}, !.last[c][r \div 10] = r, !.bad = @ \/ r \in gg.out]
    [] op = "close" -> [gg EXCEPT !.close = 2]
    [] OTHER -> gg

Popped(c) == P[c].op = "pop" /\ P[c].ph = "done" /\ P[c].r > 0
\* Only what was pushed comes out, and only once
Once == ~g.bad /\ g.out \subseteq g.called /\ \A c \in Clients : Popped(c) => P[c].r \in g.called /\ P[c].r \notin g.out
\* One consumer gets the values of one producer in order
InOrder == \A c \in Clients : Popped(c) => g.last[c][P[c].r \div 10] < P[c].r
\* Not more is accepted than there is room for
GoneOut == Cardinality(g.out) + Cardinality({c \in Clients : Popped(c)})
Capacity == Cap > 0 => Cardinality(g.acc) - GoneOut <= Cap
\* Without buffer a push returns when its value has been taken, or when the channel was closed meanwhile
Rendezvous == (Cap = 0 /\ g.close = 0) => \A v \in g.acc : v \in g.out \/ \E c \in Clients : Popped(c) /\ P[c].r = v
\* After close nothing is accepted any more
Closed == \A c \in Clients : P[c].op = "push" /\ P[c].ph = "done" /\ c \in g.late => P[c].r = 0
\* Nothing is refused, no pop comes back empty, before close
Open == g.close = 0 => \A c \in Clients : P[c].op \in {"push", "pop"} /\ P[c].ph = "done" => P[c].r # 0
\* What has been accepted comes out before a pop comes back empty
Drain == \A c \in Clients : P[c].op = "pop" /\ P[c].ph = "done" /\ P[c].r = 0 => w.O[0].closed
\* Nobody waits without reason
NoLostWakeup ==
  Rest => \A c \in Clients : Pending(c) =>
    /\ g.close = 0
    /\ P[c].op = "pop"  => g.acc \subseteq g.out
    /\ P[c].op = "push" => IF Cap > 0 THEN Cardinality(g.acc) - Cardinality(g.out) >= Cap
                           ELSE Cap = 0 /\ \A d \in Clients : ~(Pending(d) /\ P[d].op = "pop")

Inv == Once /\ InOrder /\ Capacity /\ Rendezvous /\ Closed /\ Open /\ Drain /\ NoLostWakeup
=============================================================================
