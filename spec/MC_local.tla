----------------------------- MODULE MC_local ------------------------------
(* Coroutine local variables, and priorities.                              *)
EXTENDS CoSys

Objects == << >>
C0 == 0 .. NC - 1
\* what every coroutine has stored; the priorities which have been asked for
G0 == [v |-> [c \in C0 |-> <<0, 0, 0>>], old |-> [c \in C0 |-> 0], p |-> [c \in C0 |-> {99}]]
AMenu(c, ww, gg) ==
  {<<"local", <<i, 10 * (c + 1) + i, 0, 0>>>> : i \in 0 .. 1} \cup {<<"getselfprio", <<0, 0, 0, 0>>>>}
  \cup {<<"setselfprio", <<x, 0, 0, 0>>>> : x \in {-1, 7, 200}}
Lim(x) == IF x < 0 THEN 0 ELSE IF x > 99 THEN 99 ELSE x
ACall(gg, c, op, a) ==
  CASE op = "local" -> [gg EXCEPT !.old[c] = gg.v[c][a[1] + 1], !.v[c][a[1] + 1] = a[2]]
    [] op = "setselfprio" -> [gg EXCEPT !.p[c] = {Lim(a[1])}]
    [] OTHER -> gg
ARet(gg, c, op, a, r) == gg

Private == \A c \in Clients : P[c].op = "local" /\ P[c].ph = "done" => P[c].r = g.old[c]
Prio == \A c \in Clients : P[c].op = "getselfprio" /\ P[c].ph = "done" => P[c].r \in g.p[c]
NoWait == Rest => \A c \in Clients : ~Pending(c)
Inv == Private /\ Prio /\ NoWait
=============================================================================
