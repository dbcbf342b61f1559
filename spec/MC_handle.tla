----------------------------- MODULE MC_handle -----------------------------
(* Client 0 creates the others and moves their handles about: a handle     *)
(* stays with its coroutine until it is given up.                          *)
EXTENDS CoSys

Objects == << >>
C0 == 0 .. NC - 1
Kids == C0 \ Started

\* sp: created; rel: the handle has been given up; fin: ended; n: how often a kid has done something
G0 == [sp |-> {}, rel |-> {}, fin |-> {}, n |-> [c \in C0 |-> 0]]

One(op, d) == <<op, <<d, 0, 0, 0>>>>
AMenu(c, ww, gg) ==
  IF c \in Started
  THEN {One("spawn", d) : d \in {d \in Kids : d \notin gg.sp /\ \A x \in Kids : x < d => x \in gg.sp}}
       \cup {<<"assignco", <<d, x, 0, 0>>>> : d \in gg.sp, x \in gg.sp}
       \cup UNION {{One("moveco", d), One("coname", d), One("coid", d)} : d \in gg.sp}
       \cup {One("cofin", d) : d \in gg.sp \ gg.rel}
       \cup {One("join", d) : d \in gg.sp \ gg.rel}
  ELSE IF gg.n[c] > 0 THEN {} ELSE {<<"selfname", <<0, 0, 0, 0>>>>, <<"selfid", <<0, 0, 0, 0>>>>}

ACall(gg, c, op, a) ==
  CASE op = "spawn" -> [gg EXCEPT !.sp = @ \cup {a[1]}]
    [] op = "fin"   -> [gg EXCEPT !.fin = @ \cup {c}]
    [] c \in Kids   -> [gg EXCEPT !.n[c] = @ + 1]
    [] OTHER -> gg
ARet(gg, c, op, a, r) == IF op \in {"join", "assignco"} THEN [gg EXCEPT !.rel = @ \cup {a[1]}] ELSE gg

Over(c, ops) == P[c].op \in ops /\ P[c].ph = "done"
\* Overwriting a handle waits for its coroutine and gives it up
Waited == \A c \in Clients : Over(c, {"assignco", "join"}) => P[c].a[1] \in g.fin /\ ~w.L[P[c].a[1]].held
\* Every other handle stays with its coroutine
Stays == \A d \in g.sp : w.L[d].st # "new" /\ ~w.L[d].held => d \in g.rel \/ \E c \in Clients : Over(c, {"assignco", "join"}) /\ P[c].a[1] = d
Names == \A c \in Clients : /\ Over(c, {"coname"}) => P[c].r = IF P[c].a[1] \in g.rel THEN -1 ELSE P[c].a[1]
                            /\ Over(c, {"coid"}) => P[c].r = IF P[c].a[1] \in g.rel THEN 2 ELSE 1
                            /\ Over(c, {"selfname"}) => P[c].r = c
                            /\ Over(c, {"cofin"}) /\ P[c].r = 1 => P[c].a[1] \in g.fin
NoLostWakeup == Rest => \A c \in Clients : Pending(c) => P[c].a[1] \notin g.fin

Inv == Waited /\ Stays /\ Names /\ NoLostWakeup
=============================================================================
