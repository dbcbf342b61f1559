------------------------------ MODULE MC_life ------------------------------
(* Coroutines: client 0 (and 1 if NC > 3) spawn the others and wait for    *)
(* them; these return a value or end with an exception.                    *)
EXTENDS CoSys

CONSTANTS Timed, Masters

Objects == << >>
C0 == 0 .. NC - 1
Kids == C0 \ Started

\* sp: spawned; end: how a coroutine has ended (its value, -1000 - exception); rel: handle given up by join or detach
\* got: the exception has been delivered; busy: who is waiting for it at the moment
G0 == [sp |-> {}, end |-> [c \in C0 |-> 0], said |-> [c \in C0 |-> 0], rel |-> {}, fin |-> {}, w |-> [c \in C0 |-> None], exc |-> {}]

AMenu(c, ww, gg) ==
  IF c \in Started
  THEN {<<"spawn", <<d, 0, 0, 0>>>> : d \in {d \in Kids : d \notin gg.sp /\ (d % Masters) = (c % Masters)}}
       \cup UNION {{<<"join", <<d, 0, 0, 0>>>>, <<"cowaitv", <<d, 0, 0, 0>>>>, <<"cowait", <<d, 0, 0, 0>>>>}
                   \cup (IF Timed THEN {<<"cowaitfor", <<d, 2000, 0, 0>>>>} ELSE {<<"detach", <<d, 0, 0, 0>>>>})
                    : d \in {d \in gg.sp \ gg.rel : (d % Masters) = (c % Masters)}}
  ELSE IF gg.said[c] # 0 THEN {}
  ELSE {<<"retv", <<100 + c, 0, 0, 0>>>>, <<"throw", <<c, 0, 0, 0>>>>, <<"yield", <<0, 0, 0, 0>>>>}

ACall(gg, c, op, a) ==
  CASE op = "spawn" -> [gg EXCEPT !.sp = @ \cup {a[1]}]
    [] op = "retv"  -> [gg EXCEPT !.said[c] = a[1]]
    [] op = "throw" -> [gg EXCEPT !.said[c] = -1000 - a[1], !.exc = @ \cup {c}]
    [] op = "fin"   -> [gg EXCEPT !.fin = @ \cup {c}]
    [] op \in {"join", "detach"} -> [gg EXCEPT !.rel = @ \cup {a[1]}]
    [] OTHER -> gg
ARet(gg, c, op, a, r) ==
  IF op \in {"join", "cowaitv", "cowait", "cowaitfor"} /\ r <= -1000 THEN [gg EXCEPT !.exc = @ \ {a[1]}] ELSE gg

Waits == {"join", "cowaitv", "cowait", "cowaitfor"}
Over(c) == P[c].op \in Waits /\ P[c].ph = "done" /\ ~(P[c].op = "cowaitfor" /\ P[c].r = 0 /\ P[c].a[1] \notin g.fin)
\* A wait ends when the coroutine has ended
Ended == \A c \in Clients : Over(c) => P[c].a[1] \in g.fin
\* ... with its value, or with its exception
Result == \A c \in Clients : P[c].op \in Waits /\ P[c].ph = "done" =>
            LET d == P[c].a[1]
            IN \/ P[c].r = -1000 - d /\ g.said[d] = -1000 - d
               \/ P[c].op = "cowait" /\ P[c].r = g.said[d] /\ g.said[d] > 0
               \/ P[c].op = "cowait" /\ P[c].r = 0 /\ g.said[d] = 0
               \/ P[c].op = "cowait" /\ P[c].r = -2 /\ d \notin g.exc
               \/ P[c].op \in {"join", "cowaitv"} /\ P[c].r = 1 /\ (g.said[d] >= 0 \/ d \notin g.exc)
               \/ P[c].op = "cowaitfor" /\ P[c].r = 0 /\ (tn >= P[c].t + 2000 \/ g.said[d] = 0)
               \/ P[c].op = "cowaitfor" /\ P[c].r = g.said[d]
               \/ P[c].op = "cowaitfor" /\ P[c].r = -2 /\ d \notin g.exc
\* Nobody waits for one who has ended
NoLostWakeup == Rest => \A c \in Clients : Pending(c) => P[c].a[1] \notin g.fin
\* Everybody who has been spawned runs
Runs == Rest => \A c \in g.sp : w.L[c].st # "spawned"

Inv == Ended /\ Result /\ NoLostWakeup /\ Runs
=============================================================================
