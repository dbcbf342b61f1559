------------------------------- MODULE MC_cv -------------------------------
(* Condition variables.  Objects: 0 the mutex, 1 the condition variable,   *)
(* 2 the variable of the predicate.                                        *)
EXTENDS CoSys

CONSTANTS Timed, Preds

Objects == <<Obj("mutex", <<0>>), Obj("cv", <<0>>), Obj("var", <<0>>)>>

C0 == 0 .. NC - 1
\* h: who holds the mutex; pw: who is in a wait, and how many notifications had returned before;
\* d: those among them which certainly wait, because someone else got the mutex since; need: sets of which
\* at least one has to come back (cur: for the notifications in progress); owed: those who all have to come back
G0 == [h |-> {}, pw |-> [c \in C0 |-> None], n |-> 0, nr |-> 0, d |-> {}, need |-> {}, cur |-> [c \in C0 |-> {}], owed |-> {}]

AW == <<1, 0, 0, 0>>
AMenu(c, ww, gg) ==
  {<<"notify", AW>>, <<"notifyall", AW>>}
  \cup (IF c \notin gg.h THEN {<<"lock", <<0, 0, 0, 0>>>>}
        ELSE {<<"unlock", <<0, 0, 0, 0>>>>, <<"wait", AW>>}
             \cup (IF Preds THEN {<<"waitp", <<1, 0, 2, 0>>>>, <<"set", <<2, 1, 0, 0>>>>, <<"set", <<2, 0, 0, 0>>>>} ELSE {})
             \cup (IF Timed THEN {<<"waitfor", <<1, 0, 2000, 0>>>>} ELSE {})
             \cup (IF Timed /\ Preds THEN {<<"waitforp", <<1, 0, 2000, 2>>>>} ELSE {}))

Waits == {"wait", "waitp", "waitfor", "waitforp"}
Plain1 == {"wait"}  \* those which end with the first notification

ACall(gg, c, op, a) ==
  CASE op = "unlock" -> [gg EXCEPT !.h = @ \ {c}]
    [] op \in Waits  -> [gg EXCEPT !.h = @ \ {c}, !.pw[c] = gg.nr,
                                 !.cur = [d \in C0 |-> IF gg.cur[d] = {} THEN {} ELSE gg.cur[d] \cup {c}]]
    [] op = "notify" -> [gg EXCEPT !.n = @ + 1, !.cur[c] = IF gg.d = {} THEN {} ELSE {x \in C0 : gg.pw[x] # None}]
    [] op = "notifyall" -> [gg EXCEPT !.n = @ + 1, !.owed = @ \cup gg.d]
    [] OTHER -> gg
Back(gg, c) == [gg EXCEPT !.h = @ \cup {c}, !.pw[c] = None, !.d = (@ \cup {x \in C0 : gg.pw[x] # None}) \ {c},
                          !.need = {x \in @ : c \notin x},
                          !.cur = [x \in C0 |-> IF c \in gg.cur[x] THEN {} ELSE gg.cur[x]], !.owed = @ \ {c}]
ARet(gg, c, op, a, r) ==
  CASE op = "lock"   -> [gg EXCEPT !.h = @ \cup {c}, !.d = @ \cup {x \in C0 : gg.pw[x] # None}]
    [] op \in Waits  -> Back(gg, c)
    [] op \in {"notify", "notifyall"} -> [gg EXCEPT !.nr = @ + 1, !.cur[c] = {}, !.need = IF gg.cur[c] = {} THEN @ ELSE @ \cup {gg.cur[c]}]
    [] OTHER -> gg

Mutex == Cardinality(g.h) <= 1
\* The wait returns with the mutex held
Relocked == \A c \in Clients : P[c].op \in Waits /\ P[c].ph = "done" => w.O[0].own = c /\ g.h = {}
\* A wait without predicate ends only after a notification, or at its deadline
NoSpurious == \A c \in Clients : P[c].op = "wait" /\ P[c].ph = "done" => g.n > g.pw[c]
TimedResult ==
  \A c \in Clients : P[c].op = "waitfor" /\ P[c].ph = "done" =>
    IF P[c].r = 1 THEN g.n > g.pw[c] ELSE tn >= P[c].t + 2000
\* With predicate it ends when that is true
Predicate ==
  \A c \in Clients : /\ P[c].op = "waitp" /\ P[c].ph = "done" => w.O[2].v > 0
                     /\ P[c].op = "waitforp" /\ P[c].ph = "done" => IF P[c].r = 1 THEN w.O[2].v > 0
                                                                    ELSE w.O[2].v <= 0 /\ tn >= P[c].t + 2000
\* No notification is lost: when nothing goes on and the mutex is free, those who were certainly waiting are back
NoLost ==
  (Rest /\ g.h = {}) =>
    /\ \A c \in g.owed : P[c].op \in {"wait", "waitfor"} => ~Pending(c)
    /\ \A x \in g.need : \E c \in x : ~(Pending(c) /\ P[c].op \in {"wait", "waitfor"})
NoLostPred == (Rest /\ g.h = {} /\ w.O[2].v > 0) => \A c \in g.owed : ~(Pending(c) /\ P[c].op \in {"waitp", "waitforp"})
\* Only the holder of the mutex keeps others from getting it
NoBlock == Rest => \A c \in Clients : Pending(c) /\ P[c].op = "lock" => g.h # {}

Inv == Mutex /\ Relocked /\ NoSpurious /\ TimedResult /\ Predicate /\ NoLost /\ NoLostPred /\ NoBlock
=============================================================================
