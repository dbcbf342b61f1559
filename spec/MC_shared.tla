----------------------------- MODULE MC_shared -----------------------------
(* Shared mutex: many readers or one writer.                               *)
EXTENDS CoSys

CONSTANTS Kind, Timed

Objects == <<Obj(Kind, <<0>>)>>

G0 == [wr |-> [c \in 0 .. NC - 1 |-> FALSE], rd |-> [c \in 0 .. NC - 1 |-> FALSE], ok |-> [c \in 0 .. NC - 1 |-> FALSE]]

A1 == <<0, 0, 0, 0>>
AT == <<0, 2000, 0, 0>>
Free(c, gg) == ~gg.wr[c] /\ ~gg.rd[c]
AMenu(c, ww, gg) ==
  {<<"unlock", A1>>, <<"runlock", A1>>}
  \cup (IF Free(c, gg) THEN {<<"lock", A1>>, <<"rlock", A1>>, <<"trylock", A1>>, <<"tryrlock", A1>>} ELSE {})
  \cup (IF Timed /\ Free(c, gg) THEN {<<"lockfor", AT>>, <<"rlockfor", AT>>} ELSE {})

ACall(gg, c, op, a) ==
  CASE op = "unlock"  -> [gg EXCEPT !.ok[c] = gg.wr[c], !.wr[c] = FALSE]
    [] op = "runlock" -> [gg EXCEPT !.ok[c] = gg.rd[c], !.rd[c] = FALSE]
    [] OTHER          -> gg
ARet(gg, c, op, a, r) ==
  CASE op \in {"lock", "trylock", "lockfor"} /\ r = 1    -> [gg EXCEPT !.wr[c] = TRUE]
    [] op \in {"rlock", "tryrlock", "rlockfor"} /\ r = 1 -> [gg EXCEPT !.rd[c] = TRUE]
    [] OTHER -> gg

\* A writer is alone
Exclusion == \A c, d \in Clients : c # d /\ g.wr[c] => ~g.wr[d] /\ ~g.rd[d]
\* Unlocking succeeds exactly for those who hold it that way
UnlockOwner == \A c \in Clients : P[c].op \in {"unlock", "runlock"} /\ P[c].ph = "done" => (P[c].r = 1 <=> g.ok[c])
\* Nobody waits when there is nobody to wait for
NoLostWakeup ==
  Rest => \A c \in Clients : Pending(c) => IF P[c].op \in {"rlock", "rlockfor"} THEN \E d \in Clients : g.wr[d]
                                           ELSE \E d \in Clients : g.wr[d] \/ g.rd[d]
\* Readers do not keep readers out
ReadersShare == [][\A c \in Clients : P[c].op \in {"tryrlock", "rlockfor"} /\ P[c].ph = "run" /\ P'[c].ph = "done" /\ P'[c].r = 0
                    => \E d \in Clients : \/ g.wr[d] \/ (P[d].op \in {"lock", "trylock", "lockfor"} /\ P[d].ph = "done" /\ P[d].r = 1)
                                          \/ (P[d].op = "unlock" /\ P[d].ph = "run" /\ g.ok[d])]_vars
NotEarly == \A c \in Clients : P[c].op \in {"lockfor", "rlockfor"} /\ P[c].ph = "done" /\ P[c].r = 0 => tn >= P[c].t + 2000

Inv == Exclusion /\ UnlockOwner /\ NoLostWakeup /\ NotEarly
=============================================================================
