------------------------------ MODULE MC_lock ------------------------------
(* Exclusive locks: mutex, recursive mutex, and their timed forms.         *)
EXTENDS CoSys

CONSTANTS Kind, Timed, Nest

Objects == <<Obj(Kind, <<0>>)>>
Recursive == Kind \in {"rmutex", "rtmutex"}

\* ghost: how often each client holds the lock, as it was told
G0 == [h |-> [c \in 0 .. NC - 1 |-> 0], un |-> [c \in 0 .. NC - 1 |-> FALSE]]

A1 == <<0, 0, 0, 0>>
AT == <<0, 2000, 0, 0>>
AMenu(c, ww, gg) ==
  {<<"trylock", A1>>, <<"unlock", A1>>}
  \cup (IF gg.h[c] = 0 \/ (Recursive /\ gg.h[c] < Nest) THEN {<<"lock", A1>>} ELSE {})
  \cup (IF Timed THEN {<<"lockfor", AT>>} ELSE {})

\* a lock is given up when unlock is called by the holder
ACall(gg, c, op, a) ==
  IF op = "unlock" THEN [gg EXCEPT !.un[c] = gg.h[c] > 0, !.h[c] = IF @ > 0 THEN @ - 1 ELSE 0] ELSE gg
ARet(gg, c, op, a, r) ==
  IF op \in {"lock", "trylock", "lockfor"} /\ r = 1 THEN [gg EXCEPT !.h[c] = @ + 1]
  ELSE gg

Holds(c) == g.h[c] > 0
Wants(c) == P[c].op \in {"lock", "lockfor"} /\ P[c].ph = "run"

\* At most one client holds the lock
Mutex == \A c, d \in Clients : Holds(c) /\ Holds(d) => c = d
\* Only a recursive one is held more than once
Depth == ~Recursive => \A c \in Clients : g.h[c] <= 1
\* Nobody waits for a lock which nobody else holds
NoLostWakeup == Rest => \A c \in Clients : Pending(c) => \E d \in Clients : Holds(d) /\ (Recursive => d # c)
\* A try fails only if the lock is not free for the caller
\* (the one who holds it must have it at some moment during the call: checked on the step)
TryFails == [][\A c \in Clients : P[c].op \in {"trylock", "lockfor"} /\ P[c].ph = "run" /\ P'[c].ph = "done" /\ P'[c].r = 0
                => \E d \in Clients : (Recursive => d # c) /\ (Holds(d) \/ (P[d].ph = "done" /\ P[d].r = 1)
                                                               \/ (P[d].op = "unlock" /\ P[d].ph = "run"))]_vars
NotEarly == \A c \in Clients : P[c].op = "lockfor" /\ P[c].ph = "done" /\ P[c].r = 0 => tn >= P[c].t + 2000
\* Unlocking what one does not hold fails
UnlockOwner == \A c \in Clients : P[c].op = "unlock" /\ P[c].ph = "done" => (P[c].r = 1 <=> g.un[c])

Inv == Mutex /\ Depth /\ NoLostWakeup /\ NotEarly /\ UnlockOwner
=============================================================================
