----------------------------- MODULE MC_queue -----------------------------
(* How the locks of the library decide who is next: a client which cannot  *)
(* get the lock looks a few times again, then it joins a queue; who gives  *)
(* the lock back hands it to the front of the queue.  Writers and readers  *)
(* as in the shared mutex; without readers these are the other mutexes.    *)
(* Refines the atomic lock of CoModel: Taken and NoBarging are what        *)
(* CoTrace expects of recorded traces.                                     *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS W,      \* clients which write
          R,      \* clients which read
          Rounds  \* how often each of them locks

C == W \cup R
None == "none"

VARIABLES own,    \* who has the lock
          type,   \* "free", "w", "r"
          dq,     \* the queue
          asleep, \* clients which are not chosen by their scheduler
          pc, n,
          old     \* for each client in the queue: who was there before it

vars == <<own, type, dq, asleep, pc, n, old>>

Kind(c) == IF c \in W THEN "w" ELSE "r"
InQ(c) == \E i \in 1 .. Len(dq) : dq[i] = c
Queued == {c \in C : InQ(c)}

Init == /\ own = {} /\ type = "free" /\ dq = << >> /\ asleep = {}
        /\ pc = [c \in C |-> "idle"] /\ n = [c \in C |-> 0] /\ old = [c \in C |-> {}]

Free(c) == IF c \in W THEN own = {} ELSE type \in {"free", "r"}
Take(c) == own' = own \cup {c} /\ type' = Kind(c) /\ pc' = [pc EXCEPT ![c] = "in"] /\ UNCHANGED <<dq, asleep, n, old>>

Lock(c) ==
  /\ pc[c] = "idle" /\ n[c] < Rounds
  /\ IF Free(c) THEN Take(c) ELSE pc' = [pc EXCEPT ![c] = "look"] /\ UNCHANGED <<own, type, dq, asleep, n, old>>
Try(c) ==
  /\ pc[c] = "idle" /\ n[c] < Rounds
  /\ IF Free(c) THEN Take(c) ELSE n' = [n EXCEPT ![c] = @ + 1] /\ UNCHANGED <<own, type, dq, asleep, pc, old>>
Look(c) == pc[c] = "look" /\ Free(c) /\ Take(c)
Join(c) ==
  /\ pc[c] = "look" /\ ~Free(c)
  /\ dq' = Append(dq, c) /\ asleep' = asleep \cup {c} /\ pc' = [pc EXCEPT ![c] = "queue"]
  /\ old' = [old EXCEPT ![c] = Queued]
  /\ UNCHANGED <<own, type, n>>
Wake(c) ==
  /\ pc[c] = "queue" /\ c \notin asleep
  /\ IF c \in own THEN pc' = [pc EXCEPT ![c] = "in"] /\ UNCHANGED asleep
     ELSE asleep' = asleep \cup {c} /\ UNCHANGED pc
  /\ UNCHANGED <<own, type, dq, n, old>>
Unlock(c) ==
  /\ pc[c] = "in"
  /\ pc' = [pc EXCEPT ![c] = "idle"] /\ n' = [n EXCEPT ![c] = @ + 1]
  /\ LET rest == own \ {c}
     IN IF rest # {} THEN own' = rest /\ UNCHANGED <<type, dq, asleep, old>>
        ELSE IF dq = << >> THEN own' = {} /\ type' = "free" /\ UNCHANGED <<dq, asleep, old>>
        ELSE LET next == IF Head(dq) \in W THEN {Head(dq)} ELSE Queued \cap R
             IN /\ own' = next
                /\ type' = Kind(Head(dq))
                /\ dq' = SelectSeq(dq, LAMBDA d : d \notin next)
                /\ asleep' = asleep \ next
                /\ old' = [d \in C |-> IF d \in next THEN {} ELSE old[d] \ next]

Step(c) == Lock(c) \/ Look(c) \/ Join(c) \/ Wake(c) \/ Unlock(c)
Done == (\A c \in C : n[c] = Rounds) /\ UNCHANGED vars
Next == (\E c \in C : Step(c) \/ Try(c)) \/ Done
Spec == Init /\ [][Next]_vars /\ \A c \in C : WF_vars(Look(c)) /\ WF_vars(Join(c)) /\ WF_vars(Wake(c)) /\ WF_vars(Unlock(c))

(* ------------------------------------------------------------ properties *)

Exclusive == (own \cap W # {}) => Cardinality(own) = 1
TypeOk == /\ type = "free" <=> own = {}
          /\ type = "w" => own \subseteq W
          /\ type = "r" => own \subseteq R
\* Nobody waits for a free lock
NoBarging == Queued # {} => own # {}
\* Who has the lock and is in the queue of nobody is awake
NoneAsleep == \A c \in own : c \notin asleep /\ pc[c] \in {"in", "queue"}
\* A writer gets the lock only when nobody is left who was queued before it
Ordered == [][\A c \in W : c \in own' \ own => ~\E d \in C \ {c} : InQ(d) /\ d \in old[c]]_vars
\* ... and who has not queued does not get it for writing while somebody is queued
NotBefore == [][\A c \in W : c \in own' \ own /\ ~InQ(c) => Queued = {}]_vars
\* Without readers which come in between, everybody who has joined the queue gets the lock
Served == \A c \in C : pc[c] = "queue" ~> pc[c] = "in"

Inv == Exclusive /\ TypeOk /\ NoBarging /\ NoneAsleep
=============================================================================
