------------------------------ MODULE MC_pool ------------------------------
(* How the pool chooses the env for a coroutine which has none of its own:  *)
(* an idle one, a new one as long as there are fewer than Base, otherwise   *)
(* the one with the fewest coroutines.  Superfluous idle ones are           *)
(* destroyed.  A coroutine may keep its thread for ever.  The envs are      *)
(* steps of their own: an env which has got a coroutine becomes busy, but   *)
(* its thread may not have noticed yet and may still call itself idle.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Base, Max, NCo
Cos == 1 .. NCo
Envs == 1 .. NCo + 1

VARIABLES st,     \* env -> none, idle, busy, stop, gone
          boot,   \* env -> its thread has not started yet; it then calls itself idle
          list,   \* env -> the coroutines it has got
          run,    \* env -> the coroutine which runs, or 0
          co,     \* coroutine -> new, ready, runs, kept (it never leaves its thread), over
          sure    \* the coroutines for which a thread has to be found: created one after the other has begun, and no more than Base
vars == <<st, boot, list, run, co, sure>>

Alive == {e \in Envs : st[e] \in {"idle", "busy"}}
Idle == {e \in Alive : st[e] = "idle"}
Free == {e \in Envs : st[e] = "none"}
Fewest == {e \in Alive : \A f \in Alive : Cardinality(list[e]) <= Cardinality(list[f])}
Choice == IF Idle # {} THEN Idle
          ELSE IF Cardinality(Alive) < Base THEN {CHOOSE e \in Free : \A f \in Free : e <= f}
          ELSE Fewest

Init == /\ st = [e \in Envs |-> "none"] /\ boot = [e \in Envs |-> TRUE] /\ list = [e \in Envs |-> {}] /\ run = [e \in Envs |-> 0]
        /\ co = [c \in Cos |-> "new"] /\ sure = {}

Created == {c \in Cos : co[c] # "new"}
Create(c) ==
  /\ co[c] = "new" /\ \A d \in Cos : d < c => co[d] # "new"
  /\ \E e \in Choice : /\ st' = [st EXCEPT ![e] = "busy"] /\ list' = [list EXCEPT ![e] = @ \cup {c}]
  /\ co' = [co EXCEPT ![c] = "ready"]
  /\ sure' = IF \E d \in Created : co[d] = "ready" THEN {} ELSE IF Cardinality(Created) < Base THEN sure \cup {c} ELSE sure
  /\ UNCHANGED <<boot, run>>
Start(e) == st[e] \in {"idle", "busy"} /\ boot[e] /\ boot' = [boot EXCEPT ![e] = FALSE] /\ st' = [st EXCEPT ![e] = "idle"] /\ UNCHANGED <<list, run, co, sure>>
Switch(e, c) ==
  /\ ~boot[e] /\ st[e] # "stop" /\ run[e] = 0 /\ c \in list[e] /\ co[c] = "ready"
  /\ run' = [run EXCEPT ![e] = c] /\ st' = [st EXCEPT ![e] = "busy"] /\ co' = [co EXCEPT ![c] = "runs"]
  /\ UNCHANGED <<boot, list, sure>>
Keep(c) == co[c] = "runs" /\ co' = [co EXCEPT ![c] = "kept"] /\ UNCHANGED <<st, boot, list, run, sure>>
End(e) == /\ run[e] # 0 /\ co[run[e]] = "runs"
          /\ co' = [co EXCEPT ![run[e]] = "over"] /\ run' = [run EXCEPT ![e] = 0] /\ UNCHANGED <<st, boot, list, sure>>
Clear(e) == run[e] = 0 /\ (\E c \in list[e] : co[c] = "over") /\ list' = [list EXCEPT ![e] = {c \in @ : co[c] # "over"}] /\ UNCHANGED <<st, boot, run, co, sure>>
GoIdle(e) == /\ st[e] = "busy" /\ ~boot[e] /\ run[e] = 0 /\ \A c \in list[e] : co[c] # "ready"
             /\ st' = [st EXCEPT ![e] = "idle"] /\ UNCHANGED <<boot, list, run, co, sure>>
Destroy(e) == /\ e \in Idle /\ list[e] = {} /\ Cardinality(Alive) > Max
              /\ st' = [st EXCEPT ![e] = "stop"] /\ UNCHANGED <<boot, list, run, co, sure>>
Gone(e) == st[e] = "stop" /\ run[e] = 0 /\ st' = [st EXCEPT ![e] = "gone"] /\ UNCHANGED <<boot, list, run, co, sure>>

Go(e) == Start(e) \/ End(e) \/ Clear(e) \/ GoIdle(e) \/ Gone(e) \/ \E c \in Cos : Switch(e, c)
Next == (\E c \in Cos : Create(c) \/ Keep(c)) \/ \E e \in Envs : Go(e) \/ Destroy(e)
Spec == Init /\ [][Next]_vars /\ \A e \in Envs : WF_vars(Start(e)) /\ WF_vars(End(e)) /\ \A c \in Cos : WF_vars(Switch(e, c))

\* Never more threads than Base
Bound == Cardinality(Alive) <= Base
\* Nobody is in an env which is being destroyed
NotLost == \A e \in Envs : st[e] \in {"stop", "gone"} => list[e] = {} /\ run[e] = 0
One == \A c \in Cos : co[c] \in {"ready", "runs", "kept"} => Cardinality({e \in Envs : c \in list[e]}) = 1
\* Who has to find a thread is not behind somebody who keeps it
NotBehind == \A c \in sure : \A e \in Envs : c \in list[e] /\ co[c] = "ready" => run[e] = 0
Inv == Bound /\ NotLost /\ One /\ NotBehind
\* They all begin, whatever the others do
Begins == \A c \in Cos : (c \in sure /\ co[c] = "ready") ~> (co[c] # "ready" \/ c \notin sure)
\* If nobody keeps its thread, everybody does
AllBegin == \A c \in Cos : [](\A d \in Cos : co[d] # "kept") => ((co[c] = "ready") ~> (co[c] # "ready"))
=============================================================================
