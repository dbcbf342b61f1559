------------------------------- MODULE MC_env ------------------------------
(* Where coroutines live: every env has one thread, on which its coroutines *)
(* run one at a time.  A coroutine is created for a certain env, or for any *)
(* which is not exclusive at that time.  When it has ended and its handle   *)
(* has been given up, it is destroyed, at the latest when its env has run   *)
(* another coroutine which was created later.                               *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS NE, NCo
Envs == 1 .. NE
Cos == 1 .. NCo

VARIABLES env,   \* co -> 0 (not created) or its env
          bound, \* created for a certain env
          st,    \* new, ready, over, gone
          held,  \* the handle exists
          ex,    \* exclusive envs
          run,   \* env -> the coroutine which runs, or 0
          exat   \* co -> the envs which were exclusive when it was created
vars == <<env, bound, st, held, ex, run, exat>>

Init ==
  /\ env = [c \in Cos |-> 0] /\ bound = [c \in Cos |-> FALSE] /\ st = [c \in Cos |-> "new"]
  /\ held = [c \in Cos |-> FALSE] /\ ex = {} /\ run = [e \in Envs |-> 0] /\ exat = [c \in Cos |-> {}]

Create(c, e, b) ==
  /\ st[c] = "new"
  /\ b \/ e \notin ex
  /\ env' = [env EXCEPT ![c] = e] /\ bound' = [bound EXCEPT ![c] = b] /\ st' = [st EXCEPT ![c] = "ready"]
  /\ held' = [held EXCEPT ![c] = TRUE] /\ exat' = [exat EXCEPT ![c] = ex]
  /\ UNCHANGED <<ex, run>>
Exclusive(e) == e \notin ex /\ ex' = ex \cup {e} /\ UNCHANGED <<env, bound, st, held, run, exat>>
\* The env destroys what has ended before it runs another one
Switch(e, c) ==
  /\ run[e] = 0 /\ st[c] = "ready" /\ env[c] = e
  /\ run' = [run EXCEPT ![e] = c]
  /\ st' = [d \in Cos |-> IF st[d] = "over" /\ ~held[d] /\ env[d] = e THEN "gone" ELSE st[d]]
  /\ UNCHANGED <<env, bound, held, ex, exat>>
Yield(e) == run[e] # 0 /\ run' = [run EXCEPT ![e] = 0] /\ UNCHANGED <<env, bound, st, held, ex, exat>>
End(e) == run[e] # 0 /\ st' = [st EXCEPT ![run[e]] = "over"] /\ run' = [run EXCEPT ![e] = 0] /\ UNCHANGED <<env, bound, held, ex, exat>>
Release(c) == held[c] /\ held' = [held EXCEPT ![c] = FALSE] /\ UNCHANGED <<env, bound, st, ex, run, exat>>

Next ==
  \/ \E c \in Cos : Release(c) \/ \E e \in Envs : Switch(e, c) \/ \E b \in BOOLEAN : Create(c, e, b)
  \/ \E e \in Envs : Exclusive(e) \/ Yield(e) \/ End(e)
Spec == Init /\ [][Next]_vars

\* On the thread of an env only its own coroutines run, each one on one thread only
Own == \A e \in Envs : run[e] # 0 => env[run[e]] = e /\ st[run[e]] = "ready"
OneThread == \A e, f \in Envs : run[e] # 0 /\ run[e] = run[f] => e = f
\* Nobody is put into an exclusive env without asking for it
KeptFree == \A c \in Cos : st[c] # "new" /\ ~bound[c] => env[c] \notin exat[c]
\* Nothing is destroyed which still runs or whose handle exists
Alive == \A c \in Cos : st[c] = "gone" => ~held[c] /\ \A e \in Envs : run[e] # c
Inv == Own /\ OneThread /\ KeptFree /\ Alive
=============================================================================
