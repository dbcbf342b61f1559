----------------------------- MODULE MC_stack ------------------------------
(* Coroutines of one env which share one stack: at every switch the part   *)
(* in use is saved and that of the next one restored.  Others have stacks  *)
(* of their own.  A switch with a shared stack goes by way of the idle     *)
(* coroutine, which does the copying.                                      *)
EXTENDS Integers, Sequences, TLC

CONSTANTS N, Depth
Cos == 1 .. N
VARIABLES shared,  \* those who use the shared stack
          run,     \* who runs, 0: the idle coroutine
          area,    \* the contents of the shared stack
          saved,   \* co -> saved contents
          own,     \* co -> contents of its own stack
          ghost,   \* what every coroutine believes to have on its stack
          from, to, \* the pending switch
          st
vars == <<shared, run, area, saved, own, ghost, from, to, st>>

Init ==
  /\ shared \in SUBSET Cos
  /\ run = 0 /\ area = << >> /\ saved = [c \in Cos |-> << >>] /\ own = [c \in Cos |-> << >>] /\ ghost = [c \in Cos |-> << >>]
  /\ from = 0 /\ to = 0 /\ st = [c \in Cos |-> "new"]

Stack(c) == IF c \in shared THEN area ELSE own[c]
Put(c, x) == IF c \in shared THEN area' = x /\ UNCHANGED own ELSE own' = [own EXCEPT ![c] = x] /\ UNCHANGED area

Push == /\ run # 0 /\ Len(ghost[run]) < Depth
        /\ Put(run, Append(Stack(run), run)) /\ ghost' = [ghost EXCEPT ![run] = Append(@, run)]
        /\ UNCHANGED <<shared, run, saved, from, to, st>>
Pop == /\ run # 0 /\ Len(ghost[run]) > 0
       /\ Put(run, SubSeq(Stack(run), 1, Len(Stack(run)) - 1)) /\ ghost' = [ghost EXCEPT ![run] = SubSeq(@, 1, Len(@) - 1)]
       /\ UNCHANGED <<shared, run, saved, from, to, st>>

Live(c) == st[c] # "over"
\* Directly, when neither of them shares
Direct(c) == /\ to = 0 /\ Live(c) /\ c # run /\ c \notin shared /\ run \notin shared
             /\ run' = c /\ UNCHANGED <<shared, area, saved, own, ghost, from, to, st>>
\* ... otherwise the idle coroutine is asked to
Ask(c) == /\ to = 0 /\ Live(c) /\ c # run /\ (c \in shared \/ run \in shared)
          /\ from' = run /\ to' = c /\ run' = 0 /\ UNCHANGED <<shared, area, saved, own, ghost, st>>
Copy == /\ to # 0
        /\ saved' = IF from \in shared /\ st[from] # "over" THEN [saved EXCEPT ![from] = area] ELSE saved
        /\ area' = IF to \in shared THEN saved'[to] ELSE area
        /\ run' = to /\ from' = 0 /\ to' = 0 /\ UNCHANGED <<shared, own, ghost, st>>
End(c) == /\ run # 0 /\ st' = [st EXCEPT ![run] = "over"] /\ ghost' = [ghost EXCEPT ![run] = << >>]
          /\ c # run /\ Live(c) /\ from' = run /\ to' = c /\ run' = 0
          /\ UNCHANGED <<shared, area, saved, own>>

Next == Push \/ Pop \/ Copy \/ \E c \in Cos : Direct(c) \/ Ask(c) \/ End(c)
Spec == Init /\ [][Next]_vars

\* Everybody finds its stack as it has left it
Intact == run # 0 => Stack(run) = ghost[run]
Inv == Intact
=============================================================================
