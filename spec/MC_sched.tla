----------------------------- MODULE MC_sched ------------------------------
(* One env with coroutines which yield, end, wait, are woken, and change   *)
(* their priorities.  What follows from the rule of CoSched?               *)
EXTENDS CoSched, TLC

CONSTANTS N,        \* coroutines
          Prios,    \* the priorities they may have
          Calm      \* TRUE: they only yield

Cos == 1 .. N
VARIABLES st,   \* new, ready, wait, over
          prio, run, s,
          cnt   \* cnt[c][d]: how often d was chosen since c was, while both were ready with the same priority
vars == <<st, prio, run, s, cnt>>

Init ==
  /\ prio \in [Cos -> Prios]
  /\ st \in IF Calm THEN {[c \in Cos |-> "ready"]} ELSE {[c \in Cos |-> IF c = 1 THEN "ready" ELSE "new"]}
  /\ run = 0
  /\ s = SchedInit(Cos)
  /\ cnt = [c \in Cos |-> [d \in Cos |-> 0]]

Rdy == {c \in Cos : st[c] = "ready"}
Reset(c, x) == [a \in Cos |-> [d \in Cos |-> IF a = c \/ d = c THEN 0 ELSE x[a][d]]]

Choose(c) ==
  /\ run = 0 /\ c \in Rdy
  /\ MayRun(c, Rdy, prio, s)
  /\ run' = c
  /\ s' = HasRun(c, Rdy, prio, s)
  /\ cnt' = [a \in Cos |-> [d \in Cos |-> IF a = c THEN 0
                                          ELSE IF d = c /\ st[a] = "ready" /\ prio[a] = prio[c] THEN cnt[a][d] + 1 ELSE cnt[a][d]]]
  /\ UNCHANGED <<st, prio>>
Yield == run # 0 /\ run' = 0 /\ UNCHANGED <<st, prio, s, cnt>>

Leave(how) == ~Calm /\ run # 0 /\ st' = [st EXCEPT ![run] = how] /\ s' = Leaves(run, s) /\ cnt' = Reset(run, cnt) /\ run' = 0 /\ UNCHANGED prio
Come(c) == ~Calm /\ st[c] \in {"wait", "new"} /\ st' = [st EXCEPT ![c] = "ready"] /\ UNCHANGED <<prio, run, s, cnt>>
SetPrio(c, x) == ~Calm /\ run # 0 /\ st[c] = "ready" /\ prio[c] # x /\ prio' = [prio EXCEPT ![c] = x] /\ s' = Leaves(c, s) /\ cnt' = Reset(c, cnt) /\ UNCHANGED <<st, run>>

Next ==
  \/ \E c \in Cos : Choose(c) \/ Come(c) \/ \E x \in Prios : SetPrio(c, x)
  \/ Yield
  \/ Leave("wait") \/ Leave("over")
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

\* Someone can always be chosen
NoStall == run = 0 /\ Rdy # {} => \E c \in Rdy : MayRun(c, Rdy, prio, s)
\* Who is passed over twice by the same one?  Nobody.
InTurn == \A c, d \in Cos : cnt[c][d] <= 2
Inv == NoStall /\ InTurn
\* The chosen one has the highest priority
Highest == [][run = 0 /\ run' # 0 => \A c \in Rdy : prio[c] >= prio[run']]_vars
\* Those with the highest priority all run again and again
Everyone == \A c \in Cos : (\A d \in Cos : prio[d] >= prio[c]) => []<>(run = c)
=============================================================================
