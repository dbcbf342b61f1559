------------------------------ MODULE MC_pipe ------------------------------
(* All pipelines with up to MaxStages stages of a menu, every interleaving *)
(* of their workers.                                                       *)
EXTENDS CoPipe

CONSTANTS MaxStages, N

Menu == {[k |-> "map", a |-> 10, b |-> 0], [k |-> "filter", a |-> 2, b |-> 0], [k |-> "take", a |-> 1, b |-> 0], [k |-> "take", a |-> 2, b |-> 0],
         [k |-> "skip", a |-> 1, b |-> 0], [k |-> "group", a |-> 2, b |-> 0], [k |-> "reduce", a |-> 1, b |-> 0], [k |-> "fork", a |-> 2, b |-> 10]}
Sources == {[k |-> k, n |-> N, cap |-> c] : k \in {"gen"}, c \in {-1, 0, 1}}
Consumers == {[k |-> "all", n |-> 0], [k |-> "some", n |-> 1], [k |-> "to", n |-> 0]}
StageSeqs == UNION {[1 .. n -> Menu] : n \in 0 .. MaxStages}

VARIABLES d, st, got, mode, given
vars == <<d, st, got, mode, given>>

Init ==
  /\ d \in [src : Sources, st : StageSeqs, cons : Consumers]
  /\ st = Pipe0(d)
  /\ got = << >>      \* what the consumer has got
  /\ mode = "begin"      \* what it does: begin, pop, open, close, closed, eof
  /\ given = 0        \* how often the source has given something

C == ConsId(d)
Last == Len(d.st)
Cons(op) == [st EXCEPT !.A[C] = Op(st.A[C].l, op, Last, 0)]

Consumer ==
  \/ /\ mode = "begin" /\ d.cons.k = "to"
     /\ st' = Cons("pop") /\ mode' = "collect" /\ UNCHANGED <<got>>
  \/ /\ mode = "collect" /\ st.A[C].l.pc = "list"
     /\ got' = st.A[C].l.vs /\ mode' = "eof"
     /\ st' = [st EXCEPT !.A[C] = Pc(st.A[C].l, "end")]
  \/ /\ mode = "begin" /\ d.cons.k # "to"
     /\ IF d.cons.k = "some" /\ Len(got) >= d.cons.n
        THEN st' = Cons("close") /\ mode' = "close"
        ELSE st' = Cons("pop") /\ mode' = "pop"
     /\ UNCHANGED got
  \/ /\ mode \in {"pop", "close"} /\ st.A[C].p.ph = "done"
     /\ LET r == st.A[C].p.r
        IN IF mode = "close" THEN mode' = "closed" /\ UNCHANGED got
           ELSE IF r = 0 THEN (IF d.cons.k = "some" THEN mode' = "eof0" ELSE mode' = "eof") /\ UNCHANGED got
           ELSE mode' = "begin" /\ got' = Append(got, r)
     /\ st' = [st EXCEPT !.A[C] = Pc(st.A[C].l, "idle")]

Next ==
  /\ UNCHANGED d
  /\ \/ Consumer /\ UNCHANGED given
     \/ \E x \in Workers(d) : \E y \in SilentOf(d, x, st) : st' = y /\ UNCHANGED <<got, mode, given>>
     \/ \E x \in Workers(d) : st.A[x].l.pc = "fn" /\ st' = CallOf(d, x, st) /\ UNCHANGED <<got, mode, given>>
     \/ st.A[<<0, 1>>].l.pc = "gen" /\ st' = GiveOf(d, st) /\ given' = given + 1 /\ UNCHANGED <<got, mode>>

Spec == Init /\ [][Next]_vars

Count(s, v) == Cardinality({i \in 1 .. Len(s) : s[i] = v})
SameItems(s, t) == Len(s) = Len(t) /\ \A i \in 1 .. Len(t) : Count(s, t[i]) = Count(t, t[i])
\* A fork followed by something which depends on the order may give different results
Depends(x) == x.k \in {"take", "skip", "group"}
Determined == \A s, t \in Stages(d) : s < t /\ IsFork(d, s) => ~Depends(d.st[t])

\* What comes out is what the stages make of the values of the source, in order unless several work at once
Result ==
  /\ mode = "eof" /\ Determined => SameItems(got, Expected(d))
  /\ Ordered(d) => \A i \in 1 .. Len(got) : i <= Len(Expected(d)) /\ got[i] = Expected(d)[i]
  /\ mode = "eof" => Len(got) = Len(Expected(d)) \/ ~Determined
\* In the end nobody is left: everything has been consumed, or given up after the consumer has closed
NobodyLeft == ~ENABLED Next => AllEnded(d, st) /\ mode \in {"eof", "eof0", "closed"}
\* The source is at most as far ahead as there is room
Taken == st.w.O[0].out
Bounded == d.src.cap >= 0 => given <= Taken + d.src.cap + 2
\* take does not let anything through behind its number
TakesNoMore == \A s \in Stages(d) : d.st[s].k = "take" => st.w.O[s].in <= d.st[s].a

Inv == Result /\ NobodyLeft /\ Bounded /\ TakesNoMore
=============================================================================
