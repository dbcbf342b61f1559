----------------------------- MODULE PipeTrace -----------------------------
(* Is a trace recorded from a real pipeline a behaviour of CoPipe?         *)
(*                                                                         *)
(* Events: gen (the function of the source gives r, 0 at its end), fn (the *)
(* function of stage c is called with a), ready, pop / got, close / closed *)
(* to / list (the consumer), quiet (nothing happens any more), alive (how  *)
(* many function objects of each stage have not been destroyed), end.      *)
(* Everything else in CoPipe is silent, and only done when the next event  *)
(* needs it.                                                               *)
EXTENDS CoPipe, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)

VARIABLES ti, l, st
vars == <<ti, l, st>>

T == Traces[ti]
D == T.pipe
Ev == T.ev[l]
C == ConsId(D)
Last == Len(D.st)

Init == ti \in 1 .. N /\ l = 1 /\ st = Pipe0(Traces[ti].pipe)

Consume == l' = l + 1 /\ UNCHANGED ti

Cons(op) == [st EXCEPT !.A[C] = Op(st.A[C].l, op, Last, 0)]
ConsDone(op) == st.A[C].p.op = op /\ st.A[C].p.ph = "done"

CanFn == \E x \in Workers(D) : x[1] = Ev.c /\ CanCall(D, x, st, Ev.a)
CanGot == ConsDone("pop") /\ st.A[C].p.r = Ev.r
CanList == st.A[C].l.pc = "list" /\ st.A[C].l.vs = Ev.a

Event ==
  /\ \/ Ev.e = "gen" /\ CanGive(D, st, Ev.r) /\ st' = GiveOf(D, st)
     \/ Ev.e = "fn" /\ \E x \in Workers(D) : x[1] = Ev.c /\ CanCall(D, x, st, Ev.a) /\ st' = CallOf(D, x, st)
     \/ Ev.e = "ready" /\ st.A[C].l.pc = "idle" /\ UNCHANGED st
     \/ Ev.e \in {"pop", "to"} /\ st.A[C].l.pc = "idle" /\ st' = Cons("pop")
     \/ Ev.e = "close" /\ st.A[C].l.pc = "idle" /\ st' = Cons("close")
     \/ Ev.e = "got" /\ CanGot /\ st' = [st EXCEPT !.A[C] = Pc(st.A[C].l, "idle")]
     \/ Ev.e = "closed" /\ ConsDone("close") /\ st' = [st EXCEPT !.A[C] = Pc(st.A[C].l, "idle")]
     \/ Ev.e = "list" /\ CanList /\ st' = [st EXCEPT !.A[C] = Pc(st.A[C].l, "end")]
     \/ Ev.e = "quiet" /\ PipeRest(D, st) /\ UNCHANGED st
     \/ /\ Ev.e = "alive"
        /\ \A x \in Workers(D) \ {C} : Ended(D, st, x) => Ev.a[x[1] + 1] = 0 \/ \E y \in Workers(D) : y[1] = x[1] /\ ~Ended(D, st, y)
        /\ UNCHANGED st
     \/ Ev.e = "end" /\ UNCHANGED st
  /\ Consume

NeedsMore ==
  CASE Ev.e = "gen"    -> st.A[<<0, 1>>].l.pc # "gen"
    [] Ev.e = "fn"     -> ~CanFn
    [] Ev.e = "got"    -> ~ConsDone("pop")
    [] Ev.e = "closed" -> ~ConsDone("close")
    [] Ev.e = "list"   -> st.A[C].l.pc # "list"
    [] Ev.e = "quiet"  -> ~PipeRest(D, st)
    [] OTHER           -> FALSE

\* Steps which change nothing for the others but let them go on: they can be done at once, in any order.  These are a
\* pop, because it does not matter which worker of a fork gets a value, a push which is refused, closing the channel
\* behind the own stage.  What is left are pushes, which compete with the one who closes the channel from behind.
Safe(x) ==
  LET c == st.A[x]
  IN \/ c.l.pc = "join"
     \/ /\ c.l.pc = "op"
        /\ \/ c.p.op = "pop"
           \/ c.p.op = "push" /\ st.w.O[c.p.a[1]].closed
           \/ c.p.op = "close" /\ c.p.a[1] = x[1]
Movable == {x \in Workers(D) : SilentOf(D, x, st) # {}}
Movers == LET s == {x \in Movable : Safe(x)} IN IF s # {} THEN {CHOOSE x \in s : TRUE} ELSE Movable
Silent == NeedsMore /\ UNCHANGED <<ti, l>> /\ \E x \in Movers : \E y \in SilentOf(D, x, st) : st' = y

Next == l <= Len(T.ev) /\ (Event \/ Silent)
Spec == Init /\ [][Next]_vars

ASSUME \A i \in 1 .. N : TLCSet(i, 0)
Reach ==
  LET m == TLCGet(ti)
  IN IF m > Len(T.ev) THEN FALSE
     ELSE IF l > m THEN TLCSet(ti, l) ELSE TRUE
Accepted ==
  /\ \A i \in 1 .. N : \/ TLCGet(i) > Len(Traces[i].ev)
                       \/ PrintT(<<"REJECTED", Traces[i].id, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", N>>)
=============================================================================
