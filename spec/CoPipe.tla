------------------------------- MODULE CoPipe -------------------------------
(* Pipelines: a source, stages, a consumer, connected by channels.         *)
(*                                                                         *)
(* The channels are those of CoModel.  A worker is what one coroutine of a *)
(* pipeline does: it pops from the channel before its stage, calls the     *)
(* function of the stage, pushes into the channel behind it.  Channel s is *)
(* the one behind stage s, channel 0 the one behind the source; only that  *)
(* one can be bounded.                                                     *)
(*                                                                         *)
(* A pipeline d:                                                           *)
(*   d.src   k: "gen" if its function is seen, n: it has the values 1 .. n *)
(*           cap: room of channel 0                                        *)
(*   d.st    the stages: k, a, b                                           *)
(*   d.cons  k: all, to, some, leave; n: how many are popped by some       *)
(* Nothing here depends on which coroutine or thread runs a worker.        *)
EXTENDS CoModel

Stages(d) == 1 .. Len(d.st)
ConsId(d) == <<Len(d.st) + 1, 1>>
IsFork(d, s) == s \in Stages(d) /\ d.st[s].k = "fork"
Workers(d) ==
  {<<0, 1>>, ConsId(d)} \cup UNION {IF IsFork(d, s) THEN {<<s, j>> : j \in 0 .. d.st[s].a} ELSE {<<s, 1>>} : s \in Stages(d)}

(* ------------------------------------------------------------ one worker *)

\* pc: op (an operation on a channel is pending), gen (about to ask the function of the source), fn (about to call the
\* function of the stage with vs), join (waiting for the other workers of a fork), idle (the consumer), end
Local0 == [pc |-> "op", n |-> 0, acc |-> 0, vs |-> << >>, todo |-> << >>]

Do(op, ch, v) == Invoke(op, <<ch, v, 0, 0>>, 0)
Is(l, p) == [l |-> l, p |-> p]
Pc(l, pc) == Is([l EXCEPT !.pc = pc], Idle)
Op(l, op, ch, v) == Is([l EXCEPT !.pc = "op"], Do(op, ch, v))
\* Close the channels one after the other, then end
CloseAll(l, chs) == IF chs = << >> THEN Pc(l, "end") ELSE Op([l EXCEPT !.todo = Tail(chs)], "close", Head(chs), 0)

NextOfSource(d, l) ==
  IF d.src.k = "gen" THEN Pc(l, "gen")
  ELSE IF l.n < d.src.n THEN Op([l EXCEPT !.n = @ + 1], "push", 0, l.n + 1)
  ELSE CloseAll(l, <<0>>)

\* How a worker begins
Start(d, x) ==
  LET s == x[1]
      l == Local0
  IN CASE s = 0 -> NextOfSource(d, l)
       [] x = ConsId(d) -> Pc(l, "idle")
       [] IsFork(d, s) /\ x[2] = 0 -> Pc(l, "join")
       [] d.st[s].k = "take" /\ d.st[s].a = 0 -> CloseAll(l, <<s, s - 1>>)
       [] d.st[s].k = "reduce" -> Op([l EXCEPT !.acc = d.st[s].a], "pop", s - 1, 0)
       [] OTHER -> Op(l, "pop", s - 1, 0)

\* How it goes on after an operation with the result r
After(d, x, l, op, r) ==
  LET s == x[1]
      k == d.st[s].k
      a == d.st[s].a
      again == Op(l, "pop", s - 1, 0)
  IN IF op = "close" THEN CloseAll(l, l.todo)
     ELSE IF s = 0 THEN IF r = 1 THEN NextOfSource(d, l) ELSE CloseAll(l, <<0>>)
     ELSE IF x = ConsId(d) THEN \* only a consumer which collects everything goes on by itself
       IF r = 0 THEN Pc(l, "list") ELSE Op([l EXCEPT !.vs = Append(@, r)], "pop", s - 1, 0)
     ELSE IF op = "pop" /\ r = 0 THEN
       CASE k = "fork"   -> Pc(l, "end")
         [] k = "reduce" -> Op(l, "push", s, l.acc)
         [] k = "take"   -> CloseAll(l, <<s, s - 1>>)
         [] OTHER        -> CloseAll(l, <<s>>)
     ELSE IF op = "pop" THEN
       CASE k \in {"map", "fork", "filter"} -> Pc([l EXCEPT !.vs = <<r>>], "fn")
         [] k = "reduce" -> Pc([l EXCEPT !.vs = <<l.acc, r>>], "fn")
         [] k = "group"  -> LET vs == Append(l.vs, r)
                            IN IF Len(vs) = a THEN Pc([l EXCEPT !.vs = vs], "fn") ELSE Op([l EXCEPT !.vs = vs], "pop", s - 1, 0)
         [] k = "take"   -> Op([l EXCEPT !.n = @ + 1], "push", s, r)
         [] k = "skip"   -> IF l.n < a THEN Op([l EXCEPT !.n = @ + 1], "pop", s - 1, 0) ELSE Op(l, "push", s, r)
     ELSE \* push
       CASE k = "reduce" -> CloseAll(l, <<s>>)
         [] k = "fork"   -> IF r = 1 THEN again ELSE CloseAll(l, <<s - 1>>)
         [] k = "take"   -> IF r = 1 /\ l.n < a THEN again ELSE CloseAll(l, <<s, s - 1>>)
         [] OTHER        -> IF r = 1 THEN again ELSE CloseAll(l, <<s - 1, s>>)

RECURSIVE Sum(_)
Sum(vs) == IF vs = << >> THEN 0 ELSE Head(vs) + Sum(Tail(vs))

\* The function of the stage has been called with l.vs
Called(d, x, l) ==
  LET s == x[1]
      k == d.st[s].k
      v == l.vs[1]
      l1 == [l EXCEPT !.vs = << >>]
  IN CASE k = "map"    -> Op(l1, "push", s, v + d.st[s].a)
       [] k = "fork"   -> Op(l1, "push", s, v + d.st[s].b)
       [] k = "filter" -> IF v % d.st[s].a # d.st[s].b THEN Op(l1, "push", s, v) ELSE Op(l1, "pop", s - 1, 0)
       [] k = "group"  -> Op(l1, "push", s, Sum(l.vs))
       [] k = "reduce" -> Op([l1 EXCEPT !.acc = Sum(l.vs)], "pop", s - 1, 0)

\* The function of the source has given v, 0 at the end
Given(d, l) == IF l.n < d.src.n THEN Op([l EXCEPT !.n = @ + 1], "push", 0, l.n + 1) ELSE CloseAll(l, <<0>>)
GivenValue(d, l) == IF l.n < d.src.n THEN l.n + 1 ELSE 0

(* --------------------------------------------------------- all of them *)

\* A state of a pipeline: w the channels, A the workers (l, p)
Pipe0(d) ==
  [w |-> [O |-> [s \in 0 .. Len(d.st) |-> InitObj("chan", <<IF s = 0 THEN d.src.cap ELSE -1>>)]],
   A |-> [x \in Workers(d) |-> Start(d, x)]]

\* The consumer reports what it does, so its operations end when that is seen
Reports(d, x) == x = ConsId(d) /\ d.cons.k # "to"

\* What can happen without being seen
SilentOf(d, x, st) ==
  LET c == st.A[x]
  IN IF c.l.pc = "join"
     THEN IF \A j \in 1 .. d.st[x[1]].a : st.A[<<x[1], j>>].l.pc = "end"
          THEN {[st EXCEPT !.A[x] = CloseAll(c.l, <<x[1]>>)]} ELSE {}
     ELSE IF c.l.pc # "op" THEN {}
     ELSE {[w |-> y.w, A |-> [st.A EXCEPT ![x] = IF y.p.ph # "done" \/ Reports(d, x) THEN Is(c.l, y.p)
                                                  ELSE After(d, x, c.l, y.p.op, y.p.r)]] : y \in Step(x, c.p, st.w, 0)}

CanCall(d, x, st, vs) == st.A[x].l.pc = "fn" /\ st.A[x].l.vs = vs
CallOf(d, x, st) == [st EXCEPT !.A[x] = Called(d, x, st.A[x].l)]

CanGive(d, st, v) == st.A[<<0, 1>>].l.pc = "gen" /\ GivenValue(d, st.A[<<0, 1>>].l) = v
GiveOf(d, st) == [st EXCEPT !.A[<<0, 1>>] = Given(d, st.A[<<0, 1>>].l)]

\* Nothing more can happen by itself
PipeRest(d, st) ==
  \A x \in Workers(d) : /\ st.A[x].l.pc \notin {"fn", "gen", "list"}
                        /\ st.A[x].p.ph # "done"
                        /\ SilentOf(d, x, st) = {}
Ended(d, st, x) == st.A[x].l.pc = "end"
AllEnded(d, st) == \A x \in Workers(d) \ {ConsId(d)} : Ended(d, st, x)

(* ------------------------------------------------------- what is expected *)

RECURSIVE Groups(_, _), Filtered(_, _, _)
Groups(vs, n) == IF Len(vs) < n THEN << >> ELSE <<Sum(SubSeq(vs, 1, n))>> \o Groups(SubSeq(vs, n + 1, Len(vs)), n)
Filtered(vs, a, b) == IF vs = << >> THEN << >> ELSE (IF Head(vs) % a # b THEN <<Head(vs)>> ELSE << >>) \o Filtered(Tail(vs), a, b)
Min(a, b) == IF a < b THEN a ELSE b

\* What a stage makes of a complete sequence
StageOf(x, vs) ==
  CASE x.k = "map"    -> [i \in 1 .. Len(vs) |-> vs[i] + x.a]
    [] x.k = "fork"   -> [i \in 1 .. Len(vs) |-> vs[i] + x.b]
    [] x.k = "filter" -> Filtered(vs, x.a, x.b)
    [] x.k = "group"  -> Groups(vs, x.a)
    [] x.k = "reduce" -> <<x.a + Sum(vs)>>
    [] x.k = "take"   -> SubSeq(vs, 1, Min(x.a, Len(vs)))
    [] x.k = "skip"   -> SubSeq(vs, Min(x.a, Len(vs)) + 1, Len(vs))
RECURSIVE Through(_, _, _)
Through(d, s, vs) == IF s > Len(d.st) THEN vs ELSE Through(d, s + 1, StageOf(d.st[s], vs))
Expected(d) == Through(d, 1, [i \in 1 .. d.src.n |-> i])
Ordered(d) == \A s \in Stages(d) : IsFork(d, s) => d.st[s].a = 1
=============================================================================
