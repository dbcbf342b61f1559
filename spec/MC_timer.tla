----------------------------- MODULE MC_timer ------------------------------
(* Timers: object 0 fires once, object 1 again and again, both after 1 ms. *)
EXTENDS CoSys

Objects == <<Obj("timer", <<0, 1>>), Obj("timer", <<1, 1>>)>>

\* st: starts called; fired: how often the functions were called; t0: first start; calm: no start yet; cb: the function was
\* replaced then; wrong: the first function was called nevertheless
G0 == [st |-> [i \in 0 .. 1 |-> 0], fired |-> [i \in 0 .. 1 |-> 0], t0 |-> [i \in 0 .. 1 |-> Later], calm |-> TRUE, cb |-> FALSE, wrong |-> FALSE]

AMenu(c, ww, gg) == {<<"tcb", <<0, 1, 0, 0>>>>} \cup {<<op, <<i, 0, 0, 0>>>> : op \in {"tstart", "tstop", "treset"}, i \in 0 .. 1}
ACall(gg, c, op, a) ==
  IF op \in {"tstart", "treset"}
  THEN [gg EXCEPT !.st[a[1]] = @ + 1, !.t0[a[1]] = IF tn < @ THEN tn ELSE @, !.calm = FALSE]
  ELSE gg
ARet(gg, c, op, a, r) ==
  CASE op = "fire" -> [gg EXCEPT !.fired[a[1]] = @ + 1, !.wrong = @ \/ (a[1] = 0 /\ r = 0 /\ gg.cb)]
    [] op = "tcb" -> [gg EXCEPT !.cb = @ \/ gg.calm]
    [] OTHER -> gg

\* Not before it was started, and not before the interval is over
NotEarly == \A i \in 0 .. 1 : g.fired[i] > 0 => tn >= g.t0[i] + 1000
\* At most once per start
AtMost == g.fired[0] <= g.st[0]
\* A periodic one not more often than there were intervals
Periodic == g.fired[1] <= ((tn - (IF g.t0[1] > tn THEN tn ELSE g.t0[1])) \div 1000) * (IF g.st[1] = 0 THEN 1 ELSE g.st[1])
\* A function which is replaced before the timer is started for the first time is not called
Replaced == ~g.wrong
Inv == NotEarly /\ AtMost /\ Periodic /\ Replaced
=============================================================================
