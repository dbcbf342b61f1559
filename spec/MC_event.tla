----------------------------- MODULE MC_event ------------------------------
(* Events: subscribe, unsubscribe, publish.                                *)
EXTENDS CoSys

Objects == <<Obj("event", <<0>>)>>

\* tags: how many subscriptions; got: the callbacks of the latest publication of each client; calm: nobody has
\* subscribed or unsubscribed since that was called
C0 == 0 .. NC - 1
G0 == [tags |-> 0, got |-> [c \in C0 |-> << >>], calm |-> [c \in C0 |-> TRUE]]

Sub(gg, act, arg) == <<"sub", <<0, gg.tags + 1, act, arg>>>>
AMenu(c, ww, gg) ==
  {<<"pub", <<0, 10 * c + 1, 0, 0>>>>}
  \cup (IF c = 0 THEN {Sub(gg, 0, 0), Sub(gg, 1, 0), Sub(gg, 3, gg.tags + 101)} ELSE {Sub(gg, 2, 0), <<"unsub", <<0, 0, 0, 0>>>>})
Change == {"sub", "unsub"}
ACall(gg, c, op, a) ==
  CASE op = "sub" -> [gg EXCEPT !.tags = @ + 1, !.calm = [d \in C0 |-> FALSE]]
    [] op = "unsub" -> [gg EXCEPT !.calm = [d \in C0 |-> FALSE]]
    [] op = "pub" -> [gg EXCEPT !.got[c] = << >>, !.calm[c] = \A d \in C0 : ~(P[d].ph # "idle" /\ P[d].op \in Change)]
    [] OTHER -> gg
ARet(gg, c, op, a, r) ==
  CASE op = "cb" -> [gg EXCEPT !.got[c] = Append(@, r[1]), !.calm = IF r[3] = 0 THEN @ ELSE [d \in C0 |-> FALSE]]
    [] OTHER -> gg

Pubs(c) == P[c].op = "pub"
\* A publication calls nobody twice
NoTwice == \A c \in Clients : \A i, j \in DOMAIN g.got[c] : g.got[c][i] = g.got[c][j] => i = j
\* Without a change meanwhile, everybody who is subscribed is called, in the order of subscription
Everyone == \A c \in Clients : Pubs(c) /\ P[c].ph = "done" /\ g.calm[c] =>
              g.got[c] = [i \in DOMAIN w.O[0].subs |-> w.O[0].subs[i][1]]
NoWait == Rest => \A c \in Clients : ~Pending(c)

Inv == NoTwice /\ Everyone /\ NoWait
=============================================================================
