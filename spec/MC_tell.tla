------------------------------ MODULE MC_tell ------------------------------
(* Client 0 creates the others and wants to know when they end, and when   *)
(* their priorities change.                                                *)
EXTENDS CoSys

Objects == << >>
C0 == 0 .. NC - 1
\* tags: how many subscriptions; sub: tag -> [of, kind, in (the call has returned), early (returned before the end of the
\* function), out (has been unsubscribed)]; told: what the functions have been called with, by tag; ended: the functions
\* which have ended
G0 == [tags |-> 0, sub |-> << >>, told |-> << >>, ended |-> {}]

Kids(ww) == {d \in C0 \ {0} : ww.L[d].held}
AMenu(c, ww, gg) ==
  IF c # 0 THEN {<<"setselfprio", <<7, 0, 0, 0>>>>, <<"yield", <<0, 0, 0, 0>>>>}
  ELSE {<<"spawn", <<d, 0, 0, 0>>>> : d \in {d \in C0 \ {0} : ww.L[d].st = "new" /\ \A e \in 1 .. d - 1 : ww.L[e].st # "new"}}
       \cup {<<op, <<d, gg.tags + 1, 0, 0>>>> : op \in {"onfin", "onprio"}, d \in Kids(ww)}
       \cup {<<IF gg.sub[i].kind = "fin" THEN "offfin" ELSE "offprio", <<gg.sub[i].of, i, 0, 0>>>> : i \in {i \in DOMAIN gg.sub : ~gg.sub[i].out}}
       \cup {<<"setprio", <<d, 120, 0, 0>>>> : d \in Kids(ww)} \cup {<<"setprio", <<d, 7, 0, 0>>>> : d \in Kids(ww)}
ACall(gg, c, op, a) ==
  CASE op \in {"onfin", "onprio"} ->
         [gg EXCEPT !.tags = @ + 1, !.sub = Append(@, [of |-> a[1], kind |-> IF op = "onfin" THEN "fin" ELSE "prio", in |-> FALSE, early |-> FALSE, out |-> FALSE]),
                    !.told = Append(@, << >>)]
    [] op \in {"offfin", "offprio"} -> [gg EXCEPT !.sub[a[2]].out = TRUE]
    [] op = "fin" -> [gg EXCEPT !.ended = @ \cup {c}]
    [] OTHER -> gg
ARet(gg, c, op, a, r) ==
  CASE op \in {"onfin", "onprio"} -> [gg EXCEPT !.sub[a[2]].in = TRUE, !.sub[a[2]].early = a[1] \notin gg.ended]
    [] op = "fincb" -> [gg EXCEPT !.told[r] = Append(@, c)]
    [] op = "prcb" -> [gg EXCEPT !.told[r] = Append(@, <<a[2], a[3]>>)]
    [] OTHER -> gg

Of(k) == {i \in DOMAIN g.sub : g.sub[i].kind = k}
\* The end is told once, after it, and by the coroutine which has ended
EndOnce == \A i \in Of("fin") : /\ Len(g.told[i]) <= 1
                                /\ g.told[i] # << >> => g.told[i] = <<g.sub[i].of>> /\ g.sub[i].of \in g.ended
EndTold == Rest => \A i \in Of("fin") : g.sub[i].early /\ ~g.sub[i].out /\ g.sub[i].of \in g.ended => Len(g.told[i]) = 1
\* Every change is told, with the limited values, and each one begins where the one before has ended
RealChange == \A i \in Of("prio") : \A k \in DOMAIN g.told[i] : g.told[i][k][1] # g.told[i][k][2] /\ g.told[i][k][2] \in {7, 99}
\* When nothing happens any more the last change which was told is the priority
LastTold == Rest => \A i \in Of("prio") : ~g.sub[i].out /\ g.told[i] # << >> =>
              \E k \in DOMAIN g.told[i] : g.told[i][k][2] = w.L[g.sub[i].of].prio
NoWait == Rest => \A c \in Clients : ~Pending(c)
Inv == EndOnce /\ EndTold /\ RealChange /\ LastTold /\ NoWait
=============================================================================
