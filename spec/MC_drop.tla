----------------------------- MODULE MC_drop -------------------------------
(* Client 0 waits for what the others do with an object, then destroys it: *)
(* their last calls need not have returned.                                *)
EXTENDS CoSys

CONSTANTS Kind

N == NC - 1
Objects == CASE Kind \in {"latch", "wg"} -> <<Obj(Kind, <<N>>)>>
             [] Kind = "sem3"            -> <<Obj(Kind, <<0>>)>>
             [] Kind = "barrier"         -> <<Obj(Kind, <<NC>>)>>
             [] OTHER                    -> <<Obj(Kind, <<0>>), Obj("cv", <<0>>), Obj("var", <<1 - N>>)>>
Locks == Kind \notin {"latch", "wg", "sem3", "barrier"}

Op(op, x, y, z) == <<op, <<x, y, z, 0>>>>
\* What client 0 does, and what each of the others does
First == CASE Kind = "latch"   -> <<Op("lwait", 0, 0, 0), Op("drop", 0, 0, 0)>>
           [] Kind = "wg"      -> <<Op("drop", 0, 0, 0)>>
           [] Kind = "sem3"    -> [i \in 1 .. N |-> Op("acq", 0, 0, 0)] \o <<Op("drop", 0, 0, 0)>>
           [] Kind = "barrier" -> <<Op("barw", 0, 0, 0), Op("drop", 0, 0, 0)>>
           [] OTHER            -> <<Op("lock", 0, 0, 0), Op("waitp", 1, 0, 2), Op("unlock", 0, 0, 0), Op("drop", 1, 0, 0), Op("drop", 0, 0, 0)>>
Other == CASE Kind = "latch"   -> <<Op("cd", 0, 1, 0)>>
           [] Kind = "wg"      -> <<Op("done", 0, 0, 0)>>
           [] Kind = "sem3"    -> <<Op("rel", 0, 1, 0)>>
           [] Kind = "barrier" -> <<Op("arrive", 0, 1, 0)>>
           [] OTHER            -> <<Op("lock", 0, 0, 0), Op("add", 2, 1, 0), Op("notify", 1, 0, 0), Op("unlock", 0, 0, 0)>>
Todo(c) == IF c = 0 THEN First ELSE Other

\* k: how many calls of each client have returned
G0 == [k |-> [c \in 0 .. N |-> 0]]
AMenu(c, ww, gg) == IF gg.k[c] < Len(Todo(c)) THEN {Todo(c)[gg.k[c] + 1]} ELSE {}
ACall(gg, c, op, a) == gg
ARet(gg, c, op, a, r) == [gg EXCEPT !.k[c] = @ + 1]

Gone(i) == w.O[i].k = "gone"
\* Nobody is going to use what has been destroyed, nor is anybody waiting there
NotUsed ==
  \A i \in Objs : Gone(i) =>
    \A c \in Clients \ {0} : \A k \in g.k[c] + 1 .. Len(Todo(c)) :
      Todo(c)[k][2][1] = i => k = g.k[c] + 1 /\ P[c].ph = "done"
\* It comes to that
Destroyed == Rest /\ (\A c \in Clients : P[c].ph = "idle" /\ g.k[c] = Len(Todo(c))) => Gone(0)
NoneLeft == Rest /\ (\A c \in Clients \ {0} : P[c].ph = "idle" /\ g.k[c] = Len(Todo(c))) => P[0].ph = "idle"

Inv == NotUsed /\ Destroyed /\ NoneLeft
=============================================================================
