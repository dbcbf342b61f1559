----------------------------- MODULE MC_dgram ------------------------------
(* Coroutines with a socket for datagrams each, which send to one another: *)
(* any calls, any interleaving, any error of the system.                   *)
EXTENDS CoIo

CONSTANTS NC, Calls, Faults

VARIABLES w, P, n, g
vars == <<w, P, n, g>>

Cos == 0 .. NC - 1
\* cnt: bytes made so far; sent: what was sent from one to another; got: what was received by one from another, with the
\* room there was; refused: a call has failed although nothing was closed and the system has reported no error
G0 == [cnt |-> [c \in Cos |-> 0], sent |-> [x \in Cos \X Cos |-> << >>], got |-> [x \in Cos \X Cos |-> << >>], refused |-> FALSE]

Init == /\ w = World0(Cos, << >>, 0, 0, Cos)
        /\ P = [c \in Cos |-> IoIdle] /\ n = [c \in Cos |-> 0] /\ g = G0

Bytes(c, k) == [i \in 1 .. k |-> 10 * (c + 1) + g.cnt[c] + i]
Menu(c) ==
  {<<"gput", <<c, k, d>>, Bytes(c, k)>> : k \in {0, 2}, d \in Cos}
  \cup {<<"gget", <<c, k, 0>>, << >>>> : k \in {1, 2}} \cup {<<"gpeek", <<c, 2, 0>>, << >>>>, <<"cl", <<c, 0, 0>>, << >>>>}

Call(c) ==
  /\ P[c].ph = "idle" /\ n[c] < Calls
  /\ \E m \in Menu(c) :
       /\ P' = [P EXCEPT ![c] = IoCall(m[1], m[2], m[3])]
       /\ g' = [g EXCEPT !.cnt[c] = @ + Len(m[3])]
  /\ n' = [n EXCEPT ![c] = @ + 1] /\ UNCHANGED w

Go(c) == \E y \in IoStep(P[c], w) :
  /\ w' = y.w /\ P' = [P EXCEPT ![c] = y.p] /\ UNCHANGED n
  /\ g' = IF y.p.op = "gput" /\ y.p.ph = "done" /\ y.p.r >= 0 THEN [g EXCEPT !.sent[c, y.p.a[3]] = Append(@, y.p.d)] ELSE g

Fault(c) ==
  /\ Faults /\ P[c].ph = "run" /\ P[c].fault = 0 /\ P' = [P EXCEPT ![c].fault = 5] /\ UNCHANGED <<w, n, g>>

Ret(c) ==
  /\ P[c].ph = "done"
  /\ LET p == P[c]
     IN g' = [g EXCEPT !.got = IF p.op = "gget" /\ p.r >= 0 THEN [@ EXCEPT ![p.from, c] = Append(@, [d |-> p.got, n |-> p.a[2]])] ELSE @,
                       !.refused = @ \/ (p.r < 0 /\ p.fault = 0 /\ \A s \in Cos : w.S[s].k = "dgram")]
  /\ P' = [P EXCEPT ![c] = IoIdle] /\ UNCHANGED <<w, n>>

Next == \E c \in Cos : Call(c) \/ Go(c) \/ Fault(c) \/ Ret(c)
Spec == Init /\ [][Next]_vars

\* What is received is what was sent by that one, in order, once, as far as there was room for it
Whole ==
  \A x \in Cos \X Cos :
    /\ Len(g.got[x]) <= Len(g.sent[x])
    /\ \A i \in 1 .. Len(g.got[x]) : g.got[x][i].d = First(g.sent[x][i], MinOf(Len(g.sent[x][i]), g.got[x][i].n))
\* Nothing is lost on its way to somebody whose socket is open
Flying(s, c) == Len(SelectSeq(w.D[c], LAMBDA m : m.from = s))
Kept == \A s \in Cos, c \in Cos : w.S[c].k = "dgram" =>
          Len(g.sent[s, c]) = Len(g.got[s, c]) + Flying(s, c) + (IF P[c].ph = "done" /\ P[c].op = "gget" /\ P[c].r >= 0 /\ P[c].from = s THEN 1 ELSE 0)
\* Nobody waits for what is there
NoStall == \A c \in Cos : P[c].ph = "run" /\ (P[c].op = "gput" \/ w.D[c] # << >>) => IoStep(P[c], w) # {}

Inv == Whole /\ Kept /\ ~g.refused /\ NoStall
=============================================================================
