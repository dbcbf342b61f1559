------------------------------- MODULE MC_io -------------------------------
(* Two coroutines at the two ends of a connection: any calls, any          *)
(* interleaving, any short transfer, any error of the system.              *)
EXTENDS CoIo

CONSTANTS Calls, Faults

VARIABLES w, P, n, g
vars == <<w, P, n, g>>

Cos == {0, 1}
\* cnt: bytes made so far; sent: bytes whose write has been reported; got: bytes which have been reported to the reader
\* lost: bytes of a write_n or read_n which failed are unknown; ended: the end has been reported
G0 == [cnt |-> [c \in Cos |-> 0], sent |-> [c \in Cos |-> << >>], got |-> [c \in Cos |-> << >>], unsure |-> [c \in Cos |-> FALSE],
       lostr |-> [c \in Cos |-> FALSE], shut |-> [c \in Cos |-> FALSE], ended |-> [c \in Cos |-> FALSE], badend |-> FALSE, faulty |-> FALSE]

Init == /\ w = World0({0, 1}, <<<<0, 1>>>>, 0, 0, {})
        /\ P = [c \in Cos |-> IoIdle] /\ n = [c \in Cos |-> 0] /\ g = G0

Bytes(c, k) == [i \in 1 .. k |-> 10 * (c + 1) + g.cnt[c] + i]
Menu(c) ==
  {<<"put", <<c, 2, 0>>, Bytes(c, 2)>>, <<"wrn", <<c, 2, 0>>, Bytes(c, 2)>>, <<"shut", <<c, 0, 0>>, << >>>>, <<"cl", <<c, 0, 0>>, << >>>>,
   <<"get", <<c, 1, 0>>, << >>>>, <<"get", <<c, 3, 0>>, << >>>>, <<"rdn", <<c, 2, 0>>, << >>>>}

Call(c) ==
  /\ P[c].ph = "idle" /\ n[c] < Calls
  /\ \E m \in Menu(c) :
       /\ P' = [P EXCEPT ![c] = IoCall(m[1], m[2], m[3])]
       /\ g' = [g EXCEPT !.cnt[c] = @ + Len(m[3]), !.shut[c] = @ \/ m[1] \in {"shut", "cl"}]
  /\ n' = [n EXCEPT ![c] = @ + 1] /\ UNCHANGED w

Go(c) == \E y \in IoStep(P[c], w) : w' = y.w /\ P' = [P EXCEPT ![c] = y.p] /\ UNCHANGED <<n, g>>

Fault(c) ==
  /\ Faults /\ P[c].ph = "run" /\ P[c].fault = 0
  /\ P' = [P EXCEPT ![c].fault = 5] /\ g' = [g EXCEPT !.faulty = TRUE] /\ UNCHANGED <<w, n>>

Ret(c) ==
  /\ P[c].ph = "done"
  /\ LET p == P[c]
     IN g' = CASE p.op \in {"put", "wrn"} -> [g EXCEPT !.sent[c] = IF p.r > 0 THEN @ \o First(p.d, p.r) ELSE @,
                                                      !.unsure[c] = @ \/ (p.op = "wrn" /\ p.r < 0)]
              [] p.op \in {"get", "rdn"} -> [g EXCEPT !.got[c] = IF p.r > 0 THEN @ \o p.got ELSE @,
                                                      !.lostr[c] = @ \/ (p.op = "rdn" /\ p.r < 0),
                                                      !.ended[c] = @ \/ p.r = 0,
                                                      !.badend = @ \/ (p.r = 0 /\ ~g.lostr[c] /\ ~g.unsure[1 - c] /\ P[1 - c].op \notin {"put", "wrn"}
                                                                        /\ ~w.K[0].dirty /\ g.got[c] # g.sent[1 - c])]
              [] OTHER -> g
  /\ P' = [P EXCEPT ![c] = IoIdle] /\ UNCHANGED <<w, n>>

Next == \E c \in Cos : Call(c) \/ Go(c) \/ Fault(c) \/ Ret(c)
Spec == Init /\ [][Next]_vars

IsPrefix(a, b) == Len(a) <= Len(b) /\ First(b, Len(a)) = a
\* Everything a coroutine has tried to write so far, and has not been told that it was not written
Offered(c) == g.sent[c] \o (IF P[c].op \in {"put", "wrn"} THEN P[c].d ELSE << >>)
\* What is read is what was written, in order, nothing twice, nothing missing in between
Stream == \A c \in Cos : ~g.unsure[1 - c] /\ ~g.lostr[c] => IsPrefix(g.got[c], Offered(1 - c))
\* No byte is read which has not been written
Genuine == \A c \in Cos : \A i \in 1 .. Len(g.got[c]) : g.got[c][i] \div 10 = 2 - c
\* The end is reported only after the other side has ended its stream, and after all of it
EndIsEnd == ~g.badend /\ \A c \in Cos : g.ended[c] => g.shut[1 - c]
\* An operation which has been told an error reports it
FaultSeen == \A c \in Cos : P[c].ph = "done" /\ P[c].fault # 0 => P[c].r = -1
\* Nobody waits for what is there
NoStall == \A c \in Cos : P[c].ph = "run" /\ P[c].op \in {"get", "rdn"} /\ w.S[c].k = "conn" /\ w.K[0].q[2 - c] # << >> => IoStep(P[c], w) # {}

Inv == Stream /\ Genuine /\ EndIsEnd /\ FaultSeen /\ NoStall
=============================================================================
