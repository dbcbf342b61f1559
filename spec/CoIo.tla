-------------------------------- MODULE CoIo --------------------------------
(* Data transferred by coroutines: connections, listening sockets, files,  *)
(* datagrams.                                                              *)
(*                                                                         *)
(* A connection has two sides; q[i] are the bytes on their way from side i *)
(* to the other one.  An endpoint (slot) is a side of a connection or an   *)
(* open file with a position.  What an operation returns is left open      *)
(* where the system leaves it open: a transfer may move less than it was   *)
(* asked for, but at least one byte.  That the system had to be asked      *)
(* several times, because it would have blocked or was interrupted, is     *)
(* never visible.                                                          *)
EXTENDS Integers, Sequences, FiniteSets

Closed == [k |-> "closed", c |-> 0, i |-> 0, pos |-> 0]
NoSlot == [k |-> "none", c |-> 0, i |-> 0, pos |-> 0]
Side(c, i) == [k |-> "conn", c |-> c, i |-> i, pos |-> 0]
Dgram == [k |-> "dgram", c |-> 0, i |-> 0, pos |-> 0]
OpenFile(f) == [k |-> "file", c |-> f, i |-> 0, pos |-> 0]
Conn0 == [q |-> <<<< >>, << >>>>, shut |-> <<FALSE, FALSE>>, closed |-> <<FALSE, FALSE>>, dirty |-> FALSE]

\* pairs: sequence of <<slot, slot>>; a connection made by connect is named by the slot it was made for
\* dgrams: the slots which are sockets for datagrams; D: what has been sent to them, with the sender's slot
World0(slots, pairs, nl, nf, dgrams) ==
  [S |-> [s \in slots |-> IF \E p \in 1 .. Len(pairs) : pairs[p][1] = s THEN Side(s, 1)
                          ELSE IF \E p \in 1 .. Len(pairs) : pairs[p][2] = s
                          THEN Side(pairs[CHOOSE p \in 1 .. Len(pairs) : pairs[p][2] = s][1], 2)
                          ELSE IF s \in dgrams THEN Dgram ELSE NoSlot],
   D |-> [s \in slots |-> << >>],
   K |-> [s \in slots |-> Conn0],
   B |-> [l \in 0 .. nl - 1 |-> << >>],
   F |-> [f \in 0 .. nf - 1 |-> << >>]]

(* A pending operation: a what it is about, d the bytes it is to write,    *)
(* got the bytes it has read, n how many it has moved, ph run / done,      *)
(* r its result, fault: the system has reported this error to it           *)
IoIdle == [op |-> "none", a |-> <<0, 0, 0>>, d |-> << >>, got |-> << >>, n |-> 0, ph |-> "idle", r |-> 0, fault |-> 0, from |-> -1]
IoCall(op, a, d) == [op |-> op, a |-> a, d |-> d, got |-> << >>, n |-> 0, ph |-> "run", r |-> 0, fault |-> 0, from |-> -1]

Rest(s, k) == SubSeq(s, k + 1, Len(s))
First(s, k) == SubSeq(s, 1, k)
MinOf(a, b) == IF a < b THEN a ELSE b
Zeros(n) == [i \in 1 .. n |-> 0]
\* The contents of a file after x has been written at pos
Put(f, pos, x) ==
  LET g == IF Len(f) < pos THEN f \o Zeros(pos - Len(f)) ELSE f
  IN First(g, pos) \o x \o Rest(g, pos + Len(x))

IoFin(w, p, r) == [w |-> w, p |-> [p EXCEPT !.ph = "done", !.r = r]]

PutStep(p, w) ==
  LET s == w.S[p.a[1]]
      me == s.i
      k == w.K[s.c]
      left == Len(p.d) - p.n
      all == p.op = "wrn"
      Moved(j) == LET w1 == [w EXCEPT !.K[s.c].q[me] = @ \o SubSeq(p.d, p.n + 1, p.n + j)]
                  IN IF ~all THEN IoFin(w1, p, j)
                     ELSE IF j = left THEN IoFin(w1, p, Len(p.d)) ELSE [w |-> w1, p |-> [p EXCEPT !.n = @ + j]]
  IN IF s.k # "conn" THEN {IoFin(w, p, -1)}
     ELSE IF k.closed[3 - me] \/ k.shut[me] THEN {IoFin(w, p, -1)}
     ELSE {Moved(j) : j \in 1 .. left}

GetStep(p, w) ==
  LET s == w.S[p.a[1]]
      me == s.i
      k == w.K[s.c]
      q == k.q[3 - me]
      all == p.op = "rdn"
      left == p.a[2] - p.n
      Moved(j) == LET w1 == IF p.op = "peek" THEN w ELSE [w EXCEPT !.K[s.c].q[3 - me] = Rest(q, j)]
                      p1 == [p EXCEPT !.got = @ \o First(q, j), !.n = @ + j]
                  IN IF ~all THEN IoFin(w1, p1, j) ELSE IF j = left THEN IoFin(w1, p1, p.a[2]) ELSE [w |-> w1, p |-> p1]
  IN IF s.k # "conn" THEN {IoFin(w, p, -1)}
     ELSE (IF q # << >> THEN {Moved(j) : j \in 1 .. MinOf(left, Len(q))}
           \* the end: not before everything has been read
           ELSE IF k.shut[3 - me] \/ k.closed[3 - me] THEN {IoFin(w, p, IF all THEN -1 ELSE 0)} ELSE {})
          \* the other side has not read everything before it was closed
          \cup (IF k.dirty THEN {IoFin(w, p, -1)} ELSE {})

CloseSide(p, w) ==
  LET s == w.S[p.a[1]]
  IN IF s.k = "dgram" THEN {IoFin([w EXCEPT !.S[p.a[1]] = Closed, !.D[p.a[1]] = << >>], p, 0)}
     ELSE IF s.k # "conn" THEN {IoFin(w, p, -1)}
     ELSE {IoFin([w EXCEPT !.S[p.a[1]] = Closed, !.K[s.c].closed[s.i] = TRUE, !.K[s.c].shut[s.i] = TRUE,
                           !.K[s.c].dirty = @ \/ w.K[s.c].q[3 - s.i] # << >>], p, 0)}

\* Datagrams are sent and received as a whole; what the receiver has no room for is lost
DgramStep(p, w) ==
  LET me == p.a[1]
      x == Head(w.D[me])
      n == MinOf(Len(x.d), p.a[2])
  IN IF w.S[me].k # "dgram" THEN {IoFin(w, p, -1)}
     ELSE IF p.op = "gput"
     THEN IF w.S[p.a[3]].k # "dgram" THEN {IoFin(w, p, -1)}
          ELSE {IoFin([w EXCEPT !.D[p.a[3]] = Append(@, [from |-> me, d |-> p.d])], p, Len(p.d))}
     ELSE IF w.D[me] = << >> THEN {}
     ELSE {IoFin(IF p.op = "gpeek" THEN w ELSE [w EXCEPT !.D[me] = Tail(@)], [p EXCEPT !.got = First(x.d, n), !.from = x.from], n)}

FileStep(p, w) ==
  LET s == w.S[p.a[1]]
      f == w.F[s.c]
      n == p.a[2]
      Read(j) == IoFin([w EXCEPT !.S[p.a[1]].pos = @ + j], [p EXCEPT !.got = SubSeq(f, s.pos + 1, s.pos + j)], j)
      Written(j) == IoFin([w EXCEPT !.S[p.a[1]].pos = @ + j, !.F[s.c] = Put(f, s.pos, First(p.d, j))], p, j)
      to == CASE p.a[3] = 0 -> n [] p.a[3] = 1 -> s.pos + n [] OTHER -> Len(f) + n
  IN CASE p.op = "fopen" -> {IoFin([w EXCEPT !.S[p.a[2]] = OpenFile(p.a[1])], p, 0)}
       [] s.k # "file"   -> {IoFin(w, p, -1)}
       [] p.op = "frd"   -> IF s.pos >= Len(f) THEN {IoFin(w, p, 0)} ELSE {Read(j) : j \in 1 .. MinOf(n, Len(f) - s.pos)}
       [] p.op = "fwr"   -> {Written(j) : j \in 1 .. Len(p.d)}
       [] p.op = "seek"  -> IF to < 0 THEN {IoFin(w, p, -1)} ELSE {IoFin([w EXCEPT !.S[p.a[1]].pos = to], p, to)}
       [] p.op = "trunc" -> {IoFin([w EXCEPT !.F[s.c] = IF Len(f) > n THEN First(f, n) ELSE f \o Zeros(n - Len(f))], p, 0)}
       [] p.op = "fsize" -> {IoFin(w, p, Len(f))}
       [] p.op = "fcl"   -> {IoFin([w EXCEPT !.S[p.a[1]] = Closed], p, 0)}

FileOps == {"fopen", "frd", "fwr", "seek", "trunc", "fsize", "fcl"}

IoStep(p, w) ==
  IF p.ph # "run" THEN {}
  ELSE IF p.fault # 0 THEN \* what has been moved before the error may be accounted for after it
    {IoFin(w, p, -1)} \cup (IF p.op \in {"wrn", "rdn"} THEN {y \in (IF p.op = "wrn" THEN PutStep(p, w) ELSE GetStep(p, w)) : y.p.ph = "run"} ELSE {})
  ELSE CASE p.op \in {"put", "wrn"} -> PutStep(p, w)
         [] p.op \in {"get", "rdn", "peek"} -> GetStep(p, w)
         [] p.op \in {"gput", "gget", "gpeek"} -> DgramStep(p, w)
         [] p.op = "shut" -> LET s == w.S[p.a[1]]
                             IN IF s.k # "conn" \/ w.K[s.c].closed[3 - s.i] THEN {IoFin(w, p, -1), IoFin(w, p, 0)}
                                ELSE {IoFin([w EXCEPT !.K[s.c].shut[s.i] = TRUE], p, 0)}
         [] p.op = "cl"   -> CloseSide(p, w)
         [] p.op = "connect" ->
              IF p.a[1] \notin DOMAIN w.B THEN {IoFin([w EXCEPT !.S[p.a[2]] = Closed], p, -1)}
              ELSE {IoFin([w EXCEPT !.B[p.a[1]] = Append(@, p.a[2]), !.S[p.a[2]] = Side(p.a[2], 1)], p, 0)}
         [] p.op = "accept" ->
              IF w.B[p.a[1]] = << >> THEN {}
              ELSE {IoFin([w EXCEPT !.B[p.a[1]] = Tail(@), !.S[p.a[2]] = Side(Head(w.B[p.a[1]]), 2)], p, 0)}
         [] p.op \in FileOps -> FileStep(p, w)

IoRest(P, w) == \A c \in DOMAIN P : P[c].ph # "done" /\ IoStep(P[c], w) = {}
=============================================================================
