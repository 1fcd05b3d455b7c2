------------------------------- MODULE Inversion -------------------------------
(* A data bus inversion unit on its own.  A beat is divided into chunks, one    *)
(* inversion line each.  The static rule keeps the majority of a chunk at the   *)
(* idle level; the dynamic rule inverts a chunk when more than a given number   *)
(* of its lines would toggle against the beat before it - the last beat of a    *)
(* burst that ended at that very time, or the idle level.  After a burst that   *)
(* is not followed at once the inversion lines go back to rest.                 *)
EXTENDS Naturals, Sequences, Integers

\* u: [dyn, cs (bits of a chunk), th (threshold), idle, w (lines, 0: unknown), bl (beats of a burst if w = 0), on,
\*     r, x: last read and last write burst [init, end, n (chunks), fl (inverted?), out (bits as transferred)], rd (the last one was a read)]
NoBurst == [init |-> FALSE, end |-> 0, n |-> 0, fl |-> <<>>, out |-> <<>>]
NewDbi(dyn, cs, th, idle, w, bl, on) ==
  [dyn |-> dyn, cs |-> cs, th |-> th, idle |-> idle, w |-> w, bl |-> bl, on |-> on, r |-> NoBurst, x |-> NoBurst, rd |-> FALSE, any |-> FALSE]
Dir(u, rd) == IF rd THEN u.r ELSE u.x
SetDir(u, rd, b) == IF rd THEN [u EXCEPT !.r = b] ELSE [u EXCEPT !.x = b]
Cpw(u) == u.w \div u.cs             \* inversion lines
Chunk(u, q, c) == SubSeq(q, (c - 1) * u.cs + 1, c * u.cs)
RECURSIVE Ones(_), Diff(_, _)
Ones(q) == IF q = <<>> THEN 0 ELSE Head(q) + Ones(Tail(q))
Diff(p, q) == IF p = <<>> THEN 0 ELSE (IF Head(p) # Head(q) THEN 1 ELSE 0) + Diff(Tail(p), Tail(q))
Flip(q) == [i \in DOMAIN q |-> 1 - q[i]]

\* chunk after chunk; prev: the bits of the beat before
Inverts(u, chunk, before) ==
  IF ~u.dyn THEN LET o == Ones(chunk) IN IF u.idle = "L" THEN 2 * o > u.cs ELSE 2 * o < u.cs
  ELSE u.w > 0 /\ Diff(chunk, before) > u.th
RECURSIVE Run(_, _, _, _, _)
\* returns <<flags, bits>>; done: bits transferred so far, the beat before the burst in front if the width is known
Run(u, q, c, fl, done) ==
  IF (c - 1) * u.cs = Len(q) THEN <<fl, done>>
  ELSE LET ch == Chunk(u, q, c)
           before == IF u.w = 0 THEN <<>> ELSE SubSeq(done, Len(done) - u.w + 1, Len(done) - u.w + u.cs)
           i == Inverts(u, ch, before)
       IN Run(u, q, c + 1, Append(fl, i), done \o (IF i THEN Flip(ch) ELSE ch))
IdleBeat(u) == [i \in 1..u.w |-> IF u.idle = "H" THEN 1 ELSE 0]
Pin(u, c) == IF u.w = 0 THEN c - 1 ELSE (c - 1) % Cpw(u)
Bit(b) == IF b THEN 1 ELSE 0

\* the lines of a direction go back to rest when time t comes: what is told, and the direction afterwards
RECURSIVE Rest(_, _, _, _, _)
Rest(u, b, c, t, rd) ==
  IF c > b.n THEN <<>>
  ELSE (IF b.fl[c] THEN <<<<t, b.end, Pin(u, c), 0, Bit(rd)>>>> ELSE <<>>) \o Rest(u, b, c + 1, t, rd)
First(u, b) == IF u.w = 0 THEN 1 ELSE b.n - Cpw(u) + 1
ResetTells(u, t, rd) == LET b == Dir(u, rd) IN IF ~b.init \/ t <= b.end THEN <<>> ELSE Rest(u, b, First(u, b), t, rd)
Resets(u, t, rd) ==
  LET b == Dir(u, rd) IN IF ~b.init \/ t <= b.end THEN u
  ELSE SetDir(u, rd, [b EXCEPT !.fl = [c \in DOMAIN b.fl |-> IF c >= First(u, b) THEN FALSE ELSE b.fl[c]]])

Works(u) == u.on /\ u.idle # "Z"
\* a burst q at t: what is told, in order, and what is transferred
Burst(u, t, q, rd) ==
  LET v == Resets(u, t, rd)  b == Dir(v, rd)
      front == IF u.w = 0 THEN <<>> ELSE IF b.init /\ b.end = t THEN SubSeq(b.out, Len(b.out) - u.w + 1, Len(b.out)) ELSE IdleBeat(u)
      z == Run(v, q, 1, <<>>, front)
      fl == z[1]  out == SubSeq(z[2], Len(front) + 1, Len(z[2]))
      n == Len(q) \div u.cs
      beat(c) == IF u.w = 0 THEN t ELSE t + (c - 1) \div Cpw(u)
  IN [u |-> [SetDir(v, rd, [init |-> TRUE, end |-> IF u.w = 0 THEN t + u.bl ELSE t + Len(q) \div u.w, n |-> n, fl |-> fl, out |-> out]) EXCEPT !.rd = rd, !.any = TRUE],
      tells |-> ResetTells(u, t, rd) \o [c \in 1..n |-> <<t, beat(c), Pin(u, c), Bit(fl[c]), Bit(rd)>>],
      out |-> out]
EndAll(u, t) == [u |-> Resets(Resets(u, t, TRUE), t, FALSE), tells |-> ResetTells(u, t, TRUE) \o ResetTells(u, t, FALSE)]
=============================================================================
