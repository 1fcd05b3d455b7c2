-------------------------------- MODULE Util --------------------------------
(* The components everything else is built from: bit vectors as sequences of  *)
(* bits, interval counters, the queue of deferred commands, names, extension  *)
(* registries, and the pieces of an interface on their own.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

-----------------------------------------------------------------------------
(* bit vectors: a sequence of bits, first is bit 0 *)
BvNew(n) == [i \in 1..n |-> 0]
BvVal(n, v) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]       \* the n low bits of a number
BvNot(b) == [i \in DOMAIN b |-> 1 - b[i]]
BvXor(a, b) == [i \in DOMAIN a |-> (a[i] + b[i]) % 2]
BvAnd(a, b) == [i \in DOMAIN a |-> a[i] * b[i]]
BvOr(a, b) == [i \in DOMAIN a |-> IF a[i] + b[i] > 0 THEN 1 ELSE 0]
BvCount(b) == FoldSeq(LAMBDA x, s : s + x, 0, b)
RECURSIVE BvDigits(_, _)
BvDigits(b, i) == IF i > Len(b) THEN "" ELSE BvDigits(b, i + 1) \o (IF b[i] = 1 THEN "1" ELSE "0")
BvStr(b) == "[" \o BvDigits(b, 1) \o "]"                              \* most significant first

-----------------------------------------------------------------------------
(* interval counters: n cycles counted so far, and the interval begun at s if open *)
IcNew == [n |-> 0, open |-> FALSE, s |-> -1, e |-> -1]
IcStart(c, t) == [c EXCEPT !.open = TRUE, !.s = t, !.e = -1]          \* measuring begins (anew) at t
IcStartIf(c, t) == IF c.open THEN c ELSE IcStart(c, t)
IcClose(c, t) == IF c.open THEN [c EXCEPT !.open = FALSE, !.n = @ + (t - c.s), !.e = t] ELSE c
IcClosed(c, t) == IF c.open THEN t - c.s ELSE 0                        \* what closing reports
IcReset(c) == [c EXCEPT !.open = FALSE, !.s = -1, !.e = -1]
IcAdd(c, v) == [c EXCEPT !.n = @ + v]
IcAt(c, t) == IF c.open /\ t > c.s THEN c.n + (t - c.s) ELSE c.n

-----------------------------------------------------------------------------
(* deferred commands: a set of [t, k, id], k the order of insertion *)
QuDue(q, t) == {x \in q : x.t <= t}
QuFirst(S) == CHOOSE x \in S : \A y \in S : x.t < y.t \/ (x.t = y.t /\ x.k <= y.k)
QuRest(q, t) == {x \in q : x.t > t}
\* A deferred command may defer another (kid = <<delay, id>>) when it takes effect; that one counts as scheduled at that moment
\* (k orders the schedulings) and takes effect in the same advance when it is due.
RECURSIVE QuRun(_, _, _, _, _)
QuRun(q, t, ran, last, k) ==
  IF QuDue(q, t) = {} THEN [q |-> q, ran |-> ran, last |-> last]
  ELSE LET x == QuFirst(QuDue(q, t))
           kid == IF x.kid = <<>> THEN {} ELSE {[t |-> x.t + x.kid[1], k |-> k, id |-> x.kid[2], kid |-> <<>>]}
       IN QuRun((q \ {x}) \cup kid, t, Append(ran, x.id), x.t, k + 1)

-----------------------------------------------------------------------------
(* the commands, in the order of their numbers *)
Names == <<"NOP", "RD", "WR", "RDA", "WRA", "ACT", "PRE", "REFB", "REFP2B", "REFDB", "PRESB", "REFSB", "PREA", "REFA",
           "PDEA", "PDEP", "PDXA", "PDXP", "SREFEN", "SREFEX", "DSMEN", "DSMEX", "END_OF_SIMULATION">>
NameSet == ToSet(Names)
Alias == [x \in {"END"} |-> "END_OF_SIMULATION"]
Read(s) == IF s \in NameSet THEN s ELSE IF s \in DOMAIN Alias THEN Alias[s] ELSE "NOP"
Carries(s) == Read(s) \in {"RD", "WR", "RDA", "WRA"}
NumberOf(s) == (CHOOSE i \in DOMAIN Names : Names[i] = Read(s)) - 1

-----------------------------------------------------------------------------
(* registries: a sequence of registered [k, v, m]: kind, setting, set of hooks, in order of registration *)
ExHas(r, k) == \E i \in DOMAIN r : r[i].k = k
ExAt(r, k) == CHOOSE i \in DOMAIN r : r[i].k = k
\* registered again, it takes the place of the earlier one, which is gone
ExReg(r, x) == Append(SelectSeq(r, LAMBDA y : y.k /= x.k), x)
ExHook(r, h) == LET s == SelectSeq(r, LAMBDA x : h \in x.m) IN [i \in DOMAIN s |-> <<1, s[i].k, s[i].v>>]
\* with several functions per call: each extension in order, each function in order
ExHooks(r, h, nf) == LET s == SelectSeq(r, LAMBDA x : h \in x.m)
  IN [i \in 1..(Len(s) * nf) |-> <<((i - 1) % nf) + 1, s[((i - 1) \div nf) + 1].k, s[((i - 1) \div nf) + 1].v>>]

-----------------------------------------------------------------------------
(* lines of a bus, beat by beat: wave is the levels of every beat the bus was on, in order, *)
(* bits the number of lines; a beat is the set of lines that are high                        *)
(* (used by LinesGen with the accounting of Iface)                                           *)
=============================================================================
