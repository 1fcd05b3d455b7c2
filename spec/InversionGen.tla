----------------------------- MODULE InversionGen -----------------------------
(* Generates histories of an inversion unit with what has to be observed.      *)
EXTENDS Inversion, TLC, Json, IOUtils
STEPS == atoi(IOEnv.STEPS)
VARIABLES u, tr, now, pc
vars == <<u, tr, now, pc>>
R(A) == RandomElement(A)
W(q) == q[RandomElement(DOMAIN q)]
Bits(n) == LET k == R(1..6) IN
  CASE k = 1 -> TLCEval([i \in 1..n |-> 1]) [] k = 2 -> TLCEval([i \in 1..n |-> 0])
    [] k = 3 -> LET a == R(0..15) IN TLCEval([i \in 1..n |-> IF i % 16 < a THEN 1 ELSE 0])
    [] OTHER -> TLCEval([i \in 1..n |-> R({0, 1})])
Max(a, b) == IF a > b THEN a ELSE b
End(v) == Max(Max(v.r.end, v.x.end), now)
Setup ==
  /\ pc = "cfg" /\ pc' = "run" /\ now' = 0
  /\ \E dyn \in {R({0, 1})}, sub \in {R({1, 2})}, idle \in {W(<<"L", "L", "L", "H", "H", "H", "Z">>)}, pins \in {W(<<0, 1, 1, 2, 2, 3, 4>>)}, bl \in {R({1, 4, 8, 16})}, on \in {W(<<0, 1, 1>>)} :
       /\ u' = NewDbi(dyn = 1, 8 * sub, 4 * sub, idle, pins * 8 * sub, bl, on = 1)
       /\ tr' = <<<<"dbi", dyn, sub, idle, pins * 8 * sub, bl, on>>>>
Put(o, v, t) == tr' = tr \o o /\ u' = v /\ now' = t /\ UNCHANGED pc
Stat(v) == <<Bit(v.on), IF v.w = 0 THEN -1 ELSE Cpw(v), IF v.r.init THEN v.r.end ELSE -1, IF v.x.init THEN v.x.end ELSE -1, v.r.n * (v.cs \div 8), v.x.n * (v.cs \div 8)>>
Step == pc = "run" /\ Len(tr) < STEPS /\
  \E k \in {R(1..14)}, g \in {W(<<0, 0, 0, 1, 1, 2, 5, 40>>)}, n \in {W(<<1, 1, 2, 2, 3, 4, 8, 16>>)}, rd \in {W(<<TRUE, TRUE, FALSE>>)}, e \in {R({0, 1, 1})} :
    CASE k <= 8 -> \E t \in {IF k < 5 /\ Dir(u, rd).init /\ Dir(u, rd).end >= now /\ Dir(u, rd).end >= Dir(u, ~rd).end THEN Dir(u, rd).end ELSE End(u) + g}, q \in {Bits(n * (IF u.w = 0 THEN u.cs ELSE u.w))} :
           IF Works(u) THEN LET b == Burst(u, t, q, rd) IN Put(<<<<"dup", t, q, Bit(rd), <<b.out, b.tells>>>>>>, TLCEval(b.u), t)
           ELSE Put(<<<<"dup", t, q, Bit(rd), <<<<>>, <<>>>>>>>>, u, t)
      [] k = 9 -> Put(<<<<"den", e>>>>, [u EXCEPT !.on = e = 1], now)
      [] k = 10 -> LET t == now + g  b == EndAll(u, t) IN Put(<<<<"drst", t, b.tells>>>>, TLCEval(b.u), t)
      [] k = 11 -> Put(<<<<"dser", 1>>>>, u, now)
      [] k = 12 /\ u.any -> Put(<<<<"dinv", Dir(u, u.rd).out>>>>, u, now)
      [] OTHER -> Put(<<<<"dst", Stat(u)>>>>, u, now)
Init == u = NewDbi(FALSE, 8, 4, "L", 8, 8, TRUE) /\ tr = <<>> /\ now = 0 /\ pc = "cfg"
Finish == pc = "run" /\ Len(tr) >= STEPS /\ pc' = "end" /\ UNCHANGED <<u, tr, now>> /\ PrintT(ToJson([kind |-> "dbi", ops |-> tr]))
Next == Setup \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
