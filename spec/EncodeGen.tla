------------------------------ MODULE EncodeGen ------------------------------
(* Random descriptions, addresses and chosen levels with the words they make. *)
EXTENDS Encode, TLC, Json, IOUtils
STEPS == atoi(IOEnv.STEPS)
VARIABLES st, tr, done
vars == <<st, tr, done>>
R(A) == RandomElement(A)
Names == {"ACT", "RD", "PRE", "NOP"}
Desc(z) == \* address bits as often as the others together
  LET k == R({"L", "H", "V", "X", "AP", "BL", "CID", "BG", "BA", "BA", "C", "C", "C", "R", "R"}) k2 == R({k, "C", "R"})
  IN TLCEval(<<k2, R(0..MaxIx(k2))>>)
Pat(n) == TLCEval([i \in 1..n |-> Desc(i)])
Lens == {1, 2, 6, 14, 27, 28, 40, 63, 64}
Adr(z) == [ba |-> R({0, 1, R(0..511)}), bg |-> R(0..7), row |-> R({R(0..262143), 262143, 0, R(0..2000000)}), col |-> R({R(0..131071), 131071, R(0..1000000)})]
Bits(n) == TLCEval([i \in 1..n |-> R({0, 1})])
Fr(z) == TLCEval(R({<<"V", 0>>, <<"X", 0>>, <<"AP", 0>>, <<"BL", 0>>, <<"CID", R(0..3)>>, <<"C", R({0, 1, 2, 3, 4, 10})>>}))
RECURSIVE Set0(_, _)
Set0(c, n) == IF n = 0 THEN c ELSE Set0(Choose1(c, Fr(n), R(Choices)), n - 1)
Init == st = <<>> /\ tr = <<>> /\ done = FALSE
Begin == st = <<>> /\ \E c \in {Set0(<<>>, R(0..6))}, w \in {Bits(64)} :
           st' = [c |-> c, last |-> w, reg |-> [n \in Names |-> <<>>]] /\ tr' = <<<<"new", c, w>>>>
Reg == \E n \in {R(Names)}, p \in {Pat(R(Lens))} : st' = [st EXCEPT !.reg[n] = p] /\ tr' = Append(tr, <<"reg", n, p>>)
Say(op, p, a) == \E w \in {Word(p, a, st.c, st.last)} : st' = [st EXCEPT !.last = w] /\ tr' = Append(tr, op \o <<a.ba, a.bg, a.row, a.col, w>>)
Do(k) ==
  CASE k <= 2 -> Reg
    [] k <= 6 -> \E p \in {Pat(R(Lens))}, a \in {Adr(k)} : Say(<<"enc", p>>, p, a)
    [] k <= 10 -> \E n \in {R(Names)}, a \in {Adr(k)} :
         IF st.reg[n] = <<>> THEN tr' = Append(tr, <<"word", n, a.ba, a.bg, a.row, a.col, "none">>) /\ st' = st
         ELSE Say(<<"word", n>>, st.reg[n], a)
    [] k = 11 -> \E x \in {Fr(k)}, l \in {R(Choices)} : tr' = Append(tr, <<"set", x, l>>) /\ st' = [st EXCEPT !.c = Choose1(@, x, l)]
    [] k = 12 -> \E x \in {Fr(k)} : tr' = Append(tr, <<"unset", x, IF Level(st.c, x) = "none" THEN 0 ELSE 1>>) /\ st' = [st EXCEPT !.c = Drop(@, x)]
    [] k = 13 -> \E x \in {Fr(k)} : tr' = Append(tr, <<"level", x, Level(st.c, x)>>) /\ st' = st
    [] OTHER -> tr' = Append(tr, <<"ser", 1>>) /\ st' = st
Step == ~done /\ st /= <<>> /\ Len(tr) < STEPS /\ UNCHANGED done /\ \E k \in {R(1..14)} : Do(k)
Finish == ~done /\ Len(tr) >= STEPS /\ PrintT(ToJson([kind |-> "encode", ops |-> tr])) /\ done' = TRUE /\ UNCHANGED <<st, tr>>
Next == (Begin /\ UNCHANGED done) \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
