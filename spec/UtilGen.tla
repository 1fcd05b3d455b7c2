------------------------------ MODULE UtilGen ------------------------------
(* Generates histories of one component with what has to be observed. *)
EXTENDS Util, TLC, Json, IOUtils

PROFILE == IOEnv.PROFILE      \* bits, sub, interval, queue, names, dyn, stat, settings
STEPS == atoi(IOEnv.STEPS)

VARIABLES st, kind, tr, now, pc
vars == <<st, kind, tr, now, pc>>
R(A) == RandomElement(A)
Bit(z) == R({0, 1})
BitSeq(n) == TLCEval([i \in 1..n |-> Bit(i)])
\* few or many ones as well as random
Word(n) == LET k == R(1..6) IN
  CASE k = 1 -> TLCEval([i \in 1..n |-> 1]) [] k = 2 -> TLCEval([i \in 1..n |-> 0])
    [] k = 3 -> TLCEval([i \in 1..n |-> IF i = n THEN 1 ELSE 0]) [] k = 4 -> TLCEval([i \in 1..n |-> IF R(1..8) = 1 THEN 1 ELSE 0])
    [] OTHER -> BitSeq(n)

-----------------------------------------------------------------------------
Sizes == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 34, 62, 63, 64, 65, 66, 67, 99, 127, 128, 129, 130}
SubMax == CASE kind = "sub8" -> 8 [] kind = "sub13" -> 13 [] kind = "sub64" -> 64 [] kind = "sub70" -> 70 [] OTHER -> 0
SubSizes == {n \in Sizes \cup {10, 11, 13, 70} : n <= SubMax}
IsSub == PROFILE = "sub"
Dump(r, b) == <<"d", r - 1, <<b, BvCount(b), BvStr(b)>>>>
BitsStep ==
  \E k \in {R(IF IsSub THEN 4..24 ELSE 1..24)}, r \in {R(1..4)}, s \in {R(1..4)}, n \in {R(IF IsSub THEN SubSizes ELSE Sizes)}, w \in {Word(R({1, 4, 8, 33, 63, 64, 64}))}, x \in {Bit(now)} :
    LET a == st[r]  b == st[s]
        same == {i \in 1..4 : Len(st[i]) = Len(a)}
        put(o, v) == tr' = tr \o <<o, Dump(r, v)>> /\ st' = [st EXCEPT ![r] = v]
    IN CASE k <= 3 -> put(<<"push", r - 1, x>>, Append(a, x))
         [] k \in {4, 5} -> put(<<"newv", r - 1, n, w>>, BvVal(n, w))
         [] k = 6 -> put(<<"new", r - 1, n>>, BvNew(n))
         [] k \in {7, 8} /\ a /= <<>> -> \E i \in {R(DOMAIN a)} : put(<<"set", r - 1, i - 1, x>>, [a EXCEPT ![i] = x])
         [] k = 9 -> put(<<"setall", r - 1>>, [i \in DOMAIN a |-> 1])
         [] k = 10 -> put(<<"rst", r - 1>>, [i \in DOMAIN a |-> 0])
         [] k = 11 -> put(<<"flip", r - 1>>, BvNot(a))
         [] k = 12 /\ a /= <<>> -> \E i \in {R(DOMAIN a)} : put(<<"flipi", r - 1, i - 1>>, [a EXCEPT ![i] = 1 - @])
         [] k = 13 /\ ~IsSub /\ x = 1 -> put(<<"clear", r - 1>>, <<>>)
         [] k = 14 -> put(<<"copy", r - 1, s - 1>>, b)
         [] k = 15 -> put(<<"not", r - 1, s - 1>>, BvNot(b))
         [] k = 16 -> \E i \in {R(same)}, j \in {R(1..4)} : tr' = tr \o <<<<"xor", j - 1, r - 1, i - 1>>, Dump(j, BvXor(a, st[i]))>> /\ st' = [st EXCEPT ![j] = BvXor(a, st[i])]
         [] k = 17 -> \E i \in {R(same)}, j \in {R(1..4)} : tr' = tr \o <<<<"and", j - 1, r - 1, i - 1>>, Dump(j, BvAnd(a, st[i]))>> /\ st' = [st EXCEPT ![j] = BvAnd(a, st[i])]
         [] k = 18 -> \E i \in {R(same)}, j \in {R(1..4)} : tr' = tr \o <<<<"or", j - 1, r - 1, i - 1>>, Dump(j, BvOr(a, st[i]))>> /\ st' = [st EXCEPT ![j] = BvOr(a, st[i])]
         [] k = 19 -> \E i \in {R(same)}, y \in {R(1..3)} :
              LET v == CASE y = 1 -> BvXor(a, st[i]) [] y = 2 -> BvAnd(a, st[i]) [] OTHER -> BvOr(a, st[i])
              IN put(<<CASE y = 1 -> "xora" [] y = 2 -> "anda" [] OTHER -> "ora", r - 1, i - 1>>, v)
         [] k = 20 -> \E d \in {R({0, 0, 1, 2, 3, 8, 63, 64, 1000})} : tr' = tr \o <<<<"oob", r - 1, Len(a) + d, 1>>, Dump(r, a)>> /\ st' = st
         [] k = 21 -> tr' = Append(tr, <<"eq", r - 1, s - 1, IF a = b THEN 1 ELSE 0>>) /\ st' = st
         [] k = 22 /\ Len(a) <= 64 /\ a /= <<>> ->
              \E y \in {R(1..3)}, i \in {R(DOMAIN a)} :
                LET v == CASE y = 1 -> a [] y = 2 -> [a EXCEPT ![i] = 1 - @] [] OTHER -> BvVal(Len(a), w)
                IN tr' = Append(tr, <<"eqv", r - 1, v, IF v = a THEN 1 ELSE 0>>) /\ st' = st
         [] k = 23 -> \* equal by another way
              tr' = tr \o <<<<"not", s - 1, r - 1>>, <<"flip", s - 1>>, <<"eq", r - 1, s - 1, 1>>, Dump(s, a)>> /\ st' = [st EXCEPT ![s] = a]
         [] k = 24 /\ IsSub -> tr' = Append(tr, <<"big", SubMax + R({1, 2, 100}), 1>>) /\ st' = st
         [] OTHER -> tr' = Append(tr, Dump(r, a)) /\ st' = st

-----------------------------------------------------------------------------
IvQ(c, t) == <<"iv", t, <<c.n, IcAt(c, t), IF c.open THEN 1 ELSE 0, IF ~c.open /\ c.s >= 0 THEN 1 ELSE 0,
                          IF c.s < 0 THEN 0 ELSE c.s, IF c.e < 0 THEN 0 ELSE c.e>>>>
IntervalStep ==
  \E k \in {R(1..12)}, t \in {now + R({0, 0, 1, 2, 3, 7, 100})} :
    LET put(o, v) == tr' = tr \o <<o, IvQ(v, t), IvQ(v, t + R({0, 1, 9}))>> /\ st' = v /\ now' = t
    IN CASE k \in {1, 2} -> put(<<"start", t>>, IcStart(st, t))
         [] k \in {3, 4} -> put(<<"startif", t>>, IcStartIf(st, t))
         [] k \in {5, 6, 7} -> put(<<"close", t, IcClosed(st, t)>>, IcClose(st, t))
         [] k = 8 -> put(<<"reset">>, IcReset(st))
         [] k = 9 -> \E v \in {R({0, 1, 5, 77})} : put(<<"add", v>>, IcAdd(st, v))
         [] k = 10 -> put(<<"ser", R({0, 1})>>, st)
         [] k = 11 -> put(<<"copy">>, st)
         [] OTHER -> IF Len(tr) < 6 THEN put(<<"ctor", t>>, IcStart(IcNew, t))
                     ELSE tr' = tr \o <<IvQ(st, t), IvQ(st, IF now > 3 THEN now - 3 ELSE 0)>> /\ st' = st /\ now' = now

QueueStep ==
  \E k \in {R(1..7)}, t \in {now + R({0, 1, 1, 2, 5, 9})}, many \in {R(1..60)} :
    IF many = 1 THEN                          \* a crowd, due at once or spread out
      \E n \in {R({20, 33, 63, 64, 65, 90, 140})}, w \in {R({0, 1, 3, 40})} : \E D \in {TLCEval([i \in 1..n |-> now + R(0..w)])} :
        /\ tr' = tr \o [i \in 1..n |-> <<"add", D[i], i - 1>>]
        /\ st' = [st EXCEPT !.q = @ \cup {[t |-> D[i], k |-> 1000 * Len(tr) + i, id |-> i - 1, kid |-> <<>>] : i \in 1..n}, !.crowd = @ + n] /\ now' = now
    ELSE IF k <= 4 THEN \E id \in {R(0..99)}, dt \in {R(0..12)}, kid \in {IF R(1..3) = 1 THEN <<R({0, 0, 1, 3, 8}), 100 + R(0..99)>> ELSE <<>>} :
                     tr' = Append(tr, <<"add", now + dt, id>> \o kid)
                     /\ st' = [st EXCEPT !.q = @ \cup {[t |-> now + dt, k |-> 1000 * Len(tr), id |-> id, kid |-> kid]}] /\ now' = now
    ELSE IF k = 7 THEN tr' = Append(tr, <<"move">>) /\ st' = st /\ now' = now
    ELSE LET r == QuRun(st.q, t, <<>>, st.last, 1000 * Len(tr))
         IN /\ tr' = Append(tr, <<"proc", t, <<r.ran, r.last, Cardinality(r.q)>>>>)
            /\ st' = [st EXCEPT !.q = r.q, !.last = r.last] /\ now' = t

Junk(s) == LET k == R(1..14) IN
  CASE k = 1 -> s \o "X" [] k = 2 -> "X" \o s [] k = 3 -> s \o " " [] k = 4 -> " " \o s [] k = 5 -> "" [] k = 6 -> s \o s
    [] k = 7 -> SubSeq(s, 1, Len(s) - 1) [] k = 8 -> SubSeq(s, 2, Len(s)) [] k = 9 -> s \o "A" [] k = 10 -> s \o "B"
    [] k = 11 -> R({"rd", "act", "Act", "REF", "REFDB ", "SREF", "PDE", "PDX", "DSM", "COUNT", "nop", "END_OF", "END_", "_OF_SIMULATION", "REFP2", "PRESBX"})
    [] OTHER -> s
RouteOf(n) == LET S == {i \in DOMAIN st.rt : st.rt[i][1] = n} IN IF S = {} THEN 0 ELSE st.rt[CHOOSE i \in S : \A j \in S : j <= i][2]
NamesStep ==
  \E k \in {R(1..12)}, n \in {R(NameSet)}, s \in {Junk(R(NameSet))}, t \in {R(0..100000)} :
    CASE k = 1 -> tr' = Append(tr, <<"all", Names>>) /\ st' = st
      [] k \in {2, 3} -> tr' = Append(tr, <<"from", s, Read(s)>>) /\ st' = st
      [] k = 4 -> tr' = Append(tr, <<"num", s, NumberOf(s)>>) /\ st' = st
      [] k = 5 -> tr' = Append(tr, <<"data", s, IF Carries(s) THEN 1 ELSE 0>>) /\ st' = st
      [] k = 6 -> \E d \in {R({0, 1})} : tr' = Append(tr, <<"router", d, 1>>) /\ st' = [def |-> d, rt |-> <<>>]
      [] k \in {7, 8, 9} /\ st.def >= 0 -> tr' = Append(tr, <<"route", n, t>>) /\ st' = [st EXCEPT !.rt = Append(@, <<n, t>>)]
      [] k \in {10, 11} /\ st.def >= 0 ->
           \E x \in {R({n} \cup {st.rt[i][1] : i \in DOMAIN st.rt})} :
             LET S == {i \in DOMAIN st.rt : st.rt[i][1] = x}
             IN tr' = tr \o <<<<"exec", x, t, IF S /= {} THEN <<RouteOf(x), t>> ELSE IF st.def = 1 THEN <<-1, t>> ELSE <<>>>>>> \o (IF R(1..4) = 1 THEN <<<<"rcopy">>>> ELSE <<>>) /\ st' = st
      [] k = 12 -> \E a \in {R({0, 3, 4, 5})}, v \in {TLCEval([i \in 1..5 |-> R(0..70000)])} :
           tr' = Append(tr, <<"coord", a, v[1], v[2], v[3], v[4], v[5], t, [i \in 1..5 |-> IF i <= a THEN v[i] ELSE 0] \o <<t>>>>) /\ st' = st
      [] OTHER -> tr' = Append(tr, <<"from", n, n>>) /\ st' = st

Hooks == {0, 1, 2, 3, 30, 31, 32, 33, 40, 62, 63}
DynSetup == \E M \in {TLCEval([k \in 0..5 |-> {h \in Hooks : R(1..3) = 1}])} :
  /\ st' = [r |-> <<>>, m |-> M] /\ tr' = [k \in 1..6 |-> <<"mask", k - 1, SetToSeq(M[k - 1])>>]
DynStep ==
  \E k \in {R(1..10)}, e \in {R(0..5)}, v \in {R(0..99)}, h \in {R(Hooks \cup {5, 8, 63, 32})} :
    CASE k <= 2 /\ (~ExHas(st.r, e) \/ v < 20) -> tr' = Append(tr, <<"reg", e, v>>) /\ st' = [st EXCEPT !.r = ExReg(@, [k |-> e, v |-> v, m |-> st.m[e]])]
      [] k = 10 /\ v < 40 -> \E m \in {TLCEval({g \in Hooks : R(1..3) = 1})} :
           tr' = tr \o <<<<"mask", e, SetToSeq(m)>>, <<"reg", e, v>>>> /\ st' = [r |-> ExReg(st.r, [k |-> e, v |-> v, m |-> m]), m |-> [st.m EXCEPT ![e] = m]]
      [] k \in {3, 4} -> tr' = Append(tr, <<"has", e, IF ExHas(st.r, e) THEN 1 ELSE 0>>) /\ st' = st
      [] k = 5 -> /\ tr' = Append(tr, <<"put", e, v, IF ExHas(st.r, e) THEN 2 ELSE 0>>)
                  /\ st' = IF ExHas(st.r, e) THEN [st EXCEPT !.r[ExAt(st.r, e)].v = v] ELSE st
      [] k = 6 -> tr' = Append(tr, <<"get", e, IF ExHas(st.r, e) THEN st.r[ExAt(st.r, e)].v ELSE "none">>) /\ st' = st
      [] k = 7 -> tr' = Append(tr, <<"ser", 1>>) /\ st' = st
      [] OTHER -> tr' = Append(tr, <<"hook", h, ExHook(st.r, h)>>) /\ st' = st

StatMask == [k \in 0..4 |-> CASE k = 0 -> {0} [] k = 1 -> {0, 1} [] k = 2 -> {1, 2} [] k = 3 -> {} [] OTHER -> {2, 32, 63}]
StatSeq == CASE kind = "stat0" -> <<>> [] kind = "stat1" -> <<1>> [] kind = "stat2" -> <<0, 1, 2>> [] kind = "stat3" -> <<4, 2, 0>> [] OTHER -> <<3, 1, 4, 0, 2>>
StatStep ==
  \E k \in {R(1..8)}, e \in {R(0..4)}, v \in {R(0..99)}, h \in {R({0, 1, 2, 3, 32, 63})}, nf \in {R({0, 1, 1, 2})} :
    CASE k <= 1 -> tr' = Append(tr, <<"has", e, IF ExHas(st, e) THEN 1 ELSE 0>>) /\ st' = st
      [] k = 2 -> tr' = Append(tr, <<"put", e, v>>) /\ st' = IF ExHas(st, e) THEN [st EXCEPT ![ExAt(st, e)].v = v] ELSE st
      [] k = 3 -> tr' = Append(tr, <<"get", e, IF ExHas(st, e) THEN st[ExAt(st, e)].v ELSE "none">>) /\ st' = st
      [] OTHER -> tr' = Append(tr, <<"hook", h, nf, IF nf = 0 THEN <<>> ELSE ExHooks(st, h, nf)>>) /\ st' = st

SettingsStep ==
  \E k \in {R(1..10)}, t \in {R(0..100000)}, e \in {R({0, 1})}, a \in {IF R(1..3) = 1 THEN R({0, 1, 255, 256, 65535}) ELSE R(0..65535)}, b \in {R(0..65535)} :
    CASE k = 1 -> tr' = Append(tr, <<"accept", e>>) /\ st' = [st EXCEPT !.acc = e]
      [] k \in {2, 3, 4} -> tr' = tr \o <<<<"enable", t, e, <<st.acc, 1, t, e>>>>, <<"isen", IF st.acc = 1 THEN e ELSE st.en>>>> /\ st' = [st EXCEPT !.en = IF st.acc = 1 THEN e ELSE @]
      [] k = 5 -> tr' = Append(tr, <<"isen", st.en>>) /\ st' = st
      [] k = 6 -> tr' = Append(tr, <<"dser", st.en>>) /\ st' = st
      [] k = 7 -> tr' = Append(tr, <<"mget", st.m>>) /\ st' = st
      [] k = 8 -> tr' = Append(tr, <<"mser", st.m>>) /\ st' = st
      [] OTHER -> tr' = tr \o <<<<"mset", a, b, <<a, b>>>>, <<"mget", <<a, b>>>>>> /\ st' = [st EXCEPT !.m = <<a, b>>]

-----------------------------------------------------------------------------
Init == st = <<>> /\ kind = "" /\ tr = <<>> /\ now = 0 /\ pc = "cfg"
Setup ==
  /\ pc = "cfg" /\ pc' = "run" /\ now' = 0
  /\ kind' = CASE PROFILE = "bits" -> "bits" [] PROFILE = "sub" -> R({"sub8", "sub13", "sub64", "sub70"}) [] PROFILE = "stat" -> R({"stat0", "stat1", "stat2", "stat2", "stat3", "stat4", "stat4"})
               [] OTHER -> PROFILE
  /\ CASE PROFILE \in {"bits", "sub"} -> st' = [i \in 1..4 |-> <<>>] /\ tr' = <<>>
       [] PROFILE = "interval" -> st' = IcNew /\ tr' = <<>>
       [] PROFILE = "queue" -> st' = [q |-> {}, last |-> 0, crowd |-> 0] /\ tr' = <<>>
       [] PROFILE = "names" -> st' = [def |-> -1, rt |-> <<>>] /\ tr' = <<>>
       [] PROFILE = "dyn" -> DynSetup
       [] PROFILE = "settings" -> \E e \in {R({0, 1})} : st' = [acc |-> 1, en |-> e, m |-> <<0, 0>>] /\ tr' = <<<<"dnew", e>>, <<"mnew", 0, 0>>>>
       [] OTHER -> st' = <<>> /\ tr' = <<>>
StatInit == PROFILE = "stat" /\ pc = "run" /\ st = <<>> /\ tr = <<>> /\ StatSeq /= <<>>
Limit == STEPS + (IF PROFILE = "queue" /\ st /= <<>> THEN st.crowd ELSE 0)     \* a crowd counts as nothing
Step ==
  /\ pc = "run" /\ Len(tr) < Limit
  /\ IF StatInit THEN st' = [i \in DOMAIN StatSeq |-> [k |-> StatSeq[i], v |-> 0, m |-> StatMask[StatSeq[i]]]] /\ tr' = Append(tr, <<"has", 0, IF \E i \in DOMAIN StatSeq : StatSeq[i] = 0 THEN 1 ELSE 0>>) /\ now' = now
     ELSE CASE PROFILE \in {"bits", "sub"} -> BitsStep /\ now' = now
            [] PROFILE = "interval" -> IntervalStep
            [] PROFILE = "queue" -> QueueStep
            [] PROFILE = "names" -> NamesStep /\ now' = now
            [] PROFILE = "dyn" -> DynStep /\ now' = now
            [] PROFILE = "stat" -> StatStep /\ now' = now
            [] OTHER -> SettingsStep /\ now' = now
  /\ UNCHANGED <<kind, pc>>
Finish ==
  /\ pc = "run" /\ Len(tr) >= Limit
  /\ PrintT(ToJson([kind |-> kind, ops |-> tr]))
  /\ pc' = "done" /\ UNCHANGED <<st, kind, tr, now>>
Next == Setup \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
