------------------------------ MODULE ReportGen ------------------------------
(* Random records with what their reports, sums, comparisons and totals are. *)
EXTENDS Report, Json, IOUtils
STEPS == atoi(IOEnv.STEPS)
PROFILE == IOEnv.PROFILE
VARIABLES tr, done
vars == <<tr, done>>
R(A) == RandomElement(A)
Num(z) == R({0, 1, R(0..9), R(0..1000), R(0..1000000000)})
RECURSIVE Val(_, _)
Val(t, z) ==
  IF t = "num" THEN Num(z)
  ELSE IF IsList(t) THEN TLCEval([i \in 1..R(0..z[1]) |-> Val(Elem(t), z)])
  ELSE TLCEval([f \in FieldSet(t) |-> Val(Sub(t, f), z)])
New(t) == Val(t, <<R(0..3)>>)
Small(t) == IF t \in {"einfo", "energy", "ifinfo", "side"} THEN TRUE ELSE FALSE
AddOp(t) == \E a \in {New(t)}, b \in {New(t)} : tr' = Append(tr, <<"add", t, a, b, Add(t, a, b)>>)
EqOp(t) ==
  \E a \in {New(t)} :
    \E k \in {R({"same", "leaf", "leaf", "leaf", "other", "shorter"})} :
      CASE k = "same" -> tr' = Append(tr, <<"eq", t, a, a, 1>>)
        [] k = "leaf" -> \E p \in {R(Leaves(t, a))} : tr' = Append(tr, <<"eq", t, a, Bump(t, a, p, 1), 0>>)
        [] k = "shorter" /\ t = "sim" -> \E f \in {R({"bank", "rank_total"})} :
             IF Len(a[f]) = 0 THEN tr' = Append(tr, <<"eq", t, a, a, 1>>)
             ELSE \E b \in {[a EXCEPT ![f] = SubSeq(@, 1, Len(@) - 1)]} : tr' = Append(tr, IF R(1..2) = 1 THEN <<"eq", t, a, b, 0>> ELSE <<"eq", t, b, a, 0>>)
        [] OTHER -> \E b \in {New(t)} : tr' = Append(tr, <<"eq", t, a, b, IF a = b THEN 1 ELSE 0>>)
\* totals small enough to be computed here
RECURSIVE Cut(_, _)
Cut(t, v) ==
  IF t = "num" THEN v % 1000
  ELSE IF IsList(t) THEN [i \in DOMAIN v |-> Cut(Elem(t), v[i])]
  ELSE TLCEval([f \in FieldSet(t) |-> Cut(Sub(t, f), v[f])])
TotOp(t) == \E a \in {Cut(t, New(t))} : tr' = Append(tr, <<"total", t, a, Total(t, a)>>)
AggOp(z) == \E a \in {Cut("energy", New("energy"))} : tr' = Append(tr, <<"agg", a, AggShared(a)>>)
Init == tr = <<>> /\ done = FALSE
Do(k) ==
  CASE k = "json" -> \E t \in {R(Types \ {"side"})} : \E a \in {New(t)} : tr' = Append(tr, <<"json", t, a, a>>)
    [] k = "read" -> \E t \in {R(CanRead)} : \E a \in {New(t)} : tr' = Append(tr, <<"read", t, a, a>>)
    [] k = "add" -> \E t \in {R(CanAdd)} : AddOp(t)
    [] k = "eq" -> \E t \in {R(CanEq)} : EqOp(t)
    [] k = "ser" -> \E t \in {R(CanSave)} : \E a \in {New(t)} : tr' = Append(tr, <<"ser", t, a, a>>)
    [] k = "mul" -> \E a \in {Cut("bus", New("bus"))}, n \in {R(0..1000)} : tr' = Append(tr, <<"mul", a, n, Times(a, n)>>)
    [] k = "total" -> \E t \in {R({"einfo", "energy", "ifinfo"})} : TotOp(t)
    [] OTHER -> AggOp(1)
Step == ~done /\ Len(tr) < STEPS /\ UNCHANGED done
        /\ \E k \in {IF PROFILE = "sums" THEN R({"total", "agg", "add"}) ELSE R({"json", "json", "read", "add", "add", "eq", "eq", "ser", "mul", "total", "agg"})} : Do(k)
Finish == ~done /\ Len(tr) >= STEPS /\ PrintT(ToJson([kind |-> "records", ops |-> tr])) /\ done' = TRUE /\ UNCHANGED tr
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
