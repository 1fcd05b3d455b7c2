-------------------------------- MODULE Report --------------------------------
(* The published records: what they contain, under which names they are      *)
(* reported, when two are equal, what their sum and their totals are.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fields(t) ==
  CASE t = "bus" -> <<"ones", "zeroes", "bit_changes", "ones_to_zeroes", "zeroes_to_ones">>
    [] t = "cmd" -> <<"act", "pre", "reads", "writes", "refAllBank", "refPerBank", "refPerTwoBanks", "refDualBanks", "refSameBank", "readAuto", "writeAuto">>
    [] t = "cyc" -> <<"act", "pre", "powerDownAct", "powerDownPre", "selfRefresh", "deepSleepMode">>
    [] t = "prepos" -> <<"readMerged", "readMergedTime", "writeMerged", "writeMergedTime", "readSeamless", "writeSeamless">>
    [] t = "einfo" -> <<"ACT", "PRE", "BG_ACT", "BG_PRE", "RD", "WR", "RDA", "WRA", "PRE_RDA", "PRE_WRA", "REF_AB", "REF_PB", "REF_SB", "REF_2B", "REF_DB">>
    [] t = "side" -> <<"dynamicEnergy", "staticEnergy">>
    \* records of records
    [] t = "cs" -> <<"counter", "cycles", "prepos">>
    [] t = "tog" -> <<"read", "write">>
    [] t = "sim" -> <<"commandBus", "readBus", "writeBus", "clockStats", "wClockStats", "readDBI", "writeDBI", "togglingStats", "readDQSStats", "writeDQSStats", "bank", "rank_total">>
    [] t = "energy" -> <<"E_bg_act_shared", "E_PDNA", "E_PDNP", "E_sref", "E_dsm", "E_refab", "BankEnergy">>
    [] t = "ifinfo" -> <<"controller", "dram">>
FieldSet(t) == {Fields(t)[i] : i \in 1..Len(Fields(t))}
\* type of a field; <<t>> is a list of t
Sub(t, f) ==
  CASE t = "cs" -> (CASE f = "counter" -> "cmd" [] f = "cycles" -> "cyc" [] OTHER -> "prepos")
    [] t = "tog" -> "bus"
    [] t = "ifinfo" -> "side"
    [] t = "sim" -> (CASE f \in {"bank", "rank_total"} -> "list cs" [] f = "togglingStats" -> "tog" [] OTHER -> "bus")
    [] t = "energy" -> IF f = "BankEnergy" THEN "list einfo" ELSE "num"
    [] OTHER -> "num"
Elem(t) == IF t = "list cs" THEN "cs" ELSE "einfo"
IsList(t) == t \in {"list cs", "list einfo"}
Types == {"bus", "cmd", "cyc", "prepos", "einfo", "side", "cs", "tog", "sim", "energy", "ifinfo"}

\* sums: every component; lists are as long as the longer one
RECURSIVE Add(_, _, _)
Add(t, a, b) ==
  IF t = "num" THEN a + b
  ELSE IF IsList(t) THEN [i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |->
                            IF i > Len(a) THEN b[i] ELSE IF i > Len(b) THEN a[i] ELSE Add(Elem(t), a[i], b[i])]
  ELSE TLCEval([f \in FieldSet(t) |-> Add(Sub(t, f), a[f], b[f])])
Times(a, k) == [f \in FieldSet("bus") |-> a[f] * k]
CanAdd == {"bus", "cmd", "cyc", "prepos", "cs", "sim", "einfo", "side", "ifinfo"}
CanEq == {"bus", "cmd", "cyc", "prepos", "cs", "sim"}
CanSave == {"bus", "cmd", "cyc", "prepos", "cs"}
CanRead == {"bus", "cmd", "cyc", "prepos", "cs", "tog", "sim"}       \* from a report
CanMul == {"bus"}

\* totals: automatic precharges are part of the precharges
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
BankTot(e) == LET F == Fields("einfo") IN SumSeq([i \in 1..13 |-> e[F[IF i <= 8 THEN i ELSE i + 2]]])
Zero(t) == [f \in FieldSet(t) |-> 0]
RECURSIVE Agg(_)
Agg(l) == IF l = <<>> THEN Zero("einfo") ELSE Add("einfo", Head(l), Agg(Tail(l)))
Total(t, e) ==
  CASE t = "einfo" -> BankTot(e)
    [] t = "energy" -> BankTot(Agg(e.BankEnergy)) + SumSeq([i \in 1..6 |-> e[Fields("energy")[i]]])
    [] t = "ifinfo" -> e.controller.dynamicEnergy + e.controller.staticEnergy + e.dram.dynamicEnergy + e.dram.staticEnergy
AggShared(e) == LET a == Agg(e.BankEnergy) IN [a EXCEPT !.BG_ACT = @ + e.E_bg_act_shared]

-----------------------------------------------------------------------------
\* leaves, to change exactly one
RECURSIVE Leaves(_, _)
Leaves(t, v) ==
  IF t = "num" THEN {<<>>}
  ELSE IF IsList(t) THEN UNION {{<<i>> \o p : p \in Leaves(Elem(t), v[i])} : i \in DOMAIN v}
  ELSE UNION {{<<f>> \o p : p \in Leaves(Sub(t, f), v[f])} : f \in FieldSet(t)}
RECURSIVE Bump(_, _, _, _)
Bump(t, v, p, d) ==
  IF p = <<>> THEN v + d
  ELSE IF IsList(t) THEN [v EXCEPT ![p[1]] = Bump(Elem(t), @, Tail(p), d)]
  ELSE [v EXCEPT ![p[1]] = Bump(Sub(t, p[1]), @, Tail(p), d)]
=============================================================================
