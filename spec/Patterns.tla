------------------------------ MODULE Patterns ------------------------------
(* The command truth tables: what every command drives on the command bus.   *)
(* A pattern lists what the lines carry, highest line first, beat after      *)
(* beat; DescBit says which level that is for a given command.               *)
EXTENDS Integers, Sequences

L == <<"L", 0>>   H == <<"H", 0>>   V == <<"V", 0>>   X == <<"X", 0>>
LOCAL r(i) == <<"R", i>>
LOCAL c(i) == <<"C", i>>
LOCAL ba(i) == <<"BA", i>>
LOCAL bg(i) == <<"BG", i>>
LOCAL cid(i) == <<"CID", i>>
LOCAL dbg(i) == <<"DBG", i>>
BLbit == <<"BL", 0>>   PAR == <<"PAR", 0>>   SC == <<"SC", 0>>
LOCAL rep(d, n) == [i \in 1..n |-> d]

\* ---------------------------------------------------------------- DDR4
\* ACT_n CS_n RAS_n/A16 CAS_n/A15 WE_n/A14 BG BA ... ; 27 lines
LOCAL b4 == <<bg(0), bg(1), ba(0), ba(1)>>
LOCAL col4 == <<c(0), c(1), c(2), c(3), c(4), c(5), c(6), c(7), c(8), c(9)>>
P4(ty) ==
  CASE ty = "ACT" -> <<L, L, r(16), r(15), r(14)>> \o b4 \o rep(V, 3) \o
                     <<r(12), r(17), r(13), r(11), r(10), r(0), r(1), r(2), r(3), r(4), r(5), r(6), r(7), r(8), r(9)>>
    [] ty = "PRE"  -> <<L, H, L, H, L>> \o b4 \o rep(V, 7) \o <<L>> \o rep(V, 10)
    [] ty = "PREA" -> <<L, H, L, H, L>> \o rep(V, 4) \o rep(V, 7) \o <<H>> \o rep(V, 10)
    [] ty = "REFA" -> <<L, H, L, L, H>> \o rep(V, 22)
    [] ty = "RD"   -> <<L, H, H, L, H>> \o b4 \o rep(V, 7) \o <<L>> \o col4
    [] ty = "RDA"  -> <<L, H, H, L, H>> \o b4 \o rep(V, 7) \o <<H>> \o col4
    [] ty = "WR"   -> <<L, H, H, L, L>> \o b4 \o rep(V, 7) \o <<L>> \o col4
    [] ty = "WRA"  -> <<L, H, H, L, L>> \o b4 \o rep(V, 7) \o <<H>> \o col4
    [] ty = "SREFEN" -> <<L, H, L, L, H>> \o rep(V, 22)
    [] ty = "SREFEX" -> <<H>> \o rep(X, 26) \o <<L, H, H, H, H>> \o rep(V, 22)
    [] ty \in {"PDEA", "PDEP", "PDXA", "PDXP"} -> <<H>> \o rep(X, 26)
    [] OTHER -> <<>>

\* ---------------------------------------------------------------- DDR5
LOCAL b5 == <<ba(0), ba(1), bg(0), bg(1), bg(2)>>
LOCAL i5 == <<cid(0), cid(1), cid(2)>>
LOCAL c5 == <<c(3), c(4), c(5), c(6), c(7), c(8), c(9), c(10)>>
P5(ty) ==
  CASE ty = "ACT" -> <<L, L, r(0), r(1), r(2), r(3)>> \o b5 \o i5 \o
                     <<r(4), r(5), r(6), r(7), r(8), r(9), r(10), r(11), r(12), r(13), r(14), r(15), r(16), cid(3)>>
    [] ty = "PRE"  -> <<H, H, L, H, H, cid(3)>> \o b5 \o i5
    [] ty = "PRESB" -> <<H, H, L, H, L, cid(3), ba(0), ba(1), V, V, H>> \o i5
    [] ty = "REFSB" -> <<H, H, L, L, H, cid(3), ba(0), ba(1), V, V, H>> \o i5
    [] ty = "REFA" -> <<H, H, L, L, H, cid(3), V, V, V, V, L>> \o i5
    [] ty = "PREA" -> <<H, H, L, H, L, cid(3), V, V, V, V, L>> \o i5
    [] ty = "RD"   -> <<H, L, H, H, H, H>> \o b5 \o i5 \o <<c(2)>> \o c5 \o <<V, H, V, V, cid(3)>>
    [] ty = "RDA"  -> <<H, L, H, H, H, H>> \o b5 \o i5 \o <<c(2)>> \o c5 \o <<V, L, V, V, cid(3)>>
    [] ty = "WR"   -> <<H, L, H, H, L, H>> \o b5 \o i5 \o <<V>> \o c5 \o <<V, H, H, V, cid(3)>>
    [] ty = "WRA"  -> <<H, L, H, H, L, H>> \o b5 \o i5 \o <<V>> \o c5 \o <<V, L, H, V, cid(3)>>
    [] ty = "SREFEN" -> <<H, H, H, L, H, V, V, V, V, H, L, V, V, V>>
    [] ty \in {"SREFEX", "PDXA", "PDXP", "NOP"} -> rep(H, 5) \o rep(V, 9)
    [] ty \in {"PDEA", "PDEP"} -> <<H, H, H, L, H>> \o rep(V, 5) \o <<H, L, V, V>>
    [] OTHER -> <<>>

\* ---------------------------------------------------------------- LPDDR4
LOCAL l4c(ap) == <<ba(0), ba(1), ba(2), V, c(9), ap, L, H, L, L, H, c(8), c(2), c(3), c(4), c(5), c(6), c(7)>>
PL4(ty) ==
  CASE ty = "ACT" -> <<H, L, r(12), r(13), r(14), r(15), ba(0), ba(1), ba(2), r(16), r(10), r(11),
                       r(17), r(18), r(6), r(7), r(8), r(9), r(0), r(1), r(2), r(3), r(4), r(5)>>
    [] ty = "PRE"  -> <<L, L, L, L, H, L, ba(0), ba(1), ba(2), V, V, V>>
    [] ty = "PREA" -> <<L, L, L, L, H, H>> \o rep(V, 6)
    [] ty = "REFB" -> <<L, L, L, H, L, L, ba(0), ba(1), ba(2), V, V, V>>
    [] ty = "REFA" -> <<L, L, L, H, L, H>> \o rep(V, 6)
    [] ty = "RD"   -> <<L, H, L, L, L, BLbit>> \o l4c(L)
    [] ty = "RDA"  -> <<L, H, L, L, L, BLbit>> \o l4c(H)
    [] ty = "WR"   -> <<L, L, H, L, L, BLbit>> \o l4c(L)
    [] ty = "WRA"  -> <<L, L, H, L, L, BLbit>> \o l4c(H)
    [] ty = "SREFEN" -> <<L, L, L, H, H, V>> \o rep(V, 6)
    [] ty = "SREFEX" -> <<L, L, H, L, H, V>> \o rep(V, 6)
    [] OTHER -> <<>>

\* ---------------------------------------------------------------- LPDDR5
\* the bank address lines depend on the bank organisation
LOCAL a5(arch) ==
  CASE arch = "BG" -> <<ba(0), ba(1), bg(0), bg(1)>>
    [] arch = "8B" -> <<ba(0), ba(1), ba(2), V>>
    [] OTHER       -> <<ba(0), ba(1), ba(2), ba(3)>>
LOCAL f5(arch) ==
  IF arch = "BG" THEN <<ba(0), ba(1), bg(0)>> ELSE <<ba(0), ba(1), ba(2)>>
\* with bank groups the group lines keep carrying the group, also for the all-bank commands
\* reads, and only reads, drive the unused line of the 8-bank organisation to a defined level
LOCAL rd5(arch) == IF arch = "8B" THEN <<ba(0), ba(1), ba(2), L>> ELSE a5(arch)
PL5(arch, ty) ==
  CASE ty = "ACT" -> <<H, H, H, r(14), r(15), r(16), r(17)>> \o a5(arch) \o <<r(11), r(12), r(13), H, H, L, r(7), r(8), r(9), r(10),
                       r(0), r(1), r(2), r(3), r(4), r(5), r(6)>>
    [] ty = "PRE"  -> <<L, L, L, H, H, H, H>> \o a5(arch) \o <<V, V, L>>
    [] ty = "PREA" -> <<L, L, L, H, H, H, H, V, V>> \o (IF arch = "BG" THEN <<bg(0), bg(1)>> ELSE <<V, V>>) \o <<V, V, H>>
    [] ty \in {"REFB", "REFP2B"} -> <<L, L, L, H, H, H, L>> \o f5(arch) \o <<V, V, V, L>>
    [] ty = "REFA" -> <<L, L, L, H, H, H, L, V, V>> \o (IF arch = "BG" THEN <<bg(0)>> ELSE <<V>>) \o <<V, V, V, H>>
    [] ty = "RD"   -> <<H, L, L, c(0), c(3), c(4), c(5)>> \o rd5(arch) \o <<c(1), c(2), L>>
    [] ty = "RDA"  -> <<H, L, L, c(0), c(3), c(4), c(5)>> \o rd5(arch) \o <<c(1), c(2), H>>
    [] ty = "WR"   -> <<L, H, H, c(0), c(3), c(4), c(5)>> \o a5(arch) \o <<c(1), c(2), L>>
    [] ty = "WRA"  -> <<L, H, H, c(0), c(3), c(4), c(5)>> \o a5(arch) \o <<c(1), c(2), H>>
    [] ty = "SREFEN" -> <<L, L, L, H, L, H, H>> \o rep(V, 5) \o <<L, L>>
    [] ty \in {"PDEA", "PDEP"} -> <<L, L, L, H, L, H, H>> \o rep(V, 5) \o <<L, H>>
    [] ty = "DSMEN" -> <<L, L, L, H, L, H, H>> \o rep(V, 5) \o <<H, L>>
    [] ty \in {"SREFEX", "PDXA", "PDXP", "DSMEX"} -> <<L, L, L, H, L, H, L>> \o rep(V, 7)
    [] OTHER -> <<>>

\* ---------------------------------------------------------------- LPDDR6
LOCAL b6 == <<ba(0), ba(1), bg(0), bg(1)>>
PL6(ty) ==
  CASE ty = "ACT" -> <<H, H, H, PAR, H, r(15), r(16), SC, r(11), r(12), r(13), r(14)>> \o b6 \o
                     <<H, H, H, PAR, L, r(8), r(9), r(10), r(4), r(5), r(6), r(7), r(0), r(1), r(2), r(3)>>
    [] ty = "RD"   -> <<BLbit, H, L, PAR, c(0), c(1), L, SC, c(2), c(3), c(4), c(5)>> \o b6
    [] ty = "RDA"  -> <<BLbit, H, L, PAR, c(0), c(1), H, SC, c(2), c(3), c(4), c(5)>> \o b6
    [] ty = "WR"   -> <<BLbit, L, H, PAR, c(0), c(1), L, SC, c(2), c(3), c(4), c(5)>> \o b6
    [] ty = "WRA"  -> <<BLbit, L, H, PAR, c(0), c(1), H, SC, c(2), c(3), c(4), c(5)>> \o b6
    [] ty = "PRE"  -> <<L, L, L, PAR, H, H, V, SC, V, V, V, L>> \o b6
    [] ty = "PREA" -> <<L, L, L, PAR, H, H, V, SC, V, V, V, H>> \o rep(X, 4)
    [] ty = "REFDB" -> <<L, L, L, PAR, H, L, L, SC, dbg(0), dbg(1), V, L>> \o b6
    [] ty = "REFA" -> <<L, L, L, PAR, H, L, L, SC, X, X, V, H>> \o rep(X, 4)
    [] ty = "SREFEN" -> <<L, L, L, PAR, L, L, H, H>> \o rep(X, 8)
    [] ty = "SREFEX" -> <<L, L, L, PAR, L, H, H, V>> \o rep(X, 8)
    [] ty = "NOP" -> <<L, L, L, PAR, L, L, L, V>> \o rep(X, 8)
    [] ty \in {"PDEA", "PDEP"} -> <<L, L, L, PAR, L, H, L, V>> \o rep(X, 8)
    [] ty \in {"PDXA", "PDXP"} -> rep(L, 16)
    [] OTHER -> <<>>

Arch5(m) == CASE m.NB = 16 /\ m.NBG = 4 -> "BG" [] m.NB = 8 /\ m.NBG <= 1 -> "8B" [] OTHER -> "16B"
Pattern(std, m, ty) ==
  CASE std = "DDR4" -> P4(ty) [] std = "DDR5" -> P5(ty) [] std = "LPDDR4" -> PL4(ty)
    [] std = "LPDDR5" -> PL5(Arch5(m), ty) [] std = "LPDDR6" -> PL6(ty)

\* ---------------------------------------------------------------- levels
LOCAL Pw == [i \in 0..20 |-> 2^i]
NumBit(x, i) == (x \div Pw[i]) % 2 = 1
\* levels of the lines a standard leaves undefined, and of the stack identifier
DontCare(std) == std \in {"DDR4", "DDR5"}

\* column bits carry the position within the burst: fixed by command and burst length
ColBit(std, x, len, i) ==
  LET rd == x.ty \in {"RD", "RDA"}
      k == NumBit(x.col, i)
  IN CASE std = "DDR4" -> (CASE i > 2 -> k
                             [] rd -> FALSE
                             [] OTHER -> ~(len = 4 /\ i = 2))
       [] std = "DDR5" -> (CASE i = 2 -> ~rd
                             [] i = 3 -> ~rd /\ len /= 8
                             [] i = 10 -> len /= 32 /\ k
                             [] OTHER -> k)
       [] std = "LPDDR4" -> (CASE i \in {2, 3} -> FALSE
                               [] i = 4 -> len /= 32 /\ k
                               [] OTHER -> k)
       [] std = "LPDDR5" -> IF i = 0 THEN len /= 32 /\ k ELSE k
       [] std = "LPDDR6" -> IF i = 0 THEN len = 24 /\ k ELSE k

DescBit(std, m, d, x, len) ==
  CASE d[1] = "L" -> FALSE
    [] d[1] = "H" -> TRUE
    [] d[1] \in {"V", "X"} -> DontCare(std)
    [] d[1] = "CID" -> TRUE
    [] d[1] = "R" -> IF std = "LPDDR4" /\ d[2] = 18 THEN FALSE ELSE NumBit(x.row, d[2])
    [] d[1] = "C" -> ColBit(std, x, len, d[2])
    [] d[1] = "BA" -> NumBit(x.ba, d[2])
    [] d[1] = "BG" -> NumBit(x.bg, d[2])
    [] d[1] = "BL" -> IF std = "LPDDR4" THEN len = 32 ELSE len = 24
    [] d[1] = "DBG" -> NumBit(((x.ba + 8) % 16) \div m.NBG, d[2])  \* group of the partner bank
    [] d[1] \in {"PAR", "SC"} -> FALSE
=============================================================================
