-------------------------------- MODULE IfMC --------------------------------
(* The bus accounting of Iface against an explicitly recorded waveform, for   *)
(* every sequence of bursts on a small bus; and, as assumptions, the facts    *)
(* about inversion, frame and truth tables the interface relies on.           *)
EXTENDS Iface, TLC, IOUtils

BW == atoi(IOEnv.BW)        \* lines
TMAX == atoi(IOEnv.TMAX)    \* beats
LB == atoi(IOEnv.LB)        \* longest burst

VARIABLES b, hist, now, idle, asked
vars == <<b, hist, now, idle, asked>>
Levels == SUBSET (0..(BW - 1))
Init == /\ idle \in {{}, 0..(BW - 1)} /\ b = BusNew(BW, idle) /\ hist = <<>> /\ now = 0 /\ asked = <<0, 0, 0, 0, 0>>
\* hist: the levels of every beat driven or known to be idle so far
Load == \E n \in 1..LB : \E w \in [1..n -> Levels] :
  /\ Len(hist) <= now /\ now + n <= TMAX
  /\ b' = BusLoad(b, now, w)
  /\ hist' = hist \o [i \in 1..(now - Len(hist)) |-> idle] \o w
  /\ UNCHANGED <<now, idle, asked>>
Tick == now < TMAX /\ now' = now + 1 /\ UNCHANGED <<b, hist, idle, asked>>
Look == \* asking does not depend on when it was asked before
  /\ b' = BusTo(b, now) /\ asked' = BusStat(b, now) /\ UNCHANGED <<hist, now, idle>>
Next == Load \/ Tick \/ Look
Spec == Init /\ [][Next]_vars

At(i) == IF i = 0 THEN idle ELSE IF i <= Len(hist) THEN hist[i] ELSE idle
RECURSIVE Sum(_, _)
Sum(i, n) == IF i > n THEN <<0, 0, 0, 0, 0>>
  ELSE LET x == At(i) p == At(i - 1) o == Cardinality(x) f == Cardinality(p \ x) r == Cardinality(x \ p)
       IN Add5(<<o, BW - o, f + r, f, r>>, Sum(i + 1, n))
Waveform == \A T \in now..(TMAX + 1) : BusStat(b, T) = Sum(1, T)
Conserved == \A T \in now..TMAX : LET s == BusStat(b, T) IN s[1] + s[2] = BW * T
EdgesBalance == \A T \in now..TMAX : LET s == BusStat(b, T) IN s[3] = s[4] + s[5] /\ s[4] - s[5] \in (-BW)..BW
Asked == asked[1] <= BusStat(b, now)[1] /\ asked[3] <= BusStat(b, now)[3]

\* ---------------------------------------------------------------- inversion
Byte == 0..255
\* after inversion at most half of the lines of a group leave the idle level, and the data can be recovered
ASSUME \A hi \in BOOLEAN : \A x \in Byte :
  LET fl == Flags(<<x>>, 1, hi)  y == Transmitted(<<x>>, 1, fl)[1]  away == IF hi THEN 8 - Ones8(y) ELSE Ones8(y)
  IN /\ away <= 4
     /\ (IF fl[1] THEN 255 - y ELSE y) = x
     /\ fl[1] => away < (IF hi THEN 8 - Ones8(x) ELSE Ones8(x))
\* bytes are representatives of their population
Rep == {0, 1, 3, 7, 15, 31, 63, 127, 255, 170}
ASSUME \A x, y \in Rep :
  LET fl == Flags(<<x, y>>, 2, FALSE)  z == Transmitted(<<x, y>>, 2, fl)
  IN Ones8(z[1]) + Ones8(z[2]) <= 8 /\ (fl[1] <=> Ones8(x) + Ones8(y) > 8)

\* ---------------------------------------------------------------- frame
Cells == (0..23) \X (0..11)
PayloadCells == {x \in Cells : ~(x[2] \in Special /\ (x[1] \in 8..11 \/ x[1] \in 20..23))}
ASSUME Cardinality(PayloadCells) = 256
ASSUME {PayloadIdx(x[1], x[2]) : x \in PayloadCells} = 0..255   \* every payload bit has its own place

\* ---------------------------------------------------------------- truth tables
Cfgs == {[std |-> "DDR4", m |-> [NB |-> 16, NBG |-> 4]], [std |-> "DDR5", m |-> [NB |-> 16, NBG |-> 4]], [std |-> "LPDDR4", m |-> [NB |-> 8, NBG |-> 1]],
         [std |-> "LPDDR5", m |-> [NB |-> 16, NBG |-> 4]], [std |-> "LPDDR5", m |-> [NB |-> 16, NBG |-> 1]], [std |-> "LPDDR5", m |-> [NB |-> 8, NBG |-> 1]],
         [std |-> "LPDDR6", m |-> [NB |-> 16, NBG |-> 4]]}
AllCmd == {"ACT", "PRE", "PREA", "PRESB", "REFA", "REFB", "REFSB", "REFP2B", "REFDB", "RD", "RDA", "WR", "WRA", "SREFEN", "SREFEX", "DSMEN", "DSMEX", "PDEA", "PDEP", "PDXA", "PDXP"}
\* commands that are the same on the bus
Same == {{"PDEA", "PDEP"}, {"PDXA", "PDXP"}, {"SREFEX", "PDXA"}, {"SREFEX", "PDXP"}, {"SREFEX", "DSMEX"}, {"DSMEX", "PDXA"}, {"DSMEX", "PDXP"}, {"REFB", "REFP2B"}}
SameDDR4 == {{a, z} : a, z \in {"PDEA", "PDEP", "PDXA", "PDXP"}} \cup {{"REFA", "SREFEN"}}   \* differ in CKE or in timing only
Fixed(p, i, lv) == i <= Len(p) /\ p[i] = lv
Distinct(p, q) == \E i \in 1..Len(p) : (Fixed(p, i, L) /\ Fixed(q, i, H)) \/ (Fixed(p, i, H) /\ Fixed(q, i, L))
ASSUME \A c \in Cfgs : \A a \in AllCmd : Len(Pattern(c.std, c.m, a)) % CmdWidth(c.std) = 0
ASSUME \A c \in Cfgs : \A a, z \in AllCmd :
  LET p == Pattern(c.std, c.m, a)  q == Pattern(c.std, c.m, z)
  IN \/ a = z \/ p = <<>> \/ q = <<>> \/ {a, z} \in Same \/ (c.std = "DDR4" /\ {a, z} \in SameDDR4)
     \/ c.std = "DDR4" /\ "SREFEX" \in {a, z}       \* starts with a deselected beat
     \/ c.std = "LPDDR6" /\ {a, z} \cap {"PDXA", "PDXP"} /= {}   \* only chip select
     \/ Distinct(p, q)
=============================================================================
