---------------------------- MODULE MemSpecDerive ----------------------------
(* How the simulation parameters follow from a memory specification.         *)
(* m is a record of the (raw) fields of the specification that matter here.  *)
EXTENDS Integers, Sequences

Standards == {"DDR4", "DDR5", "LPDDR4", "LPDDR5", "LPDDR6"}

MaxI(a, b) == IF a > b THEN a ELSE b

\* Burst duration in clock cycles
TBurst(std, m) ==
  CASE std \in {"DDR4", "DDR5"} -> m.BL \div m.DR
    [] std = "LPDDR4" -> m.BL \div m.DR
    [] std \in {"LPDDR5", "LPDDR6"} -> m.BL \div (m.DR * m.WCK2CK)

\* Delay from a read (write) command to the start of an automatic precharge
PreOffRD(std, m) ==
  CASE std = "DDR4" -> m.AL + m.RTP
    [] std = "DDR5" -> m.RTP
    [] std = "LPDDR4" -> IF m.BL = 16 THEN m.RTP ELSE 8 + m.RTP
    [] std \in {"LPDDR5", "LPDDR6"} -> TBurst(std, m) + m.RTP
PreOffWR(std, m) ==
  CASE std \in {"DDR4", "DDR5"} -> TBurst(std, m) + m.WL + m.WR
    [] std = "LPDDR4" -> m.WL + (m.BL \div 2) + m.WR + 1
    [] std \in {"LPDDR5", "LPDDR6"} -> m.WL + TBurst(std, m) + 1 + m.WR

\* All-bank refresh time: the refresh mode selects among the given ones.
TRFC(std, m) ==
  CASE std = "DDR4" -> (CASE m.REFM = 2 -> m.RFC2 [] m.REFM = 4 -> m.RFC4 [] OTHER -> m.RFC)
    [] std = "DDR5" -> (IF m.REFM = 2 THEN m.RFC2 ELSE m.RFC)
    [] OTHER -> m.RFC

\* LPDDR5 bank architecture
BankArch(m) ==
  CASE m.NB = 16 /\ m.NBG <= 1 -> "16B"
    [] m.NB = 16 /\ m.NBG = 4 -> "BG"
    [] m.NB = 8 /\ m.NBG <= 1 -> "8B"
    [] OTHER -> "16B"

\* The organisation <<banks, bank groups>> a description stands for: LPDDR5 knows 16|1 (also written 16|0), 16|4 and 8|1
\* (also 8|0); anything else is announced as invalid and read as 16 banks without bank groups.
Organisation(std, g) ==
  IF std = "LPDDR5" /\ ~(g[1] = 16 /\ g[2] \in {0, 1, 4}) /\ ~(g[1] = 8 /\ g[2] \in {0, 1}) THEN <<16, 1>> ELSE g

\* an LPDDR5 memory as described, and as it is read
Lp5Org(g) == LET o == Organisation("LPDDR5", g) IN [NB |-> o[1], NBG |-> o[2], GIVEN |-> g]

\* Minimum activate-to-access time relevant for entering power-down
TRCD(std, m) == IF std = "LPDDR6" THEN MaxI(m.RCD, m.RCD2) ELSE m.RCD

Derive(std, m) ==
  [ std |-> std, nr |-> m.NR, nb |-> m.NB, nbg |-> m.NBG,
    bpg |-> IF m.NBG = 0 THEN m.NB ELSE m.NB \div m.NBG,
    tRAS |-> m.RAS, tRP |-> m.RP, tRCD |-> TRCD(std, m),
    tRFC |-> TRFC(std, m), tRFCp |-> m.RFCp,
    offRD |-> PreOffRD(std, m), offWR |-> PreOffWR(std, m),
    ptn |-> 8,          \* distance to the partner bank of a two-bank or dual-bank refresh
     arch |-> IF std = "LPDDR5" THEN BankArch(m) ELSE "none" ]
=============================================================================
