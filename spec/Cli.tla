---------------------------------- MODULE Cli ----------------------------------
(* Command list files: the text of a row and the command it stands for.        *)
EXTENDS Integers, Sequences, TLC

DataCmds == {"RD", "WR", "RDA", "WRA"}
\* command names; END is short for the last one
Names == {"NOP", "RD", "WR", "RDA", "WRA", "ACT", "PRE", "REFB", "REFP2B", "REFDB", "PRESB", "REFSB", "PREA", "REFA", "PDEA", "PDEP", "PDXA", "PDXP", "SREFEN", "SREFEX", "DSMEN", "DSMEX", "END_OF_SIMULATION"}
Meaning(w) == IF w = "END" THEN "END_OF_SIMULATION" ELSE IF w \in Names THEN w ELSE "NOP"

Char(s, i) == SubSeq(s, i, i)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Blank == {" ", "~"}          \* ~ stands for the tab
RECURSIVE Trim(_)
Trim(s) == IF s = "" THEN "" ELSE IF Char(s, 1) \in Blank THEN Trim(SubSeq(s, 2, Len(s)))
           ELSE IF Char(s, Len(s)) \in Blank THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Unlead(_)
Unlead(s) == IF Len(s) > 1 /\ Char(s, 1) = "0" THEN Unlead(SubSeq(s, 2, Len(s))) ELSE s
IsNumber(s) == s # "" /\ \A i \in 1..Len(s) : Char(s, i) \in Digits
\* decimal comparison of unsigned numbers without leading zeros
Order == [d \in Digits |-> CHOOSE n \in 0..9 : ToString(n) = d]
RECURSIVE LexLe(_, _)
LexLe(a, b) == a = "" \/ Order[Char(a, 1)] < Order[Char(b, 1)] \/ (Char(a, 1) = Char(b, 1) /\ LexLe(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b))))
NumLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b))
Largest == "9223372036854775807"
Bad == "malformed"
\* the number written in a field, in canonical form
Number(f) == LET t == Trim(f) IN IF ~IsNumber(t) THEN Bad ELSE LET u == Unlead(t) IN IF NumLe(u, Largest) THEN u ELSE Bad

Hex(c) == LET k == CHOOSE k \in 1..23 : k = 23 \/ SubSeq("0123456789abcdefABCDEF", k, k) = c IN IF k = 23 THEN -1 ELSE IF k <= 16 THEN k - 1 ELSE k - 7
RECURSIVE Bytes(_)
Bytes(s) == IF s = "" THEN <<>> ELSE <<16 * Hex(Char(s, 1)) + Hex(Char(s, 2))>> \o Bytes(SubSeq(s, 3, Len(s)))
\* the bytes written in a data field, if any
Data(f) == LET t == Trim(f)
               h == IF Len(t) >= 2 /\ SubSeq(t, 1, 2) \in {"0x", "0X"} THEN SubSeq(t, 3, Len(t)) ELSE t
           IN IF Len(h) % 2 = 1 \/ \E i \in 1..Len(h) : Hex(Char(h, i)) = -1 THEN <<>> ELSE <<Bytes(h)>>

\* a row is a sequence of fields: time, name, rank, bank group, bank, row, column, data of data commands
Row(f) ==
  IF Len(f) < 7 THEN <<Bad>>
  ELSE LET c == Meaning(Trim(f[2]))
           n == [i \in {1, 3, 4, 5, 6, 7} |-> Number(f[i])]
       IN IF \E i \in DOMAIN n : n[i] = Bad THEN <<Bad>>
          ELSE IF c \notin DataCmds THEN <<c, n[1], n[3], n[4], n[5], n[6], n[7], "none">>
          ELSE IF Len(f) < 8 THEN <<Bad>>
          ELSE LET d == Data(f[8]) IN IF d = <<>> THEN <<Bad>> ELSE <<c, n[1], n[3], n[4], n[5], n[6], n[7], d[1]>>
\* a file stands for its rows' commands in order, or for nothing at all
File(rows) == LET r == TLCEval([i \in DOMAIN rows |-> Row(rows[i])]) IN IF \E i \in DOMAIN r : r[i][1] = Bad THEN <<Bad>> ELSE r
=============================================================================
