------------------------------- MODULE CoreMC -------------------------------
(* Exhaustive check of Core on small instances against a second, independent *)
(* reading of the properties: a clock that advances cycle by cycle and       *)
(* ghost variables that record, per cycle and per command, what the          *)
(* properties talk about.  Core itself only keeps intervals and a queue.     *)
EXTENDS Core, FiniteSets, TLC, IOUtils

STD == IOEnv.STD                        \* standard whose command set is used
TMAX == atoi(IOEnv.TMAX)                \* last cycle
NRK == atoi(IOEnv.NRK)
NBG == atoi(IOEnv.NBG)
BPG == atoi(IOEnv.BPG)
SLOW == IOEnv.SLOW                      \* "1": longer durations than the gaps between commands
CPC == atoi(IOEnv.CPC)                  \* commands per rank and cycle
CM == IOEnv.CM                          \* "all" or a subset name

D == [std |-> STD, nr |-> NRK, nb |-> NBG * BPG, nbg |-> NBG, bpg |-> BPG,
      tRAS |-> IF SLOW = "1" THEN 4 ELSE 2, tRP |-> 1, tRCD |-> IF SLOW = "1" THEN 2 ELSE 1,
      tRFC |-> IF SLOW = "1" THEN 3 ELSE 2, tRFCp |-> IF SLOW = "1" THEN 2 ELSE 1,
      offRD |-> 1, offWR |-> IF SLOW = "1" THEN 3 ELSE 2, ptn |-> 1, arch |-> "BG"]
Rk == 1..D.nr
Bk == 1..D.nb

VARIABLES S, now,
          iso,     \* per rank: the same memory, given only this rank's commands
          cyc,     \* ghost: per rank <<per bank six cycle counters, rank's six cycle counters>>
          cnt,     \* ghost: per rank and bank, commands that covered the bank
          row,     \* ghost: per rank and bank, "" or the kind of occupation
          till,    \* ghost: per rank and bank, end of the occupation if known (else -1)
          mode,    \* ghost: per rank, power state from the current cycle on
          sw,      \* ghost: per rank, pending power switches: sequence of <<cycle, new mode>>
          done,    \* ghost: per rank, everything begun so far completes at this cycle
          used     \* commands given to each rank in this cycle
vars == <<S, now, iso, cyc, cnt, row, till, mode, sw, done, used>>

Z6 == <<0,0,0,0,0,0>>
Init == /\ S = CoreNew(D) /\ now = 0 /\ iso = [r \in Rk |-> CoreNew(D)]
        /\ cyc = [r \in Rk |-> [b |-> [b \in Bk |-> Z6], r |-> Z6]]
        /\ cnt = [r \in Rk |-> [b \in Bk |-> <<0,0,0,0,0,0,0,0,0,0,0>>]]
        /\ row = [r \in Rk |-> [b \in Bk |-> ""]] /\ till = [r \in Rk |-> [b \in Bk |-> -1]]
        /\ mode = [r \in Rk |-> "IDLE"] /\ sw = [r \in Rk |-> <<>>] /\ done = [r \in Rk |-> 0] /\ used = [r \in Rk |-> 0]

\* ---------------------------------------------------------------- ghost reading of the commands
Cover(c, b) == CASE c \in {"PREA", "REFA", "SREFEN"} -> Bk
                 [] c \in {"PRESB", "REFSB"} -> {x \in Bk : x % D.bpg = b % D.bpg}
                 [] c \in {"REFP2B", "REFDB"} -> {b, IF b <= D.ptn THEN b + D.ptn ELSE b - D.ptn}
                 [] c \in {"ACT", "PRE", "RD", "WR", "RDA", "WRA", "REFB"} -> {b}
                 [] OTHER -> {}
Slot(c) == CASE c = "ACT" -> 1 [] c = "RD" -> 3 [] c = "WR" -> 4 [] c \in {"REFA", "SREFEN"} -> 5 [] c = "REFB" -> 6
             [] c = "REFP2B" -> 7 [] c = "REFDB" -> 8 [] c = "REFSB" -> 9 [] c = "RDA" -> 10 [] c = "WRA" -> 11 [] OTHER -> 0
IsRef(c) == c \in {"REFA", "SREFEN", "REFB", "REFP2B", "REFDB", "REFSB"}
IsPre(c) == c \in {"PRE", "PREA", "PRESB"}
RefTime(c) == IF c \in {"REFA", "SREFEN"} THEN D.tRFC ELSE D.tRFCp
\* occupations of rank r that end now
Ends(r) == {b \in Bk : till[r][b] = now}

\* the state of a bank in the cycle that starts now (everything due has happened)
ModeNow(r) == mode[r]
Col(r, open) == CASE ModeNow(r) = "PDA" -> 3 [] ModeNow(r) = "PDP" -> 4 [] ModeNow(r) = "SREF" -> 5
                  [] ModeNow(r) = "DSM" -> 6 [] OTHER -> IF open THEN 1 ELSE 2

\* ---------------------------------------------------------------- steps
\* All completions due in this cycle, on the ghost side.  Settled: nothing left to do.
Settled(r) == Ends(r) = {} /\ (IF sw[r] = <<>> THEN TRUE ELSE sw[r][1][1] > now)
Settle(r) ==
  /\ ~Settled(r)
  /\ IF Ends(r) # {} THEN
        /\ row' = [row EXCEPT ![r] = [b \in Bk |-> IF b \in Ends(r) THEN "" ELSE @[b]]]
        /\ till' = [till EXCEPT ![r] = [b \in Bk |-> IF b \in Ends(r) THEN -1 ELSE @[b]]]
        /\ cnt' = [cnt EXCEPT ![r] = [b \in Bk |-> IF b \in Ends(r) /\ row[r][b] = "row" THEN [@[b] EXCEPT ![2] = @ + 1] ELSE @[b]]]
        /\ done' = [done EXCEPT ![r] = IF \E b \in Ends(r) : row[r][b] = "row" THEN MaxI(@, now + D.tRP) ELSE @]
        /\ UNCHANGED <<mode, sw>>
     ELSE /\ mode' = [mode EXCEPT ![r] = sw[r][1][2]]
          /\ sw' = [sw EXCEPT ![r] = Tail(@)]
          /\ UNCHANGED <<row, till, cnt, done>>
  /\ UNCHANGED <<S, now, iso, cyc, used>>
AllSettled == \A r \in Rk : Settled(r)

Tick ==
  /\ now < TMAX /\ AllSettled
  /\ cyc' = [r \in Rk |-> [b |-> [b \in Bk |-> [cyc[r].b[b] EXCEPT ![Col(r, row[r][b] # "")] = @ + 1]],
                           r |-> [cyc[r].r EXCEPT ![Col(r, \E b \in Bk : row[r][b] # "")] = @ + 1]]]
  /\ now' = now + 1 /\ used' = [r \in Rk |-> 0]
  /\ UNCHANGED <<S, iso, cnt, row, till, mode, sw, done>>

Allowed == (IF D.nb < 2 THEN CmdsOf(D) \ {"REFP2B", "REFDB"} ELSE CmdsOf(D)) \cap
           CASE CM = "all" -> CmdsOf(D)
             [] CM = "acc" -> {"ACT", "PRE", "PREA", "RDA", "WRA", "PDEA", "PDXA", "PDEP", "PDXP", "RD"}
             [] CM = "ref" -> {"ACT", "PREA", "REFA", "REFB", "REFSB", "PRESB", "REFP2B", "REFDB", "PDEP", "PDXP", "WRA"} \cap CmdsOf(D)
             [] CM = "low" -> {"ACT", "PRE", "RDA", "SREFEN", "SREFEX", "DSMEN", "DSMEX", "PDEP", "PDXP", "PDEA", "PDXA"} \cap CmdsOf(D)

Issue(c, r, b) ==
  /\ now < TMAX /\ AllSettled /\ used[r] < CPC
  /\ used' = [used EXCEPT ![r] = @ + 1]
  /\ LET S1 == Run(D, S, now)
     IN /\ Legal(D, S1, c, r, b, now)
        /\ S' = Cmd(D, S, c, r, b, now)
        /\ iso' = [iso EXCEPT ![r] = Cmd(D, @, c, r, b, now)]
  /\ LET cv == Cover(c, b)
         closing == {x \in cv : IsPre(c) /\ row[r][x] # ""}
         at == S.rk[r].b[b].at
         dl == MaxI(at + D.tRAS, now + (IF c = "RDA" THEN D.offRD ELSE D.offWR))
     IN /\ cnt' = [cnt EXCEPT ![r] = [x \in Bk |->
                     IF x \in closing THEN [@[x] EXCEPT ![2] = @ + 1]
                     ELSE IF x \in cv /\ Slot(c) > 0 THEN [@[x] EXCEPT ![Slot(c)] = @ + 1] ELSE @[x]]]
        /\ row' = [row EXCEPT ![r] = [x \in Bk |-> IF x \in closing THEN "" ELSE IF x \in cv /\ c = "ACT" THEN "row"
                     ELSE IF x \in cv /\ IsRef(c) THEN "ref" ELSE @[x]]]
        /\ till' = [till EXCEPT ![r] = [x \in Bk |-> IF x \in cv /\ c \in {"RDA", "WRA"} THEN dl
                     ELSE IF x \in cv /\ IsRef(c) THEN now + RefTime(c) ELSE @[x]]]
        /\ done' = [done EXCEPT ![r] = MaxI(@, IF c = "ACT" THEN now + D.tRCD ELSE IF closing # {} THEN now + D.tRP
                     ELSE IF IsRef(c) THEN now + RefTime(c) ELSE 0)]
        /\ LET add(tt, md) == /\ sw' = [sw EXCEPT ![r] = Append(@, <<tt, md>>)] /\ UNCHANGED mode
               w == MaxI(now, done[r])
           IN CASE c = "SREFEN" -> add(now + D.tRFC, "SREF")
                [] c = "PDEA" -> add(w, "PDA") [] c = "PDEP" -> add(w, "PDP")
                [] c \in {"PDXA", "PDXP"} -> add(w, "IDLE")
                [] c = "SREFEX" -> mode' = [mode EXCEPT ![r] = "IDLE"] /\ UNCHANGED sw
                [] c = "DSMEN" -> mode' = [mode EXCEPT ![r] = "DSM"] /\ UNCHANGED sw
                [] c = "DSMEX" -> mode' = [mode EXCEPT ![r] = "SREF"] /\ UNCHANGED sw
                [] OTHER -> UNCHANGED <<mode, sw>>
  /\ UNCHANGED <<now, cyc>>

Next == \/ Tick
        \/ \E r \in Rk : Settle(r)
        \/ \E c \in Allowed, r \in Rk, b \in Bk : (c \in {"PREA", "REFA", "SREFEN", "SREFEX", "DSMEN", "DSMEX", "PDEA", "PDEP", "PDXA", "PDXP"} => b = 1) /\ Issue(c, r, b)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- the properties
L == Look(D, S, now)
Sum6(x) == x[1] + x[2] + x[3] + x[4] + x[5] + x[6]
\* C01: counts
Counts == AllSettled => \A r \in Rk, b \in Bk : BankCnt(L, r, b) = cnt[r][b]
\* C02: partition into states, equal to the per-cycle definition
Partition == \A r \in Rk : /\ Sum6(RankCyc(L, r, now)) = now
                           /\ \A b \in Bk : Sum6(BankCyc(L, r, b, now)) = now
NonNegative == \A r \in Rk : \A i \in 1..6 : RankCyc(L, r, now)[i] >= 0 /\ \A b \in Bk : BankCyc(L, r, b, now)[i] >= 0
PerCycle == \A r \in Rk : /\ RankCyc(L, r, now) = cyc[r].r
                          /\ \A b \in Bk : BankCyc(L, r, b, now) = cyc[r].b[b]
\* C03-C06: who is open, and in which power state each rank is
Occupied == AllSettled => \A r \in Rk, b \in Bk : L.rk[r].b[b].o <=> row[r][b] # ""
PowerState == AllSettled => \A r \in Rk : L.rk[r].st = mode[r]
\* C07: looking earlier changes nothing
QueryTransparent == \A d1 \in 0..3, d2 \in {3, 7} : Run(D, Run(D, S, now + d1), now + d2) = Run(D, S, now + d2)
\* C08: a rank alone behaves the same
RankAlone == \A r \in Rk : Look(D, iso[r], now).rk[r] = L.rk[r]
\* C20: nothing pending is exactly when the state is complete in the ranks
QueueSorted == \A i, j \in DOMAIN S.q : i < j => S.q[i].t <= S.q[j].t
Monotone == [][\A r \in Rk, b \in Bk, k \in 1..11 : S'.rk[r].b[b].c[k] >= S.rk[r].b[b].c[k]]_vars
=============================================================================
