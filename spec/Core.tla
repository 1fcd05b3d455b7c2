-------------------------------- MODULE Core --------------------------------
(* The core (array) side of a simulated memory: banks, ranks, deferred       *)
(* completions, and what getWindowStats reports about them.                  *)
(*                                                                           *)
(* Time is event driven: a command carries its time; every deferred          *)
(* completion (end of refresh, automatic precharge, power-down entry/exit,   *)
(* self-refresh start) sits in a queue ordered by time and takes effect      *)
(* before anything that happens at or after its time.                        *)
(*                                                                           *)
(* All operators are pure functions on a state record                        *)
(*   S = [q: queue, last: time, rk: sequence of ranks]                       *)
(* and D, the derived parameters (MemSpecDerive).                            *)
EXTENDS Integers, Sequences, Interval, MemSpecDerive

\* ---------------------------------------------------------------- state
\* positions of the command counters in bank.c
cACT == 1  cPRE == 2  cRD == 3  cWR == 4  cREFA == 5  cREFB == 6
cREFP2B == 7  cREFDB == 8  cREFSB == 9  cRDA == 10  cWRA == 11

BankNew == [o |-> FALSE,          \* row open or refreshing
            iv |-> IvNew,         \* active time
            at |-> -1,            \* time of the last activation, -1: none
            pt |-> -1,            \* time of the last precharge, -1: none
            re |-> 0,             \* end of the last refresh
            c  |-> <<0,0,0,0,0,0,0,0,0,0,0>>]
RankNew(D) == [st |-> "IDLE",     \* IDLE, PDA, PDP, SREF, DSM
               act |-> IvNew, sref |-> IvNew, pda |-> IvNew,
               pdp |-> IvNew, dsm |-> IvNew,
               b |-> [i \in 1..D.nb |-> BankNew]]
CoreNew(D) == [q |-> <<>>, last |-> 0, rk |-> [i \in 1..D.nr |-> RankNew(D)]]

AnyOpen(rk) == \E i \in DOMAIN rk.b : rk.b[i].o

\* ---------------------------------------------------------------- queue
\* entry: [t: time, k: kind, r: rank, b: bank (0 if n/a)]
RECURSIVE QPos(_, _, _)
QPos(q, t, i) == IF i > Len(q) \/ q[i].t > t THEN i ELSE QPos(q, t, i + 1)
\* behind every entry that is not later
QAdd(q, x) == LET p == QPos(q, x.t, 1)
              IN SubSeq(q, 1, p - 1) \o <<x>> \o SubSeq(q, p, Len(q))

\* ---------------------------------------------------------------- rank activity
\* Called after banks of a rank changed: the rank is active while a bank is.
RankSync(rk, t) ==
  IF rk.st \in {"PDA", "PDP"} THEN rk
  ELSE IF AnyOpen(rk) THEN [rk EXCEPT !.act = IvStartIf(@, t)]
       ELSE [rk EXCEPT !.act = IvClose(@, t)]

\* ---------------------------------------------------------------- precharge
PreBank(b, t) == IF ~b.o THEN b
                 ELSE [b EXCEPT !.o = FALSE, !.iv = IvClose(@, t), !.pt = t,
                                !.c[cPRE] = @ + 1]
PreBanks(rk, BS, t) ==
  RankSync([rk EXCEPT !.b = [i \in DOMAIN rk.b |-> IF i \in BS THEN PreBank(rk.b[i], t) ELSE rk.b[i]]], t)

RefEndBank(b, t) == [b EXCEPT !.o = FALSE, !.iv = IvClose(@, t)]

\* ---------------------------------------------------------------- deferred completions
Fire(D, rk, x) ==
  CASE x.k = "pre"  -> PreBanks(rk, {x.b}, x.t)
    [] x.k = "ref"  -> RankSync([rk EXCEPT !.b[x.b] = RefEndBank(@, x.t)], x.t)
    [] x.k = "sref" -> [rk EXCEPT !.st = "SREF", !.sref = IvStart(@, x.t)]
    [] x.k = "pdae" -> [rk EXCEPT !.st = "PDA", !.pda = IvStart(@, x.t),
                                  !.act = IvClose(@, x.t),
                                  !.b = [i \in DOMAIN rk.b |-> [rk.b[i] EXCEPT !.iv = IvClose(@, x.t)]]]
    [] x.k = "pdax" -> LET b2 == [i \in DOMAIN rk.b |->
                                    IF rk.b[i].o THEN [rk.b[i] EXCEPT !.iv = IvStart(@, x.t)] ELSE rk.b[i]]
                       IN RankSync([rk EXCEPT !.st = "IDLE", !.pda = IvClose(@, x.t), !.b = b2], x.t)
    [] x.k = "pdpe" -> [rk EXCEPT !.st = "PDP", !.pdp = IvStart(@, x.t)]
    [] x.k = "pdpx" -> [rk EXCEPT !.st = "IDLE", !.pdp = IvClose(@, x.t)]

RECURSIVE Run(_, _, _)
\* all deferred completions due at or before t
Run(D, S, t) ==
  IF S.q = <<>> \/ Head(S.q).t > t THEN S
  ELSE LET x == Head(S.q)
       IN Run(D, [q |-> Tail(S.q), last |-> x.t, rk |-> [S.rk EXCEPT ![x.r] = Fire(D, @, x)]], t)

\* ---------------------------------------------------------------- commands
Defer(S, x) == [S EXCEPT !.q = QAdd(@, x)]
RECURSIVE DeferAll(_, _)
DeferAll(S, xs) == IF xs = <<>> THEN S ELSE DeferAll(Defer(S, Head(xs)), Tail(xs))

RECURSIVE MaxOver(_, _, _)
MaxOver(f, i, n) == IF i > n THEN 0 ELSE MaxI(f[i], MaxOver(f, i + 1, n))

\* earliest time at which everything issued to the rank has completed
Earliest(D, rk) ==
  MaxOver([i \in DOMAIN rk.b |->
      MaxI(IF rk.b[i].at < 0 THEN 0 ELSE rk.b[i].at + D.tRCD,
      MaxI(IF rk.b[i].pt < 0 THEN 0 ELSE rk.b[i].pt + D.tRP, rk.b[i].re))], 1, D.nb)

Bump(S, r, b, k) == [S EXCEPT !.rk[r].b[b].c[k] = @ + 1]

\* refresh of one bank
RefBank(b, t, d, k) == [b EXCEPT !.o = TRUE, !.iv = IvStartIf(@, t), !.re = t + d, !.c[k] = @ + 1]
Refresh(S, r, bs, t, d, k) ==
  LET BS == {bs[i] : i \in DOMAIN bs}
      rk1 == [S.rk[r] EXCEPT !.b = [i \in DOMAIN @ |-> IF i \in BS THEN RefBank(@[i], t, d, k) ELSE @[i]]]
      S1 == [S EXCEPT !.rk[r] = RankSync(rk1, t)]
  IN DeferAll(S1, [i \in DOMAIN bs |-> [t |-> t + d, k |-> "ref", r |-> r, b |-> bs[i]]])

AllBanks(D) == [i \in 1..D.nb |-> i]
\* same bank index in every bank group
SameBank(D, b) == [g \in 1..D.nbg |-> (g - 1) * D.bpg + ((b - 1) % D.bpg) + 1]
\* the partner of a two-bank / dual-bank refresh
Partner(D, b) == (((b - 1) + D.ptn) % (2 * D.ptn)) + 1

AutoPre(D, S, r, b, t, off) ==
  Defer(S, [t |-> MaxI(S.rk[r].b[b].at + D.tRAS, t + off), k |-> "pre", r |-> r, b |-> b])

\* r, b: 1-based rank and bank
Exec(D, S, c, r, b, t) ==
  CASE c = "ACT" ->
         LET rk1 == [S.rk[r] EXCEPT !.b[b] = [@ EXCEPT !.o = TRUE, !.iv = IvStart(@, t), !.at = t, !.c[cACT] = @ + 1]]
         IN [S EXCEPT !.rk[r] = RankSync(rk1, t)]
    [] c = "PRE"   -> [S EXCEPT !.rk[r] = PreBanks(@, {b}, t)]
    [] c = "PREA"  -> [S EXCEPT !.rk[r] = PreBanks(@, 1..D.nb, t)]
    [] c = "PRESB" -> [S EXCEPT !.rk[r] = PreBanks(@, {SameBank(D, b)[i] : i \in 1..D.nbg}, t)]
    [] c = "RD"    -> Bump(S, r, b, cRD)
    [] c = "WR"    -> Bump(S, r, b, cWR)
    [] c = "RDA"   -> AutoPre(D, Bump(S, r, b, cRDA), r, b, t, D.offRD)
    [] c = "WRA"   -> AutoPre(D, Bump(S, r, b, cWRA), r, b, t, D.offWR)
    [] c = "REFA"  -> Refresh(S, r, AllBanks(D), t, D.tRFC, cREFA)
    [] c = "REFB"  -> Refresh(S, r, <<b>>, t, D.tRFCp, cREFB)
    [] c = "REFSB" -> Refresh(S, r, SameBank(D, b), t, D.tRFCp, cREFSB)
    [] c = "REFP2B" -> Refresh(S, r, <<b, Partner(D, b)>>, t, D.tRFCp, cREFP2B)
    [] c = "REFDB" -> Refresh(S, r, <<b, Partner(D, b)>>, t, D.tRFCp, cREFDB)
    [] c = "SREFEN" -> Defer(Refresh(S, r, AllBanks(D), t, D.tRFC, cREFA),
                             [t |-> t + D.tRFC, k |-> "sref", r |-> r, b |-> 0])
    [] c = "SREFEX" -> [S EXCEPT !.rk[r] = [@ EXCEPT !.st = "IDLE", !.sref = IvClose(@, t)]]
    [] c = "DSMEN" -> [S EXCEPT !.rk[r] = [@ EXCEPT !.st = "DSM", !.dsm = IvStart(@, t)]]
    [] c = "DSMEX" -> [S EXCEPT !.rk[r] = [@ EXCEPT !.st = "SREF", !.dsm = IvClose(@, t)]]
    [] c \in {"PDEA", "PDEP", "PDXA", "PDXP"} ->
         LET k == CASE c = "PDEA" -> "pdae" [] c = "PDEP" -> "pdpe" [] c = "PDXA" -> "pdax" [] c = "PDXP" -> "pdpx"
         IN Defer(S, [t |-> MaxI(t, Earliest(D, S.rk[r])), k |-> k, r |-> r, b |-> 0])
    [] c \in {"NOP", "END"} -> S

Cmd(D, S, c, r, b, t) ==
  LET S1 == Run(D, S, t)
      S2 == [S1 EXCEPT !.last = MaxI(@, t)]
  IN Exec(D, S2, c, r, b, t)

\* Looking at the statistics at time t only runs what is due.
Look(D, S, t) == Run(D, S, t)

\* ---------------------------------------------------------------- statistics (S already run up to t)
\* cycles: act, pre, pda, pdp, sref, dsm
RankCyc(S, r, t) ==
  LET k == S.rk[r]
      a == IvAt(k.act, t)  d == IvAt(k.dsm, t)  s == IvAt(k.sref, t)
      pa == IvAt(k.pda, t)  pp == IvAt(k.pdp, t)
  IN <<a, t - (a + pa + pp + s), pa, pp, s - d, d>>
BankCyc(S, r, b, t) ==
  LET k == S.rk[r]
      a == IvAt(k.b[b].iv, t)  d == IvAt(k.dsm, t)  s == IvAt(k.sref, t)
      pa == IvAt(k.pda, t)  pp == IvAt(k.pdp, t)
  IN <<a, t - (a + pa + pp + s), pa, pp, s - d, d>>
BankCnt(S, r, b) == S.rk[r].b[b].c

Serializable(S) == S.q = <<>>

\* ---------------------------------------------------------------- which commands exist
CmdsOf(D) ==
  {"ACT", "PRE", "PREA", "RD", "RDA", "WR", "WRA", "REFA", "SREFEN", "SREFEX",
   "PDEA", "PDEP", "PDXA", "PDXP"}
  \cup (CASE D.std = "DDR4" -> {}
          [] D.std = "DDR5" -> {"PRESB", "REFSB"}
          [] D.std = "LPDDR4" -> {"REFB"}
          [] D.std = "LPDDR5" -> {"REFB", "DSMEN", "DSMEX"} \cup (IF D.arch = "8B" THEN {} ELSE {"REFP2B"})
          [] D.std = "LPDDR6" -> {"REFDB"})

\* Protocol legality of command c on (r,b) at time t, in state S run up to t.
\* (What a memory controller may issue; the properties quantify over these.)
Pending(S, r) == {i \in DOMAIN S.q : S.q[i].r = r}
PendK(S, r, K) == \E i \in DOMAIN S.q : S.q[i].r = r /\ S.q[i].k \in K
PendB(S, r, b) == \E i \in DOMAIN S.q : S.q[i].r = r /\ S.q[i].b = b
BankIdle(D, S, r, b, t) ==
  LET x == S.rk[r].b[b] IN ~x.o /\ ~PendB(S, r, b) /\ (x.pt >= 0 => t >= x.pt + D.tRP)
BankRow(S, r, b, t) ==          \* an open row that may be accessed
  LET x == S.rk[r].b[b] IN x.o /\ ~PendB(S, r, b)
NoPD(S, r) == S.rk[r].st = "IDLE" /\ ~PendK(S, r, {"pdae", "pdax", "pdpe", "pdpx", "sref"})
Legal(D, S, c, r, b, t) ==
  LET rk == S.rk[r]
      BSof == IF c \in {"PREA", "REFA", "SREFEN"} THEN 1..D.nb
              ELSE IF c \in {"PRESB", "REFSB"} THEN {SameBank(D, b)[i] : i \in 1..D.nbg}
              ELSE IF c \in {"REFP2B", "REFDB"} THEN {b, Partner(D, b)} ELSE {b}
  IN CASE c \in {"NOP", "END"} -> TRUE
       [] c = "ACT" -> NoPD(S, r) /\ BankIdle(D, S, r, b, t)
       [] c \in {"PRE", "PREA", "PRESB"} -> NoPD(S, r) /\ \A i \in BSof : ~PendB(S, r, i)
       [] c \in {"RD", "WR", "RDA", "WRA"} -> NoPD(S, r) /\ BankRow(S, r, b, t) /\ t >= rk.b[b].at
       [] c \in {"REFA", "REFB", "REFSB", "REFP2B", "REFDB", "SREFEN"} ->
            NoPD(S, r) /\ \A i \in BSof : BankIdle(D, S, r, i, t)
       [] c = "SREFEX" -> rk.st = "SREF"
       [] c = "DSMEN" -> rk.st = "SREF" /\ ~PendK(S, r, {"sref"})
       [] c = "DSMEX" -> rk.st = "DSM"
       [] c = "PDEA" -> NoPD(S, r) /\ \E i \in 1..D.nb : rk.b[i].o /\ (\A j \in DOMAIN S.q : ~(S.q[j].r = r /\ S.q[j].b = i /\ S.q[j].k = "ref"))
       [] c = "PDEP" -> NoPD(S, r) /\ \A i \in 1..D.nb : rk.b[i].o => PendB(S, r, i) /\ (\A j \in DOMAIN S.q : (S.q[j].r = r /\ S.q[j].b = i) => S.q[j].k = "ref")
       [] c = "PDXA" -> rk.st = "PDA" /\ ~PendK(S, r, {"pdax"})
       [] c = "PDXP" -> (rk.st = "PDP" \/ PendK(S, r, {"pdpe"})) /\ ~PendK(S, r, {"pdpx"})
=============================================================================
