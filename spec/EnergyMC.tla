------------------------------- MODULE EnergyMC -------------------------------
(* Every small history of statistics on a family of tiny memories: energy     *)
(* starts at nothing, every counted event or cycle adds to it exactly its     *)
(* price, energy grows with the devices, every total is the sum of its parts. *)
EXTENDS Energy, IOUtils

STD == IOEnv.STD
MODE == IOEnv.MODE           \* core, iface
N == atoi(IOEnv.N)           \* how many events
VARIABLES m, s, n, last
vars == <<m, s, n, last>>

Cur(i2n, d3, d0, d4) == [v |-> 2, i2n |-> i2n, i3n |-> i2n + d3, i0 |-> i2n + d3 + d0, ib |-> i2n + d0, i4r |-> i2n + 9 + d4, i4w |-> i2n + 8 + d4, i5 |-> i2n + 30, i5p |-> i2n + 20,
                         i6 |-> 1, i6ds |-> 1, i2p |-> i2n, i3p |-> i2n + d3]
Lines == {"ck", "ca", "rdq", "wdq", "rdqs", "wdqs", "rdbi", "wdbi", "wck"}
Mems ==
  { [NR |-> nr, NB |-> 2, NBG |-> IF STD = "LPDDR4" THEN 1 ELSE 2, ND |-> nd, W |-> w, REFM |-> 1, RAS |-> 2, RP |-> 2, RFC |-> 5, RFC2 |-> 4, RFC4 |-> 3, RFCp |-> 3, RCD |-> 1, RCD2 |-> 1,
     RTP |-> 1, AL |-> 0, WL |-> 1, WR |-> 1, REFI |-> 8, TCK |-> 2, WCK2CK |-> 2, DR |-> 2, BL |-> 16, VDDQ |-> 2, RHO |-> rho,
     PW |-> <<Cur(a, b, 2, 1), Cur(1, 0, 3, 0)>>,
     IMP |-> [k \in Lines |-> [t |-> IF k \in {"ca", "rdq"} THEN 1 - t ELSE t, r |-> 2, e |-> e]],
     PP |-> [rz |-> 3, wz |-> 2, re |-> 1, we |-> 2]] :
    nr \in (IF MODE = "core" /\ N < 2 THEN {1, 2} ELSE {1}), nd \in (IF MODE # "core" THEN {1} ELSE IF N < 2 THEN {0, 1, 2} ELSE {0, 2}), w \in (IF MODE = "core" THEN {8} ELSE {8, 16}),
    rho \in (IF MODE = "core" /\ N < 2 THEN {<<0, 1>>, <<1, 2>>, <<1, 1>>} ELSE {<<1, 2>>}), a \in (IF MODE = "core" /\ N < 2 THEN {0, 2} ELSE {1}),
    b \in (IF MODE = "core" /\ N < 2 THEN {0, 3} ELSE {2}),
    t \in (IF MODE = "core" THEN {1} ELSE {0, 1}), e \in (IF MODE = "core" THEN {1} ELSE {0, 3}) }
Z(k) == [i \in 1..k |-> 0]
Groups == {"cmd", "rd", "wr", "ck", "wck", "rdbi", "wdbi", "rtog", "wtog", "rdqs", "wdqs"}
Zero(mm) ==
  IF MODE = "core" THEN [cnt |-> [k \in 1..(mm.NR * mm.NB) |-> Z(11)], cyc |-> [k \in 1..(mm.NR * mm.NB) |-> Z(6)], rcyc |-> [k \in 1..mm.NR |-> Z(6)]]
  ELSE [k \in Groups |-> Z(5)] @@ [rcnt |-> [r \in 1..mm.NR |-> Z(11)], prepos |-> [r \in 1..mm.NR |-> Z(6)]]
E(mm, x) == IF MODE = "core" THEN CoreEnergy(STD, mm, x).tot ELSE IfEnergy(STD, mm, x)[5]

Init == \E x \in Mems : m = x /\ s = Zero(x) /\ n = 0 /\ last = <<"none">>
Core ==
  \/ \E k \in DOMAIN s.cnt, i \in 1..11 : s' = [s EXCEPT !.cnt[k][i] = @ + 1] /\ last' = <<"cnt", k, i>>
  \/ \E k \in DOMAIN s.cyc : s' = [s EXCEPT !.cyc[k][1] = @ + 1] /\ last' = <<"cyc", k, 1>>
  \/ \E r \in DOMAIN s.rcyc, i \in 1..6 : s' = [s EXCEPT !.rcyc[r][i] = @ + 1] /\ last' = <<"rcyc", r, i>>
If ==
  \/ \E g \in Groups, i \in 1..5 : s' = [s EXCEPT ![g][i] = @ + 1] /\ last' = <<"line", g, i>>
  \/ \E r \in DOMAIN s.rcnt, i \in {3, 4, 10, 11} : s' = [s EXCEPT !.rcnt[r][i] = @ + 1] /\ last' = <<"burst", r, i>>
  \/ \E r \in DOMAIN s.rcnt, i \in {3, 4} : s' = [s EXCEPT !.rcnt[r][i] = @ + 1, !.prepos[r][i + 2] = @ + 1] /\ last' = <<"seamless", r, i>>
Next == n < N /\ n' = n + 1 /\ m' = m /\ (IF MODE = "core" THEN Core ELSE If)
Spec == Init /\ [][Next]_vars

NonNegative == QLe(I(0), E(m, s))
NothingFree == (n = 0) => E(m, s) = I(0)
\* nothing lowers the energy
Grows == [][QLe(E(m, s), E(m, s'))]_vars
\* the price of a step does not depend on what was counted before
Additive == [][LET z == Zero(m) IN
   CASE last'[1] \in {"cnt", "cyc"} -> QSub(E(m, s'), E(m, s)) = E(m, [z EXCEPT ![last'[1]][last'[2]][last'[3]] = 1])
     [] last'[1] = "rcyc" -> QSub(E(m, s'), E(m, s)) = E(m, [z EXCEPT !.rcyc[last'[2]][last'[3]] = 1])
     [] last'[1] = "line" -> QSub(E(m, s'), E(m, s)) = E(m, [z EXCEPT ![last'[2]][last'[3]] = 1])
     [] OTHER -> TRUE]_vars
Devices == MODE = "core" => E(m, s) = QX(E([m EXCEPT !.ND = 1], s), MaxI(m.ND, 1))
\* the sum over banks (and devices), without automatic precharges counted twice, and the rank-wide parts
Sums == MODE = "core" =>
   LET e == CoreEnergy(STD, m, s)  f(k) == IF k <= 8 THEN k ELSE k + 2
   IN /\ e.tot = QAdd(QSum([k \in DOMAIN e.b |-> e.b[k][16]]), QSum(e.s))
      /\ \A k \in DOMAIN e.b : e.b[k][16] = QSum([i \in 1..13 |-> e.b[k][f(i)]])
      /\ \A i \in (1..15) \ {3} : e.agg[i] = QSum([k \in DOMAIN e.b |-> e.b[k][i]])
IfParts == MODE = "iface" =>
   LET e == IfEnergy(STD, m, s) IN
   /\ \A i \in 1..4 : QLe(I(0), e[i])
   /\ (\A k \in Lines : m.IMP[k].t = 0) => e[2] = I(0) /\ e[4] = I(0)
   /\ (\A k \in Lines : m.IMP[k].e = 0) => e[1] = I(0) /\ e[3] = I(0)
\* a burst that follows seamlessly costs no pre- and postamble
Seamless == [][last'[1] = "seamless" => E(m, s') = E(m, s)]_vars
=============================================================================
