------------------------------- MODULE Energy -------------------------------
(* What statistics cost. Energies are exact rational numbers <<num, den>>.   *)
(* m: raw fields of the memory specification (see MemSpecDerive), and        *)
(*  m.TCK clock period, m.RHO bank-wise factor (rational),                   *)
(*  m.PW one record per supply: v i0 i2n i3n i4r i4w i5 i5p i6 i6ds i2p i3p ib *)
(*  m.VDDQ, m.IMP line group -> [t, r, e]: terminated, resistance, energy of a rising edge *)
(*  m.PP (DDR4): pre- and postamble of a burst: rz wz low time (halves of a clock), re we rising edges *)
EXTENDS MemSpecDerive, FiniteSets, TLC

-----------------------------------------------------------------------------
(* rational arithmetic *)
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(n, d) == LET g == Gcd(AbsI(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>      \* d > 0
I(n) == <<n, 1>>
QMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
              ELSE LET g == Gcd(AbsI(a[1]), b[2])  h == Gcd(AbsI(b[1]), a[2]) IN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
QAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QInv(a) == IF a[1] > 0 THEN <<a[2], a[1]>> ELSE <<-a[2], -a[1]>>
QDiv(a, b) == QMul(a, QInv(b))
QX(a, n) == QMul(a, I(n))
RECURSIVE QSumTo(_, _)
QSumTo(f, n) == IF n = 0 THEN <<0, 1>> ELSE QAdd(QSumTo(f, n - 1), f[n])
QSum(f) == QSumTo(f, Len(f))
QLe(a, b) == a[1] * b[2] <= b[1] * a[2]

-----------------------------------------------------------------------------
(* currents of one supply p derived from the measured ones *)
LP(std) == std \in {"LPDDR4", "LPDDR5", "LPDDR6"}
\* background with no bank's own share
IRho(std, m, p) ==
  LET r == m.RHO IN
  IF LP(std) THEN LET t1 == QX(r, m.NB)  t2 == QSub(I(1), r) IN QDiv(QAdd(QX(t1, p.i3n), QX(t2, p.i2n)), QAdd(t1, t2))
  ELSE QAdd(QX(r, p.i3n - p.i2n), I(p.i2n))
\* background with one bank open: measured with one bank (LPDDR) or with all (DDR)
I1(std, m, p) == IF LP(std) THEN I(p.i3n) ELSE QDiv(QAdd(I(p.i3n), QX(IRho(std, m, p), m.NB - 1)), I(m.NB))
Share(std, m, p) == QSub(I1(std, m, p), IRho(std, m, p))                     \* what an open bank adds
I2(std, m, p) == QAdd(I1(std, m, p), Share(std, m, p))                       \* two banks open
IAll(std, m, p) == IF LP(std) THEN QAdd(IRho(std, m, p), QX(Share(std, m, p), m.NB)) ELSE I(p.i3n)
IGrp(std, m, p) == QAdd(IRho(std, m, p), QX(Share(std, m, p), m.NBG))        \* one bank of every bank group open
\* the activation half of an activate-precharge pair
ITheta(std, m, p) == QDiv(I(p.i0 * (m.RP + m.RAS) - p.ib * m.RP), I(m.RAS))
\* refreshing some banks only, measured while refreshing every eighth of a refresh interval
IRefP(std, m, p) == QDiv(QSub(QDiv(I(p.i5p * m.REFI), I(8)), QMul(I(p.i2n), QSub(Q(m.REFI, 8), I(m.RFCp)))), I(m.RFCp))

TWck(m) == Q(m.TCK, m.WCK2CK)
\* duration of a burst
TBst(std, m) == IF std \in {"LPDDR5", "LPDDR6"} THEN QX(TWck(m), m.BL \div m.DR) ELSE I((m.BL \div m.DR) * m.TCK)
\* background subtracted from a measured burst
IBst(std, m, p) ==
  CASE std \in {"DDR4", "DDR5"} -> IAll(std, m, p)
    [] std = "LPDDR4" -> I1(std, m, p)
    [] std = "LPDDR5" -> IF BankArch(m) = "BG" THEN I2(std, m, p) ELSE I1(std, m, p)
    [] OTHER -> I2(std, m, p)
BankFields == <<"act", "pre", "bgact", "bgpre", "rd", "wr", "rda", "wra", "prda", "pwra", "refab", "refpb", "refsb", "ref2b", "refdb">>

\* energy per event (or per clock cycle, for the background) of one supply
PerEvent(std, m, p) ==
  LET q(i, t) == QX(QMul(i, t), p.v)      \* voltage * current * time
      T(n) == I(n * m.TCK)
      pre == q(I(p.ib - p.i2n), T(m.RP))
      rd == q(QSub(I(p.i4r), IBst(std, m, p)), TBst(std, m))
      wr == q(QSub(I(p.i4w), IBst(std, m, p)), TBst(std, m))
  IN [ act |-> q(QSub(ITheta(std, m, p), I1(std, m, p)), T(m.RAS)),
       pre |-> pre, prda |-> pre, pwra |-> pre,
       bgact |-> q(Share(std, m, p), T(1)),
       bgpre |-> QDiv(q(I(p.i2n), T(1)), I(m.NB)),
       rd |-> rd, rda |-> rd, wr |-> wr, wra |-> wr,
       refab |-> QDiv(q(QSub(I(p.i5), IAll(std, m, p)), T(TRFC(std, m))), I(m.NB)),
       refpb |-> IF std \in {"LPDDR4", "LPDDR5"} THEN q(QSub(IRefP(std, m, p), I1(std, m, p)), T(m.RFCp)) ELSE I(0),
       refsb |-> IF std = "DDR5" THEN QDiv(q(QSub(I(p.i5p), IGrp(std, m, p)), T(m.RFCp)), I(m.NBG)) ELSE I(0),
       ref2b |-> IF std = "LPDDR5" THEN QDiv(q(QSub(IRefP(std, m, p), I2(std, m, p)), T(m.RFCp)), I(2)) ELSE I(0),
       refdb |-> IF std = "LPDDR6" THEN QDiv(q(QSub(IRefP(std, m, p), I2(std, m, p)), T(m.RFCp)), I(2)) ELSE I(0),
       \* per rank and device
       shared |-> q(IRho(std, m, p), T(1)), pda |-> q(I(p.i3p), T(1)), pdp |-> q(I(p.i2p), T(1)), sref |-> q(I(p.i6), T(1)),
       dsm |-> IF std \in {"LPDDR5", "LPDDR6"} THEN q(I(p.i6ds), T(1)) ELSE I(0) ]
\* all supplies together
Prices(std, m) ==
  LET per == TLCEval([i \in DOMAIN m.PW |-> TLCEval(PerEvent(std, m, m.PW[i]))])
  IN TLCEval([f \in DOMAIN per[1] |-> QSum([i \in DOMAIN per |-> per[i][f]])])

\* how often: of a bank's counters c, its cycles y, its rank's cycles r
\* c = act pre rd wr refab refpb ref2b refdb refsb rda wra; y, r = act pre pda pdp sref dsm
Events(c, y, r) ==
  [ act |-> c[1], pre |-> c[2], bgact |-> y[1], bgpre |-> r[2], rd |-> c[3], wr |-> c[4], rda |-> c[10], wra |-> c[11], prda |-> c[10], pwra |-> c[11],
    refab |-> c[5], refpb |-> c[6], refsb |-> c[9], ref2b |-> c[7], refdb |-> c[8] ]
BankEnergy(P, c, y, r) == LET e == TLCEval(Events(c, y, r)) IN TLCEval([i \in 1..15 |-> QX(P[BankFields[i]], e[BankFields[i]])])
\* automatic precharges are counted among the precharges already
BankTotal(b) == QSum([i \in 1..13 |-> IF i <= 8 THEN b[i] ELSE b[i + 2]])
WithTotal(b) == Append(b, BankTotal(b))

\* s: [cnt, cyc per bank (rank-major), rcyc per rank]
CoreEnergy(std, m, s) ==
  LET P == TLCEval(Prices(std, m))
      nd == MaxI(m.ND, 1)
      bank(r, b) == BankEnergy(P, s.cnt[r * m.NB + b], s.cyc[r * m.NB + b], s.rcyc[r + 1])
      eb == TLCEval([k \in 1..(m.NR * m.NB) |-> bank((k - 1) \div m.NB, ((k - 1) % m.NB) + 1)])
      \* rank, device, bank
      tb == TLCEval([k \in DOMAIN eb |-> WithTotal(eb[k])])
      all == TLCEval([k \in 1..(m.NR * nd * m.NB) |-> LET r == (k - 1) \div (nd * m.NB)  b == (k - 1) % m.NB IN tb[r * m.NB + b + 1]])
      rk(f, i) == QX(QSum([r \in 1..m.NR |-> QX(P[f], s.rcyc[r][i])]), nd)
      sh == TLCEval(<<rk("shared", 1), rk("pda", 3), rk("pdp", 4), rk("sref", 5), rk("dsm", 6), I(0)>>)
      agg0 == TLCEval([i \in 1..15 |-> QX(QSum([k \in DOMAIN eb |-> eb[k][i]]), nd)])
      agg == [agg0 EXCEPT ![3] = QAdd(@, sh[1])]
  IN [ b |-> all, s |-> sh, agg |-> WithTotal(agg), tot |-> QAdd(BankTotal(agg0), QSum(sh)) ]

-----------------------------------------------------------------------------
(* interface: a line group costs while its terminated level is on the line, and per rising edge *)
\* statistics of a group: ones zeroes changes falling rising
Group(std, g, x, beat, V) ==       \* g: [t, r, e]; beat: duration of one counted level
  << I(x[5] * g.e), IF g.t = 1 THEN QMul(QDiv(I(V * V), I(g.r)), QX(beat, IF LP(std) THEN x[1] ELSE x[2])) ELSE I(0) >>
Both(a, b) == <<QAdd(a[1], b[1]), QAdd(a[2], b[2])>>
None == <<I(0), I(0)>>
DqsRate(std, m) == IF std = "DDR5" THEN (IF "DQSR" \in DOMAIN m THEN m.DQSR ELSE 2) ELSE m.DR
CaRate(std) == IF std \in {"LPDDR5", "LPDDR6"} THEN 2 ELSE 1
HasDbi(std) == std \in {"DDR4", "LPDDR4", "LPDDR5"}
HasWdqs(std) == std \in {"DDR4", "DDR5", "LPDDR4"}
HasWck(std) == std \in {"LPDDR5", "LPDDR6"}
\* the strobes' pre- and postamble: for every burst that does not follow seamlessly, on one or two strobes
Ambles(m, g, n, low, edges) ==
  LET k == n * (IF m.W = 16 THEN 2 ELSE 1)
  IN IF g.t = 1 THEN << I(k * edges * g.e), QMul(QDiv(I(m.VDDQ * m.VDDQ), I(g.r)), QX(Q(low, 2), k * m.TCK)) >> ELSE None
Total5(c, d) == << c[1], c[2], d[1], d[2], QAdd(QAdd(c[1], c[2]), QAdd(d[1], d[2])) >>
IfEnergy(std, m, s) ==
  LET G(k, x, b) == Group(std, m.IMP[k], x, b, m.VDDQ)
      tck == I(m.TCK)
      dq == QDiv(tck, I(m.DR))
      dqs == QDiv(tck, I(DqsRate(std, m)))
      sumR(i) == LET f[r \in 0..m.NR] == IF r = 0 THEN 0 ELSE f[r - 1] + s.rcnt[r][i[1]] + s.rcnt[r][i[2]] - s.prepos[r][i[3]] IN f[m.NR]
      \* driven by the controller
      ck == Both(G("ck", s.ck, QDiv(tck, I(2))), IF HasWck(std) THEN G("wck", s.wck, QDiv(TWck(m), I(2))) ELSE None)
      ca == G("ca", s.cmd, QDiv(tck, I(CaRate(std))))
      wq == Both(G("wdq", s.wr, dq), G("wdq", s.wtog, dq))
      wb == IF HasDbi(std) THEN G("wdbi", s.wdbi, dq) ELSE None
      ws == IF HasWdqs(std) THEN G("wdqs", s.wdqs, dqs) ELSE None
      wa == IF std = "DDR4" THEN Ambles(m, m.IMP["wdqs"], sumR(<<4, 11, 6>>), m.PP.wz, m.PP.we) ELSE None
      \* driven by the memory
      rq == Both(G("rdq", s.rd, dq), G("rdq", s.rtog, dq))
      rb == IF HasDbi(std) THEN G("rdbi", s.rdbi, dq) ELSE None
      rs == G("rdqs", s.rdqs, dqs)
      ra == IF std = "DDR4" THEN Ambles(m, m.IMP["rdqs"], sumR(<<3, 10, 5>>), m.PP.rz, m.PP.re) ELSE None
  IN Total5(Both(Both(Both(ck, ca), Both(wq, wb)), Both(ws, wa)), Both(Both(rq, rb), Both(rs, ra)))
=============================================================================
