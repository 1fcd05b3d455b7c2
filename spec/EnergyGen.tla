------------------------------ MODULE EnergyGen ------------------------------
(* Generates memory specifications with statistics and what they have to cost, *)
(* or with the parameters that have to follow from them.                       *)
EXTENDS Energy, TLC, Json, IOUtils, SequencesExt

STD == IOEnv.STD
PROFILE == IOEnv.PROFILE      \* core, iface, spec
STEPS == atoi(IOEnv.STEPS)

VARIABLES m, tr, pc
vars == <<m, tr, pc>>
R(A) == RandomElement(A)
Org(z) == CASE STD = "DDR4" -> R({<<4, 2>>, <<8, 2>>, <<16, 4>>, <<8, 4>>})
            [] STD = "DDR5" -> R({<<4, 2>>, <<8, 4>>, <<8, 2>>, <<16, 4>>, <<4, 4>>})
            [] STD = "LPDDR4" -> R({<<8, 1>>, <<4, 1>>, <<16, 1>>})
            [] STD = "LPDDR5" -> R(IF R(1..3) = 1 THEN {<<8, 4>>, <<16, 2>>, <<32, 4>>, <<8, 2>>, <<4, 1>>, <<16, 8>>, <<16, 0>>, <<8, 0>>} ELSE {<<16, 1>>, <<16, 4>>, <<8, 1>>})
            [] OTHER -> R({<<16, 4>>, <<8, 4>>, <<16, 4>>})
NDom == IF STD \in {"LPDDR5", "LPDDR6"} THEN 3 ELSE 2
Cur(z) == R({0, 1, 2, 3, 5, 7, 8, 11, 12, 20})
Line(z) == [t |-> R({0, 1, 1}), r |-> R({1, 2, 4, 5, 8}), e |-> R({0, 1, 2, 3, 7})]
Lines == {"ck", "ca", "rdq", "wdq", "rdqs"} \cup (IF HasWdqs(STD) THEN {"wdqs"} ELSE {}) \cup (IF HasDbi(STD) THEN {"rdbi", "wdbi"} ELSE {}) \cup (IF HasWck(STD) THEN {"wck"} ELSE {})
Give(z) == R(1..3) > 1
Base(z) ==
  \E g \in {Org(1)} : \E o \in {Organisation(STD, g)}, dr \in {IF STD = "LPDDR4" \/ R(1..3) = 1 THEN 2 ELSE R({1, 2, 4})}, bw \in {TRUE} :
  \E raw \in {TLCEval([k \in {"RAS", "RP", "RFC", "RFC2", "RFC4", "RFCp", "RCD", "RCD2", "RTP", "AL", "WL", "WR", "REFI", "TCK", "ROWS", "COLS"} |->
                CASE k = "RAS" -> R({1, 2, 3, 4, 6, 8}) [] k = "RP" -> R(1..9) [] k = "RFCp" -> R({1, 2, 4, 5, 8}) [] k = "REFI" -> R({8, 16, 20, 40, 36})
                  [] k = "TCK" -> R({1, 2, 4}) [] k \in {"ROWS", "COLS"} -> R({256, 1024, 4096, 65536, 100}) [] OTHER -> R(1..40)])} :
  \E org \in {TLCEval([k \in {"NR", "ND", "W", "REFM", "BLx", "W2"} |->
                CASE k = "NR" -> R({1, 1, 2}) [] k = "ND" -> R({0, 1, 1, 2, 3}) [] k = "W" -> R({4, 8, 16}) [] k = "REFM" -> R({0, 1, 2, 4}) [] k = "BLx" -> R({1, 2, 4})
                  [] OTHER -> R({1, 2, 4})])} :
  \E pw \in {TLCEval([i \in 1..NDom |-> [v |-> R({1, 2, 3}), i0 |-> Cur(i), i2n |-> Cur(i), i3n |-> Cur(i), i4r |-> Cur(i), i4w |-> Cur(i), i6 |-> Cur(i), i6ds |-> Cur(i),
                i2p |-> Cur(i), i3p |-> Cur(i), i5p |-> Cur(i), i5a |-> Cur(i), i5f2 |-> Cur(i), i5f4 |-> Cur(i), ibx |-> R({0, 1, 4, 9, 13}), ibgiven |-> Give(i)]])} :
  \E rho \in {R({<<0, 1>>, <<1, 1>>, <<1, 2>>, <<1, 4>>, <<3, 4>>})}, rg \in {R({"given", "given", "given", "nofield", "nosection"})},
     imp \in {TLCEval([k \in Lines |-> Line(k)])}, vddq \in {R({1, 2, 3})}, dqsr \in {R({0, 1, 2, 4})}, wckon \in {R({0, 1})},
     pp \in {TLCEval([k \in {"rz", "wz", "ro", "wo", "re", "we", "rf", "wf", "rccd", "wccd"} |-> R(0..5)])},
     pasr \in {TLCEval([k \in {"given", "mode", "sigma", "on"} |-> CASE k = "given" -> Give(1) [] k = "mode" -> R(IF o[1] < 8 THEN {0, 1, 8} ELSE 0..8) [] k = "sigma" -> R(1..4) [] OTHER -> R({0, 1})])} :
   \E refm \in {IF STD \in {"DDR4"} THEN org.REFM ELSE IF STD = "DDR5" /\ org.REFM = 4 THEN 0 ELSE org.REFM} :
    /\ m' = [x \in {"NB"} |-> o[1]] @@ [x \in {"GIVEN"} |-> g] @@ [x \in {"NBG"} |-> o[2]] @@ raw @@ [x \in {"NR", "ND", "W"} |-> org[x]]
            @@ [REFM |-> refm, DR |-> dr, WCK2CK |-> org.W2, BL |-> (IF STD = "LPDDR4" THEN R({16, 32}) ELSE dr * org.BLx * org.W2 * R({1, 3})),
                MAXBL |-> 64, WCKON |-> wckon, VDDQ |-> vddq, IMP |-> imp, PP |-> pp, PASR |-> pasr, RHOGIVEN |-> rg,
                RHO |-> IF rg = "given" THEN rho ELSE <<1, 1>>, RHOX |-> rho,
                PW |-> [i \in 1..NDom |-> [x \in (DOMAIN pw[i]) \cup {"ib", "i5"} |->
                          CASE x = "ib" -> IF pw[i].ibgiven THEN pw[i].ibx ELSE pw[i].i0
                            [] x = "i5" -> (IF STD = "DDR4" THEN (CASE refm = 2 -> pw[i].i5f2 [] refm = 4 -> pw[i].i5f4 [] OTHER -> pw[i].i5a)
                                            ELSE IF STD = "DDR5" /\ refm = 2 THEN pw[i].i5f2 ELSE pw[i].i5a)
                            [] OTHER -> pw[i][x]]] ]
            @@ (IF STD = "DDR5" /\ dqsr > 0 THEN [DQSR |-> dqsr] ELSE [x \in {} |-> 0])
    /\ TRUE

-----------------------------------------------------------------------------
Few(z) == IF R(1..3) = 1 THEN R(1..4) ELSE 0
Cyc(z) == IF R(1..2) = 1 THEN R(1..30) ELSE 0
CoreStats(z) == [cnt |-> TLCEval([k \in 1..(m.NB * m.NR) |-> TLCEval([i \in 1..11 |-> Few(i)])]),
                 cyc |-> TLCEval([k \in 1..(m.NB * m.NR) |-> TLCEval([i \in 1..6 |-> Cyc(i)])]),
                 rcyc |-> TLCEval([k \in 1..m.NR |-> TLCEval([i \in 1..6 |-> Cyc(i)])])]
BusSt(z) == TLCEval([i \in 1..5 |-> R({0, 1, 5, R(0..300), R(0..30)})])
IfStats(z) == TLCEval([k \in {"cmd", "rd", "wr", "ck", "wck", "rdbi", "wdbi", "rtog", "wtog", "rdqs", "wdqs"} |-> IF R(1..4) = 1 THEN <<0, 0, 0, 0, 0>> ELSE BusSt(k)])
CntSt(z) == TLCEval([i \in 1..11 |-> R(0..9)])
IfOp(z) ==
  \E b \in {IfStats(1)}, c \in {TLCEval([r \in 1..m.NR |-> CntSt(r)])} :
  \E p \in {TLCEval([r \in 1..m.NR |-> <<R(0..3), R(0..3), R(0..3), R(0..3), R(0..(c[r][3] + c[r][10])), R(0..(c[r][4] + c[r][11]))>>])} :
    LET s == b @@ [rcnt |-> c, prepos |-> p] IN tr' = Append(tr, <<"eis", s, IfEnergy(STD, m, s)>>)

-----------------------------------------------------------------------------
\* the parameters that follow (names of the driver's report)
Active(p) == IF p.on = 0 THEN <<>> ELSE
  LET n == m.NB IN CASE p.mode = 1 -> [i \in 1..(n - 4) |-> i - 1] [] p.mode = 2 -> [i \in 1..(n - 6) |-> i - 1] [] p.mode = 3 -> [i \in 1..(n - 7) |-> i - 1]
     [] p.mode = 4 -> [i \in 1..(n - 2) |-> i + 1] [] p.mode = 5 -> [i \in 1..(n - 4) |-> i + 3] [] p.mode = 6 -> [i \in 1..(n - 6) |-> i + 5] [] p.mode = 7 -> [i \in 1..(n - 7) |-> i + 6]
     [] OTHER -> [i \in 1..n |-> i - 1]
Params ==
  LET d == Derive(STD, m)
      pwf == {"v", "i0", "i2n", "i3n", "i4r", "i4w", "i5", "i6", "i2p", "i3p"} \cup (IF STD = "DDR4" THEN {} ELSE {"i5p"}) \cup (IF HasWck(STD) THEN {"i6ds"} ELSE {})
      common == [nb |-> m.NB, nr |-> m.NR, rows |-> m.ROWS, cols |-> m.COLS, nd |-> MaxI(m.ND, 1), bl |-> m.BL, dr |-> m.DR, bw |-> m.W, nbg |-> m.NBG,
                 offRD |-> d.offRD, offWR |-> d.offWR, tRAS |-> m.RAS, tRP |-> m.RP, tRFC |-> d.tRFC, tRCD |-> d.tRCD, tCK |-> I(m.TCK), vddq |-> I(m.VDDQ), rho |-> m.RHO,
                 tWL |-> m.WL, tWR |-> m.WR,
                 pw |-> [i \in DOMAIN m.PW |-> [x \in pwf \cup {"ibeta"} |-> I(IF x = "ibeta" THEN m.PW[i].ib ELSE m.PW[i][x])]],
                 imp |-> [k \in Lines |-> <<m.IMP[k].t, I(m.IMP[k].r), I(m.IMP[k].e)>>]]
      x == CASE STD = "DDR4" -> [tBurst |-> TBurst(STD, m), tRTP |-> m.RTP, tAL |-> m.AL,
                                 pp |-> <<Q(m.PP.rz, 2), Q(m.PP.wz, 2), Q(m.PP.ro, 2), Q(m.PP.wo, 2), m.PP.re, m.PP.we, m.PP.rf, m.PP.wf, m.PP.rccd, m.PP.wccd>>]
             [] STD = "DDR5" -> [tBurst |-> TBurst(STD, m), tRTP |-> m.RTP, bpg |-> d.bpg, tRFCp |-> m.RFCp, rates |-> IF "DQSR" \in DOMAIN m THEN <<3, 5, m.DQSR>> ELSE <<2, 2, 2>>]
             [] STD = "LPDDR4" -> [tRTP |-> m.RTP, bpg |-> d.bpg, tRFCp |-> m.RFCp, tREFI |-> m.REFI,
                                   pasr |-> IF m.RHOGIVEN = "nosection" \/ ~m.PASR.given THEN <<I(1), 0, 0, <<>>>>
                                            ELSE <<I(m.PASR.sigma), m.PASR.on, IF m.PASR.mode = 8 THEN 0 ELSE m.PASR.mode, Active(m.PASR)>>]
             [] OTHER -> [tBurst |-> TBurst(STD, m), tRTP |-> m.RTP, bpg |-> d.bpg, tRFCp |-> m.RFCp, tREFI |-> m.REFI, wck2ck |-> m.WCK2CK, wckon |-> m.WCKON, tWCK |-> TWck(m)]
                         @@ (IF STD = "LPDDR5" THEN [arch |-> BankArch(m)] ELSE [y \in {} |-> 0])
  IN common @@ x

-----------------------------------------------------------------------------
Init == m = <<>> /\ tr = <<>> /\ pc = "cfg"
Setup == pc = "cfg" /\ pc' = "run" /\ tr' = tr /\ Base(1)
Step ==
  /\ pc = "run" /\ Len(tr) < STEPS /\ UNCHANGED <<m, pc>>
  /\ CASE PROFILE = "core" -> \E s \in {CoreStats(1)} : tr' = Append(tr, <<"ecs", s, CoreEnergy(STD, m, s)>>)
       [] PROFILE = "iface" -> IfOp(1)
       [] OTHER -> tr' = Append(tr, <<"spec", Params>>)
Finish ==
  /\ pc = "run" /\ Len(tr) >= STEPS
  /\ PrintT(ToJson([std |-> STD, m |-> m, ops |-> tr]))
  /\ pc' = "done" /\ UNCHANGED <<m, tr>>
Next == Setup \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
