------------------------------- MODULE FullGen -------------------------------
(* Whole memories: array and interface together.  Generates legal histories  *)
(* of one or several simulation objects with what has to be observed.         *)
EXTENDS Core, Iface, TLC, Json, IOUtils

STD == IOEnv.STD
PROFILE == IOEnv.PROFILE   \* query, ser, copy, split, refuse
STEPS == atoi(IOEnv.STEPS)

VARIABLES m, sim,
          objs,      \* simulation objects: [S, I, cf, df, live, bc, bi]; bc, bi: not yet given to the array, to the interface
          cur, now, tr, pc, hot
vars == <<m, sim, objs, cur, now, tr, pc, hot>>
D == Derive(STD, m)
O == objs[cur]

R(A) == RandomElement(A)

CfgSet(z) ==
  LET dr == R(IF STD = "LPDDR5" \/ STD = "LPDDR6" THEN {2, 4} ELSE {1, 2, 2})
      base == [NR |-> R({1, 2, 2, 3}), RAS |-> R(1..9), RP |-> R(0..6), RCD |-> R(0..7), RCD2 |-> R(0..7),
               RFC |-> R(1..9), RFC2 |-> R(1..9), RFC4 |-> R(1..9), RFCp |-> R(1..9), REFM |-> R({1, 2}),
               AL |-> R(0..3), RTP |-> R(0..5), WL |-> R(0..5), WR |-> R(0..5),
               DR |-> dr, WCK2CK |-> R({1, 2}), WCKON |-> R({0, 1}), DQSR |-> R({1, 2})]
      wd == R({<<4, 1>>, <<4, 2>>, <<8, 1>>, <<8, 2>>, <<16, 1>>})
      w8 == R({<<8, 1>>, <<8, 2>>, <<16, 1>>})
      D4 == [W |-> wd[1], ND |-> wd[2]]   D8 == [W |-> w8[1], ND |-> w8[2]]
  IN CASE STD = "DDR4" -> LET g == R({1, 2, 4}) p == R({1, 2, 4}) IN base @@ D4 @@ [NBG |-> g, NB |-> g * p, BL |-> 8]
       [] STD = "DDR5" -> LET g == R({1, 2, 4}) p == R({1, 2, 4}) IN base @@ D4 @@ [NBG |-> g, NB |-> g * p, BL |-> R({8, 16})]
       [] STD = "LPDDR4" -> base @@ D8 @@ [NBG |-> 1, NB |-> R({2, 8}), BL |-> R({16, 32})]
       [] STD = "LPDDR5" -> LET a == R({Lp5Org(g) : g \in {<<16, 1>>, <<16, 4>>, <<16, 4>>, <<8, 1>>, <<16, 2>>, <<8, 4>>, <<32, 4>>}}) IN base @@ D8 @@ a @@ [BL |-> R({16, 32})]
       [] STD = "LPDDR6" -> base @@ [W |-> 12, ND |-> 1, NBG |-> 4, NB |-> 16, BL |-> R({24, 48})]
SimCfg(z) == IF R(1..4) = 1 THEN <<R(0..16), R(0..16), R(0..16), R(0..16), R({"L", "H"}), R({"L", "H"})>> ELSE <<>>
\* inversion and metadata are per simulation object; see DESIGN.md for why copies are exercised without
WithExt == PROFILE /= "copy"

Want == <<"cnt", "cyc", "rcyc", "cmd", "rd", "wr", "ck", "wck", "rdbi", "wdbi", "rtog", "wtog", "rdqs", "wdqs", "prepos">>
NBk == D.nr * D.nb
Rr(i) == ((i - 1) \div D.nb) + 1
Bb(i) == ((i - 1) % D.nb) + 1
\* other standards report no merging either
Expect(o, t) ==
  [i \in DOMAIN Want |->
    LET w == Want[i] IN
    CASE w = "cnt" -> [k \in 1..NBk |-> BankCnt(o.S, Rr(k), Bb(k))]
      [] w = "cyc" -> [k \in 1..NBk |-> BankCyc(o.S, Rr(k), Bb(k), t)]
      [] w = "rcyc" -> [k \in 1..D.nr |-> RankCyc(o.S, k, t)]
      [] w = "prepos" -> IF STD = "DDR4" THEN Report(STD, m, sim, o.I, t, w) ELSE [k \in 1..D.nr |-> <<0, 0, 0, 0, 0, 0>>]
      [] OTHER -> Report(STD, m, sim, o.I, t, w)]

Init == /\ m = [NR |-> 0] /\ sim = <<>> /\ objs = <<>> /\ cur = 1 /\ now = 0 /\ tr = <<>> /\ pc = "cfg"
        /\ hot = [r |-> {}, b |-> {}, b1 |-> 0]
New(c) == [S |-> CoreNew(Derive(STD, c)), I |-> IfNew(STD, c), sw |-> 0, cf |-> 0, df |-> 0, live |-> TRUE, bc |-> <<>>, bi |-> <<>>]
Setup ==
  /\ pc = "cfg"
  /\ \E c \in {CfgSet(now)}, s \in {SimCfg(now)}, t \in {R({1, 1, 5, 90})} :
       /\ m' = c /\ sim' = s /\ now' = t
       /\ \E r1 \in {R(1..c.NR)}, r2 \in {R(1..c.NR)}, b1 \in {R(1..c.NB)}, b2 \in {R(1..c.NB)}, b3 \in {R(1..c.NB)} :
            hot' = [r |-> {r1, r2}, b |-> {b1, b2, b3, ((b1 + 7) % c.NB) + 1}, b1 |-> b1]
       /\ objs' = <<New(c)>>
  /\ pc' = "run" /\ UNCHANGED <<cur, tr>>

Bg(b) == IF m.NBG = 0 THEN 0 ELSE (b - 1) \div D.bpg
Times ==
  LET S == O.S
      dl == UNION {{S.q[i].t - 1, S.q[i].t, S.q[i].t + 1} : i \in DOMAIN S.q}
      bk == UNION {{S.rk[r].b[b].pt + D.tRP, S.rk[r].b[b].at + D.tRCD} : r \in hot.r, b \in hot.b}
      lo == IF now > O.cf THEN now ELSE O.cf
  IN {x \in ({lo + g : g \in {0, 1, 2, 3, 6, 15}} \cup dl \cup bk \cup {O.df, O.df}) : x >= lo}

IsRankCmd(c) == c \in {"PREA", "REFA", "SREFEN", "SREFEX", "DSMEN", "DSMEX", "PDEA", "PDEP", "PDXA", "PDXP"}
Avail(S1, t) == {x \in CmdsOf(D) \X hot.r \X hot.b :
                   /\ IsRankCmd(x[1]) => x[3] = hot.b1
                   /\ (x[1] \in {"REFP2B", "REFDB"} => D.nb = 16)
                   /\ IsData(x[1]) => t >= O.df
                   /\ Legal(D, S1, x[1], x[2], x[3], t)}
W(c) == CASE c = "ACT" -> 5 [] IsData(c) -> 5 [] c \in {"REFA", "SREFEN", "PREA"} -> 1 [] OTHER -> 2

Lens == CASE STD = "DDR4" -> {8} [] STD = "DDR5" -> {8, 16} [] STD \in {"LPDDR4", "LPDDR5"} -> {16, 32} [] OTHER -> {24, 48}
SpecialByte == {0, 255, 1, 254, 15, 240, 31, 7, 127, 85}
Byte(z) == IF R(1..3) = 1 THEN R(0..255) ELSE R(SpecialByte)
Bytes(n) == TLCEval([i \in 1..n |-> Byte(i)])

Put(o) == [objs EXCEPT ![cur] = o]
\* Split: the two sides are given their own commands, each in its order, in any order between the sides.
RECURSIVE Weave(_, _, _)
Weave(a, b, k) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE LET f == CASE k = 1 -> TRUE [] k = 2 -> FALSE [] k = 3 -> Len(a) >= Len(b) [] OTHER -> R({TRUE, FALSE})
       IN IF f THEN <<Head(a)>> \o Weave(Tail(a), b, k) ELSE <<Head(b)>> \o Weave(a, Tail(b), k)
Rest(o) == IF o.bc = <<>> /\ o.bi = <<>> THEN <<>> ELSE TLCEval(Weave(o.bc, o.bi, R(1..5)))
Told(o) == [o EXCEPT !.bc = <<>>, !.bi = <<>>]
Query(t) ==
  LET S1 == Look(D, O.S, t)  o == [Told(O) EXCEPT !.S = S1]
  IN \E k \in {R(1..6)}, pre \in {Rest(O)} :
     IF k = 1 /\ O.S.last > 0 /\ PROFILE /= "refuse" THEN
       LET tl == MaxI(O.S.last, O.sw)       \* switching the interface counts
       IN tr' = tr \o pre \o <<<<"last", tl>>>> /\ objs' = Put(Told(O)) /\ now' = now
     ELSE tr' = tr \o pre \o <<<<"q", t, Expect(o, t)>>>> /\ objs' = Put(o) /\ now' = t

Do(t) ==
  LET S1 == Run(D, O.S, t)
      av == Avail(S1, t)
      cs == {x[1] : x \in av}
  IN IF cs = {} THEN Query(t)
     ELSE \E cw \in {R(UNION {{<<c, i>> : i \in 1..W(c)} : c \in cs})} :
          \E x \in {R({y \in av : y[1] = cw[1]})}, len \in {R(Lens)}, dm \in {R(1..6)}, row \in {R(0..65535)}, col \in {R(0..1023)} :
            LET bb == x[3]
                pay == IF STD = "LPDDR6" THEN (IF len = 24 THEN 256 ELSE 512) ELSE len * Width(m)
                how == CASE ~IsData(x[1]) -> 0 [] dm = 1 -> 0 [] dm = 2 -> 1 [] OTHER -> 2
            IN \E d \in {IF how = 2 THEN Bytes(pay \div 8) ELSE <<>>} :
               LET y == [ty |-> x[1], t |-> t, r |-> x[2], bg |-> Bg(bb), ba |-> bb - 1, row |-> row, col |-> col,
                         n |-> IF how = 0 THEN 0 ELSE pay, d |-> d]
                   args == <<x[1], t, x[2] - 1, Bg(bb), bb - 1, row, col>> \o
                           (CASE how = 0 -> <<>> [] how = 1 -> <<pay>> [] OTHER -> << <<"B">> \o d >>)
                   apart == PROFILE = "split" /\ dm /= 6
               IN /\ objs' = Put([(IF apart THEN [O EXCEPT !.bc = Append(@, <<"cc">> \o args), !.bi = Append(@, <<"ci">> \o args)] ELSE Told(O)) EXCEPT !.S = Cmd(D, @, x[1], x[2], x[3], t), !.I = TLCEval(IfCmd(STD, m, sim, @, y)),
                                           !.cf = t + (IF CmdCycles(STD, m, y) = 0 THEN 1 ELSE CmdCycles(STD, m, y)),
                                           !.df = IF IsData(x[1]) THEN t + DataCycles(STD, m, sim, y) ELSE @])
                  /\ tr' = IF apart THEN tr ELSE tr \o Rest(O) \o <<<<"c">> \o args>>
                  /\ now' = t

ToggleDbi ==
  \E en \in {R({0, 1, 1})} :
    LET has == HasDbi(STD)  ok == DbiAllowed(STD, m)
        t == MaxI(now, O.df)
    IN /\ tr' = tr \o Rest(O) \o <<<<"dbi", t, en, IF ~has THEN "none" ELSE IF ok THEN 1 ELSE 0>>,
                        <<"isdbi", IF ~has THEN "none" ELSE IF ok /\ en = 1 THEN 1 ELSE 0>>>>
       /\ objs' = Put([Told(O) EXCEPT !.I.dbi = has /\ ok /\ en = 1])
       /\ now' = t
\* What a memory can not carry out: commands its standard does not know (passed over, by either side), a rank or bank it
\* does not have, a two-bank refresh with eight banks (refused by the array, or as a whole).  Only time passes.
AllCmds == {"RD", "WR", "RDA", "WRA", "ACT", "PRE", "REFB", "REFP2B", "REFDB", "PRESB", "REFSB", "PREA", "REFA", "PDEA", "PDEP", "PDXA", "PDXP", "SREFEN", "SREFEX", "DSMEN", "DSMEX"}
Refuse(t) ==
  \E k \in {R(1..3)}, how \in {R({"c", "c", "cc"})}, side \in {R({"c", "cc", "ci"})}, r \in {R(hot.r)}, b \in {R(hot.b)}, o \in {R({0, 1, 7, 100, 65536})}, row \in {R(0..65535)}, col \in {R(0..1023)} :
  \E c \in {IF k = 1 THEN R(AllCmds \ (CmdsOf(D) \cup (IF STD = "LPDDR5" THEN {"REFP2B"} ELSE {})))
             ELSE IF k = 2 THEN R(CmdsOf(D)) ELSE IF D.arch = "8B" /\ o < 7 THEN "REFP2B" ELSE R({x \in CmdsOf(D) : ~IsRankCmd(x)})} :
    LET x == CASE k = 1 -> <<side, c, t, r - 1, Bg(b), b - 1, row, col, "taken">>
               [] k = 2 -> <<how, c, t, m.NR + o, Bg(b), b - 1, row, col, "refused">>
               [] c = "REFP2B" /\ D.arch = "8B" -> <<how, c, t, r - 1, Bg(b), b - 1, row, col, "refused">>
               [] OTHER -> <<how, c, t, r - 1, Bg(b), m.NB + o, row, col, "refused">>
    IN /\ tr' = tr \o Rest(O) \o <<<<"cx">> \o x>>
       /\ objs' = Put([Told(O) EXCEPT !.S = Cmd(D, @, "END", 1, 1, t)])
       /\ now' = t

SetMeta ==
  \E a \in {R(0..65535)}, b \in {R(0..65535)} :
    /\ tr' = tr \o Rest(O) \o <<<<"meta", a, b>>, <<"getmeta", <<a, b>>>>>>
    /\ objs' = Put([Told(O) EXCEPT !.I.meta = <<a, b>>])
    /\ now' = now
SetPar ==
  \E s \in {R({0, 1})} :
    /\ tr' = tr \o Rest(O) \o <<<<"par", s>>, <<"ifstate", <<IF O.I.on >= 0 THEN 1 ELSE 0, s>>>>>>
    /\ objs' = Put([Told(O) EXCEPT !.I.par = s = 1])
    /\ now' = now
\* LPDDR6: the interface switched off when nothing is under way, and on again; meanwhile only the simulation's time goes on
Off ==
  \E a \in {MaxI(now, MaxI(O.cf, O.df)) + R({1, 1, 2, 8})} :
    /\ tr' = tr \o Rest(O) \o <<<<"ioff", a>>, <<"ifstate", <<0, IF O.I.par THEN 1 ELSE 0>>>>>>
    /\ objs' = Put([Told(O) EXCEPT !.I = IfOff(m, @, a), !.cf = a, !.sw = a])
    /\ now' = a
On(t) ==
  \E a \in {MaxI(t, O.cf)} :
    /\ tr' = tr \o Rest(O) \o <<<<"ion", a>>, <<"ifstate", <<1, IF O.I.par THEN 1 ELSE 0>>>>>>
    /\ objs' = Put([Told(O) EXCEPT !.I = IfOn(@, a), !.cf = a, !.sw = a])
    /\ now' = a
Restore == \* save, restore into a new object, continue with that
  /\ LET s == Serializable(O.S)
         hd == IF HasDbi(STD) THEN (IF O.I.dbi THEN 1 ELSE 0) ELSE "none"
     IN tr' = tr \o <<<<"isser", IF s THEN 1 ELSE 0>>, <<"ser", IF s THEN 1 ELSE 0>>, <<"isdbi", hd>>>>
  /\ UNCHANGED <<objs, now>>

Alive == {i \in DOMAIN objs : objs[i].live}
Copies == \* copies are equal and independent; what was moved from is given up
  \E k \in {R(1..6)}, i \in {R(Alive)}, j \in {R(Alive)} :
    CASE k = 1 /\ Len(objs) < 4 -> tr' = Append(tr, <<"copyc", i - 1>>) /\ objs' = Append(objs, objs[i]) /\ UNCHANGED cur
      [] k = 2 /\ Len(objs) < 4 ->
           /\ tr' = tr \o <<<<"movec", i - 1>>, <<"del", i - 1>>, <<"use", Len(objs)>>>>
           /\ objs' = Append([objs EXCEPT ![i].live = FALSE], objs[i]) /\ cur' = Len(objs) + 1
      [] k = 3 -> tr' = Append(tr, <<"copya", j - 1, i - 1>>) /\ objs' = [objs EXCEPT ![j] = objs[i]] /\ UNCHANGED cur
      [] k = 4 /\ i /= j ->
           /\ tr' = tr \o <<<<"movea", j - 1, i - 1>>, <<"del", i - 1>>, <<"use", j - 1>>>>
           /\ objs' = [objs EXCEPT ![j] = objs[i], ![i].live = FALSE] /\ cur' = j
      [] k = 5 /\ Len(objs) < 4 -> tr' = Append(tr, <<"new">>) /\ objs' = Append(objs, New(m)) /\ UNCHANGED cur
      [] OTHER -> tr' = Append(tr, <<"use", i - 1>>) /\ cur' = i /\ UNCHANGED objs

Step ==
  /\ pc = "run" /\ Len(tr) + 2 * Len(O.bc) < STEPS
  /\ \E t \in {R(Times)}, k \in {R(1..20)} :
       IF k <= 5 THEN Query(t) /\ UNCHANGED cur
       ELSE IF k = 6 /\ WithExt /\ O.I.on >= 0 THEN ToggleDbi /\ UNCHANGED cur
       ELSE IF k = 7 /\ WithExt /\ STD = "LPDDR6" THEN SetMeta /\ UNCHANGED cur
       ELSE IF k = 12 /\ STD = "LPDDR6" /\ m.WCKON = 1 THEN SetPar /\ UNCHANGED cur
       ELSE IF k \in 8..10 /\ PROFILE = "ser" THEN Restore /\ UNCHANGED cur
       ELSE IF k \in 8..11 /\ PROFILE = "copy" THEN Copies /\ now' = now
       ELSE IF k \in 8..11 /\ PROFILE = "refuse" THEN Refuse(t) /\ UNCHANGED cur
       ELSE IF k = 13 /\ STD = "LPDDR6" /\ O.I.on >= 0 THEN Off /\ UNCHANGED cur
       ELSE IF O.I.on < 0 THEN On(t) /\ UNCHANGED cur
       ELSE Do(t) /\ UNCHANGED cur
  /\ UNCHANGED <<m, sim, pc, hot>>

\* mostly the end of the simulation is announced; nothing but the time of the last command changes
End(T) == LET a == <<"END", T, 0, 0, 0, 0, 0>> IN IF PROFILE = "split" THEN Weave(<<<<"cc">> \o a>>, <<<<"ci">> \o a>>, R(1..2)) ELSE <<<<"c">> \o a>>
RECURSIVE Finals(_, _, _, _)
Finals(i, T, e, g) == IF i > Len(objs) THEN <<>>
  ELSE (IF objs[i].live THEN <<<<"use", i - 1>>>> \o Rest(objs[i]) \o
          (IF e = 0 THEN <<<<"q", T, Expect([objs[i] EXCEPT !.S = Look(D, @, T)], T)>>>>
           ELSE LET S1 == Cmd(D, objs[i].S, "END", 1, 1, T)  s == Serializable(S1)
                IN End(T) \o <<<<"last", T>>>>
                   \o (IF PROFILE = "ser" THEN <<<<"isser", IF s THEN 1 ELSE 0>>, <<"ser", IF s THEN 1 ELSE 0>>>> ELSE <<>>)
                   \o <<<<"q", T + g, Expect([objs[i] EXCEPT !.S = Look(D, S1, T + g)], T + g)>>>>) ELSE <<>>) \o Finals(i + 1, T, e, g)
RECURSIVE Latest(_)
Latest(i) == IF i > Len(objs) THEN now ELSE MaxI(MaxI(objs[i].cf, objs[i].df), Latest(i + 1))
Finish ==
  /\ pc = "run" /\ Len(tr) + 2 * Len(O.bc) >= STEPS
  /\ \E T \in {MaxI(now, Latest(1)) + R({0, 1, 3, 40})}, e \in {R(0..3)}, g \in {R({0, 0, 1, 30})} :
       /\ PrintT(ToJson([std |-> STD, m |-> m, sim |-> sim, want |-> Want, ops |-> tr \o Finals(1, T, e, g)]))
       /\ now' = T
  /\ pc' = "done"
  /\ UNCHANGED <<m, sim, objs, cur, tr, hot>>

Next == Setup \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
