------------------------------- MODULE CoreGen -------------------------------
(* Generates behaviours of Core together with what has to be observed.       *)
(* One behaviour = one random memory specification plus a random legal       *)
(* history; TLC runs this in simulation mode and prints one JSON document    *)
(* per behaviour.  PROFILE selects the emphasis, STD the standard.           *)
EXTENDS Core, TLC, Json, IOUtils

STD == IOEnv.STD
PROFILE == IOEnv.PROFILE
STEPS == atoi(IOEnv.STEPS)

VARIABLES m,      \* memory specification (raw)
          S,      \* state of the model
          now, tr, pc, mode, hot
vars == <<m, S, now, tr, pc, mode, hot>>
D == Derive(STD, m)

R(A) == RandomElement(A)

\* ---------------------------------------------------------------- configurations
CfgSet(z) ==
  LET base == [NR |-> R({1, 2, 2, 3}), RAS |-> R(0..9), RP |-> R(0..6), RCD |-> R(0..7), RCD2 |-> R(0..7),
               RFC |-> R(1..9), RFC2 |-> R(1..9), RFC4 |-> R(1..9), RFCp |-> R(1..9), REFM |-> R({1, 2, 4}),
               AL |-> R(0..3), RTP |-> R(0..5), WL |-> R(0..5), WR |-> R(0..5),
               DR |-> R({1, 2}), WCK2CK |-> R({1, 2, 4})]
  IN CASE STD = "DDR4" -> \* bank groups x banks per group
            LET g == R({1, 2, 4}) p == R({1, 2, 4}) IN base @@ [NBG |-> g, NB |-> g * p, BL |-> R({4, 8})]
       [] STD = "DDR5" ->
            LET g == R({1, 2, 4, 8}) p == R({1, 2, 4}) IN base @@ [NBG |-> g, NB |-> g * p, BL |-> R({4, 8, 16})]
       [] STD = "LPDDR4" -> base @@ [NBG |-> 1, NB |-> R({1, 2, 5, 8, 16}), BL |-> R({8, 16, 32})]
       [] STD = "LPDDR5" ->
            LET a == R({Lp5Org(g) : g \in {<<16, 1>>, <<16, 0>>, <<16, 4>>, <<16, 4>>, <<8, 1>>, <<8, 0>>, <<16, 2>>, <<8, 4>>, <<32, 4>>}})
            IN base @@ a @@ [BL |-> R({8, 16, 32})]
       [] STD = "LPDDR6" -> base @@ [NBG |-> R({1, 4}), NB |-> 16, BL |-> R({8, 16, 32})]

\* DDR4 reports refresh mode 4 only; DDR5 1 and 2
Fix(c) == IF STD = "DDR5" /\ c.REFM = 4 THEN [c EXCEPT !.REFM = 2] ELSE c

\* ---------------------------------------------------------------- weights
W(c) ==
  CASE PROFILE = "count" -> 3
    [] PROFILE = "autopre" -> (CASE c \in {"ACT", "RDA", "WRA"} -> 12 [] c \in {"PDEA", "PDXA", "PDXP"} -> 2
                                 [] c \in {"SREFEN", "REFA", "PREA"} -> 1 [] OTHER -> 2)
    [] PROFILE = "refresh" -> (CASE c \in {"REFA", "REFB", "REFSB", "REFP2B", "REFDB"} -> 10 [] c \in {"PREA", "PRE"} -> 5
                                 [] c \in {"SREFEN"} -> 1 [] OTHER -> 3)
    [] PROFILE = "pd" -> (CASE c \in {"PDEA", "PDEP", "PDXA", "PDXP"} -> 10 [] c = "SREFEN" -> 1 [] OTHER -> 3)
    [] PROFILE = "sref" -> (CASE c \in {"SREFEN", "SREFEX", "DSMEN", "DSMEX"} -> 12 [] c \in {"PREA", "PRE"} -> 6
                              [] c \in {"PDEA", "PDEP"} -> 2 [] OTHER -> 2)
    [] OTHER -> (CASE c = "ACT" -> 6 [] c \in {"REFA", "SREFEN", "PREA"} -> 2 [] OTHER -> 3)

\* ---------------------------------------------------------------- what is observed
Want ==
  CASE PROFILE = "count" -> <<"cnt">>
    [] PROFILE \in {"time", "refresh", "pd", "sref"} -> <<"cyc", "rcyc">>
    [] OTHER -> <<"cyc", "rcyc", "cnt">>
Expect(S1, t) ==
  LET nbk == D.nr * D.nb
      rr(i) == ((i - 1) \div D.nb) + 1
      bb(i) == ((i - 1) % D.nb) + 1
      of(w) == CASE w = "cnt" -> [i \in 1..nbk |-> BankCnt(S1, rr(i), bb(i))]
                 [] w = "cyc" -> [i \in 1..nbk |-> BankCyc(S1, rr(i), bb(i), t)]
                 [] w = "rcyc" -> [i \in 1..D.nr |-> RankCyc(S1, i, t)]
  IN [i \in DOMAIN Want |-> of(Want[i])]

\* ---------------------------------------------------------------- behaviour
Bg(b) == IF m.NBG = 0 THEN 0 ELSE (b - 1) \div D.bpg
MinGap == IF mode = "c" THEN 4 ELSE 0
Times ==
  LET dl == UNION {{S.q[i].t - 1, S.q[i].t, S.q[i].t + 1} : i \in DOMAIN S.q}
      bk == UNION {{S.rk[r].b[b].pt + D.tRP, S.rk[r].b[b].at + D.tRCD, S.rk[r].b[b].at + D.tRAS} : r \in hot.r, b \in hot.b}
  IN {x \in ({now + g : g \in {0, 1, 2, 3, 5, 8, 12}} \cup dl \cup bk) : x >= now + MinGap} \cup {now + MinGap + 1}

IsRankCmd(c) == c \in {"PREA", "REFA", "SREFEN", "SREFEX", "DSMEN", "DSMEX", "PDEA", "PDEP", "PDXA", "PDXP"}
Avail(S1, t) == {x \in CmdsOf(D) \X hot.r \X hot.b :
                   /\ IsRankCmd(x[1]) => x[3] = hot.b1
                   /\ (x[1] \in {"REFP2B", "REFDB"} => D.nb = 16)
                   /\ Legal(D, S1, x[1], x[2], x[3], t)}

Init == /\ m = [NR |-> 0] /\ S = [q |-> <<>>, last |-> 0, rk |-> <<>>] /\ now = 0 /\ tr = <<>> /\ pc = "cfg"
        /\ mode = "cc" /\ hot = [r |-> {}, b |-> {}, b1 |-> 0]

Setup ==
  /\ pc = "cfg"
  /\ \E c \in {Fix(CfgSet(now))} : \E md \in {R({"cc", "cc", "c"})} :
       /\ m' = c
       /\ mode' = md
       /\ \E r1 \in {R(1..c.NR)}, r2 \in {R(1..c.NR)}, b1 \in {R(1..c.NB)}, b2 \in {R(1..c.NB)}, b3 \in {R(1..c.NB)} :
            hot' = [r |-> {r1, r2}, b |-> {b1, b2, b3, ((b1 + 7) % c.NB) + 1}, b1 |-> b1]
       /\ S' = CoreNew(Derive(STD, c))
  /\ pc' = "run"
  /\ UNCHANGED <<now, tr>>

Query(t) ==
  LET S1 == Look(D, S, t)
  IN \E k \in {R(1..5)} :
       IF k = 1 /\ S.last > 0 THEN \* at the last command time
         LET tl == S.last   S2 == Look(D, S, tl)
         IN tr' = tr \o <<<<"last", tl>>, <<"g", Expect(S2, tl)>>>> /\ S' = S2 /\ now' = now
       ELSE /\ tr' = tr \o <<<<"q", t, Expect(S1, t)>>>>
            /\ S' = S1 /\ now' = t

Do(t) ==
  LET S1 == Run(D, S, t)
      av == Avail(S1, t)
      cs == {x[1] : x \in av}
  IN IF cs = {} THEN Query(t)
     ELSE \E cw \in {R(UNION {{<<c, i>> : i \in 1..W(c)} : c \in cs})} :
            \E x \in {R({y \in av : y[1] = cw[1]})} :
              \E row \in {R(0..7)}, bb \in {IF IsRankCmd(x[1]) THEN R(1..D.nb) ELSE x[3]} :
                /\ S' = Cmd(D, S, x[1], x[2], x[3], t)
                /\ tr' = Append(tr, <<mode, x[1], t, x[2] - 1, Bg(bb), bb - 1, row, 0>>)
                /\ now' = t

Step ==
  /\ pc = "run" /\ Len(tr) < STEPS
  /\ \E t \in {R(Times)}, k \in {R(1..10)} : IF k <= 3 THEN Query(t) ELSE Do(t)
  /\ UNCHANGED <<m, pc, mode, hot>>

\* nothing open, nothing deferred: after a while the history can be repeated, each time adding the same
Again(S1, t) ==
  IF STEPS < 20 /\ S1.q = <<>> /\ \A r \in DOMAIN S1.rk : S1.rk[r].st = "IDLE" /\ ~AnyOpen(S1.rk[r])
  THEN LET P == t + 1000 IN <<P, 1, Expect(S1, P)>> ELSE <<>>
\* mostly the end of the simulation is announced; that changes nothing but the time of the last command
Finish ==
  /\ pc = "run" /\ Len(tr) >= STEPS
  /\ \E d \in {R({0, 1, 3, 30, 200})}, e \in {IF STEPS < 20 THEN 0 ELSE R(0..3)}, g \in {R({0, 0, 1, 40})} :
     LET t == now + MinGap + d
         SE == IF e = 0 THEN S ELSE Cmd(D, S, "END", 1, 1, t)
         u == IF e = 0 THEN t ELSE t + g
         S1 == Look(D, SE, u)
     IN /\ PrintT(ToJson([std |-> STD, m |-> m, want |-> Want, again |-> Again(S1, u),
                          ops |-> tr \o (IF e = 0 THEN <<>> ELSE <<<<mode, "END", t, 0, 0, 0, 0, 0>>, <<"last", t>>>>) \o <<<<"q", u, Expect(S1, u)>>>>]))
        /\ S' = S1 /\ now' = u
  /\ pc' = "done"
  /\ UNCHANGED <<m, tr, mode, hot>>

Next == Setup \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
