-------------------------------- MODULE IfGen --------------------------------
(* Generates behaviours of the interface: legal sequences of commands on the *)
(* command and data bus, with what has to be reported about them.            *)
EXTENDS Iface, TLC, Json, IOUtils
D == INSTANCE MemSpecDerive

STD == IOEnv.STD
PROFILE == IOEnv.PROFILE   \* pattern, bus, data, tog, clock, dbi, frame, prepos
STEPS == atoi(IOEnv.STEPS)

VARIABLES m, sim, I,
          now,       \* nothing happens before
          cf, df,    \* command bus, data bus free from
          tr, pc
vars == <<m, sim, I, now, cf, df, tr, pc>>

R(A) == RandomElement(A)
CmdSet ==
  CASE STD = "DDR4" -> {"ACT", "PRE", "PREA", "REFA", "RD", "RDA", "WR", "WRA", "SREFEN", "SREFEX", "PDEA", "PDEP", "PDXA", "PDXP"}
    [] STD = "DDR5" -> {"ACT", "PRE", "PRESB", "PREA", "REFSB", "REFA", "RD", "RDA", "WR", "WRA", "SREFEN", "SREFEX", "PDEA", "PDEP", "PDXA", "PDXP", "NOP"}
    [] STD = "LPDDR4" -> {"ACT", "PRE", "PREA", "REFB", "REFA", "RD", "RDA", "WR", "WRA", "SREFEN", "SREFEX", "PDEA", "PDEP", "PDXA", "PDXP"}
    [] STD = "LPDDR5" -> {"ACT", "PRE", "PREA", "REFB", "REFP2B", "REFA", "RD", "RDA", "WR", "WRA", "SREFEN", "SREFEX", "DSMEN", "DSMEX", "PDEA", "PDEP", "PDXA", "PDXP"}
    [] STD = "LPDDR6" -> {"ACT", "PRE", "PREA", "REFDB", "REFA", "RD", "RDA", "WR", "WRA", "SREFEN", "SREFEX", "PDEA", "PDEP", "PDXA", "PDXP", "NOP"}
Data == {"RD", "RDA", "WR", "WRA"}
\* a memory with eight banks has no two-bank refresh
Cmds == CmdSet \ (IF STD = "LPDDR5" /\ Arch5(m) = "8B" THEN {"REFP2B"} ELSE {})

Cfg(z) ==
  LET dr == R(IF STD = "LPDDR5" \/ STD = "LPDDR6" THEN {2, 4, 8} ELSE {1, 2, 2, 4})
      base == [NR |-> R({1, 2}), DR |-> dr, WCKON |-> R({0, 1}), WCK2CK |-> R(IF dr = 2 THEN {1, 2} ELSE {2, 4, 4}),
               DQSR |-> R({1, 2, 4})]
      wide == STEPS \in 20..200 /\ PROFILE \in {"data", "tog"} /\ R(1..12) = 1      \* every storage class of the data bus
      wd == IF wide THEN R({<<16, 5>>, <<8, 16>>, <<4, 64>>, <<16, 17>>, <<16, 64>>, <<8, 129>>}) ELSE R({<<4, 1>>, <<4, 2>>, <<8, 1>>, <<8, 2>>, <<8, 4>>, <<16, 1>>, <<16, 2>>, <<4, 4>>})
      w8 == IF wide THEN R({<<8, 9>>, <<16, 16>>, <<16, 17>>, <<8, 65>>, <<16, 64>>}) ELSE R({<<8, 1>>, <<8, 2>>, <<16, 1>>, <<16, 2>>, <<8, 4>>})
  IN CASE STD = "DDR4" -> LET g == R({2, 4}) IN base @@ [NBG |-> g, NB |-> 4 * g, BL |-> 8, W |-> wd[1], ND |-> wd[2]]
       [] STD = "DDR5" -> LET g == R({4, 8}) IN base @@ [NBG |-> g, NB |-> 4 * g, BL |-> R({8, 16}), W |-> wd[1], ND |-> wd[2]]
       [] STD = "LPDDR4" -> base @@ [NBG |-> 1, NB |-> 8, BL |-> R({16, 32}), W |-> w8[1], ND |-> w8[2]]
       [] STD = "LPDDR5" -> LET a == R({D!Lp5Org(g) : g \in {<<16, 1>>, <<16, 0>>, <<16, 4>>, <<16, 4>>, <<8, 1>>, <<16, 2>>, <<8, 4>>, <<32, 4>>}})
                            IN base @@ a @@ [BL |-> R({16, 32}), W |-> w8[1], ND |-> w8[2]]
       [] STD = "LPDDR6" -> base @@ [NBG |-> 4, NB |-> 16, BL |-> R({24, 48}), W |-> 12, ND |-> 1]

SimCfg(z) == \* toggling definition in sixteenths: rates, duties, idle levels
  IF PROFILE \in {"tog"} \/ (PROFILE \in {"clock", "pattern", "prepos"} /\ R(1..4) = 1)
  THEN <<R(0..16), R(0..16), R(0..16), R(0..16), R({"L", "H"}), R({"L", "H"})>>
  ELSE <<>>

\* burst lengths in beats that a memory can transfer
Lens == CASE STD = "DDR4" -> {4, 8, 8, 8} [] STD = "DDR5" -> {8, 16, 16, 32} [] STD \in {"LPDDR4", "LPDDR5"} -> {16, 32} [] OTHER -> {24, 48}
SpecialByte == {0, 255, 1, 254, 15, 240, 31, 7, 127, 85, 170, 51}
Byte(z) == IF R(1..3) = 1 THEN R(0..255) ELSE R(SpecialByte)
Bytes(n) == CASE R(1..5) = 1 -> LET b == R(SpecialByte) IN TLCEval([i \in 1..n |-> b])
              [] OTHER -> TLCEval([i \in 1..n |-> Byte(i)])

Want ==
  CASE PROFILE \in {"pattern", "bus"} -> <<"cmd">>
    [] PROFILE = "data" -> <<"rd", "wr">>
    [] PROFILE = "tog" -> <<"rtog", "wtog", "rd", "wr">>
    [] PROFILE = "clock" -> <<"ck", "wck", "rdqs", "wdqs">>
    [] PROFILE = "dbi" -> <<"rdbi", "wdbi", "rd", "wr">>
    [] PROFILE = "frame" -> <<"rd", "wr", "rdbi", "wdbi">>
    [] PROFILE = "prepos" -> <<"prepos">>
Expect(J, t) == [i \in DOMAIN Want |-> Report(STD, m, sim, J, t, Want[i])]

Init == /\ m = [NR |-> 0] /\ sim = <<>> /\ I = [cmd |-> 0] /\ now = 0 /\ cf = 0 /\ df = 0 /\ tr = <<>> /\ pc = "cfg"

Setup ==
  /\ pc = "cfg"
  /\ \E c \in {Cfg(now)}, s \in {SimCfg(now)}, t \in {R({1, 1, 7, 64, 20000})} :
       /\ m' = c /\ sim' = s
       /\ \E on \in {R({0, 1, 1})} :
            IF PROFILE \in {"dbi", "frame"} /\ on = 1
            THEN /\ I' = [IfNew(STD, c) EXCEPT !.dbi = HasDbi(STD) /\ DbiAllowed(STD, c)]
                 /\ tr' = <<<<"dbi", 0, 1, IF HasDbi(STD) THEN (IF DbiAllowed(STD, c) THEN 1 ELSE 0) ELSE "none">>>>
            ELSE I' = IfNew(STD, c) /\ tr' = tr
       /\ now' = t /\ cf' = t /\ df' = t
  /\ pc' = "run"

Max2(a, b) == IF a > b THEN a ELSE b
Query ==
  \E T \in {now + R({0, 0, 1, 1, 2, 3, 4, 6, 9, 17, 50, 500})} :
    /\ tr' = Append(tr, <<"q", T, Expect(I, T)>>)
    /\ now' = T /\ UNCHANGED <<I, cf, df>>

Kinds == CASE PROFILE \in {"data", "tog", "dbi", "frame", "prepos", "clock"} ->
                {<<c, i>> : c \in Data, i \in 1..8} \cup {<<c, 1>> : c \in Cmds}
           [] OTHER -> {<<c, 1>> : c \in Cmds} \cup {<<c, 2>> : c \in Data \cup {"ACT"}}
Gap(z) == IF PROFILE \in {"pattern"} THEN R({0, 0, 0, 0, 0, 1, 2, 5}) ELSE R({0, 0, 0, 1, 1, 2, 3, 4, 8, 40, 700})

MkCmd(ty, t, n, d) ==
  [ty |-> ty, t |-> t, r |-> R(1..m.NR), bg |-> IF m.NBG = 0 THEN 0 ELSE R(0..(m.NBG - 1)), ba |-> R(0..(m.NB - 1)),
   row |-> R({R(0..262143), R(0..262143), 0, 262143}), col |-> R({R(0..4095), R(0..4095), 0, 4095}), n |-> n, d |-> d]

Do ==
  \E k \in {R(Kinds)}, g \in {Gap(now)}, dm \in {R(1..8)}, len \in {R(Lens)} :
    LET ty == k[1]
        isd == ty \in Data
        t == Max2(now, Max2(cf, IF isd THEN df ELSE 0)) + g
        payload == IF STD = "LPDDR6" THEN (IF len = 24 THEN 256 ELSE 512) ELSE len * Width(m)
        \* mostly data, sometimes only a length, sometimes nothing
        nodata == PROFILE \in {"pattern", "bus", "clock", "prepos"} /\ dm > 2
        how == CASE ~isd -> 0 [] dm = 1 /\ PROFILE \notin {"data", "dbi", "frame"} -> 0 [] nodata \/ dm = 2 -> 1 [] OTHER -> 2
    IN \E d \in {IF how = 2 THEN Bytes(payload \div 8) ELSE <<>>} :
       \E x \in {MkCmd(ty, t, IF how = 0 THEN 0 ELSE payload, d)} :
         /\ I' = TLCEval(IfCmd(STD, m, sim, I, x))
         /\ tr' = Append(tr, <<"ci", ty, t, x.r - 1, x.bg, x.ba, x.row, x.col>> \o
                             (CASE how = 0 -> <<>> [] how = 1 -> <<x.n>> [] OTHER -> << <<"B">> \o x.d >>))
         /\ now' = t
         /\ cf' = t + CmdCycles(STD, m, x)
         /\ df' = IF isd THEN t + DataCycles(STD, m, sim, x) ELSE df

ToggleDbi ==
  \E en \in {R({0, 1, 1})} :
    LET has == HasDbi(STD)  ok == DbiAllowed(STD, m)
        t == Max2(now, df)   \* between bursts
    IN /\ tr' = tr \o <<<<"dbi", t, en, IF ~has THEN "none" ELSE IF ok THEN 1 ELSE 0>>,
                        <<"isdbi", IF ~has THEN "none" ELSE IF ok /\ en = 1 THEN 1 ELSE 0>>>>
       /\ I' = [I EXCEPT !.dbi = has /\ ok /\ en = 1]
       /\ now' = t /\ UNCHANGED <<cf, df>>

SetMeta ==
  \E a \in {R({0, 65535, R(0..65535)})}, b \in {R({0, 65535, R(0..65535)})} :
    /\ tr' = tr \o <<<<"meta", a, b>>, <<"getmeta", <<a, b>>>>>>
    /\ I' = [I EXCEPT !.meta = <<a, b>>]
    /\ UNCHANGED <<now, cf, df>>

SetPar ==
  \E s \in {R({0, 1})} :
    /\ tr' = tr \o <<<<"par", s>>, <<"ifstate", <<1, s>>>>>>
    /\ I' = [I EXCEPT !.par = s = 1]
    /\ UNCHANGED <<now, cf, df>>

\* off and on again; nothing is sent in between
Nap ==
  LET t == Max2(now, Max2(cf, df)) + 1 IN
  \E a \in {t + R({0, 0, 1, 7})}, g \in {R({1, 2, 3, 500})}, h \in {R({0, 0, 1, 8})}, k \in {R(1..4)} :
  \E J \in {IfOff(m, I, a)} :
    /\ tr' = tr \o <<<<"ioff", a>>, <<"ifstate", <<0, IF I.par THEN 1 ELSE 0>>>>>>
                \o (IF k = 1 THEN <<<<"ser", 1>>, <<"ifstate", <<0, IF I.par THEN 1 ELSE 0>>>>>> ELSE <<>>)
                \o (IF k = 2 THEN <<<<"ioff", a + g>>>> ELSE <<>>)
                \o (IF k < 4 THEN <<<<"q", a + g, Expect(J, a + g)>>>> ELSE <<>>)
                \o <<<<"ion", a + g + h>>, <<"ifstate", <<1, IF I.par THEN 1 ELSE 0>>>>>>
    /\ I' = IfOn(J, a + g + h)
    /\ now' = a + g + h /\ UNCHANGED <<cf, df>>

Step ==
  /\ pc = "run" /\ Len(tr) < STEPS
  /\ \E k \in {R(1..20)} :
       IF k <= (IF PROFILE = "pattern" THEN 11 ELSE 7) THEN Query
       ELSE IF k = 12 /\ PROFILE \in {"dbi", "frame"} THEN ToggleDbi
       ELSE IF k = 13 /\ PROFILE = "frame" THEN SetMeta
       ELSE IF k = 13 /\ PROFILE = "clock" /\ STD = "LPDDR6" THEN Nap
       ELSE IF k = 13 /\ PROFILE \in {"pattern", "bus"} /\ STD = "LPDDR6" /\ m.WCKON = 1 THEN SetPar
       ELSE Do
  /\ UNCHANGED <<m, sim, pc>>

\* every line idle and nothing switched: after a while the history can be repeated, each time adding the same
Again(T) ==
  IF STEPS < 20 /\ ~I.dbi /\ ~I.par /\ I.meta = <<0, 0>> /\ I.on = 0
  THEN LET P == ((T + 200) \div 64 + 1) * 64
           \* activity is rounded down: 32 rounds give a whole number
           Often(g) == [n |-> 32 * TogBeats(g, P * m.DR), s |-> 0, l |-> 0]
       IN IF PROFILE = "tog" THEN <<P, 32, Expect([I EXCEPT !.rt = Often(@), !.wt = Often(@)], 32 * P)>> ELSE <<P, 1, Expect(I, P)>>
  ELSE <<>>
\* mostly the end of the simulation is announced, which no line shows
Finish ==
  /\ pc = "run" /\ Len(tr) >= STEPS
  /\ \E T \in {Max2(now, Max2(cf, df)) + R({0, 0, 1, 3, 100})}, e \in {IF STEPS < 20 THEN 0 ELSE R(0..3)}, g \in {R({1, 7})} :
       /\ PrintT(ToJson([std |-> STD, m |-> m, sim |-> sim, want |-> Want,
                         idle |-> [i \in DOMAIN Want |-> Report(STD, m, sim, IfNew(STD, m), 64, Want[i])],
                         again |-> Again(T),
                         ops |-> tr \o (IF e = 0 THEN <<>> ELSE IF e = 1 THEN <<<<"ci", "END", T, 0, 0, 0, 0, 0>>>>
                                        ELSE <<<<"q", T, Expect(I, T)>>, <<"ci", "END", T, 0, 0, 0, 0, 0>>, <<"last", T>>, <<"q", T + g, Expect(I, T + g)>>>>)
                                   \o (IF e < 2 THEN <<<<"q", T, Expect(I, T)>>>> ELSE <<>>)]))
       /\ now' = T
  /\ pc' = "done"
  /\ UNCHANGED <<m, sim, I, cf, df, tr>>

Next == Setup \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
