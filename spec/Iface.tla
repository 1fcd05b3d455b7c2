------------------------------- MODULE Iface -------------------------------
(* The interface side of a simulated memory: the command/address bus, the    *)
(* data bus, data bus inversion, strobes and clocks, the LPDDR6 frame.        *)
(*                                                                           *)
(* A line is high or low in every beat.  A beat of a bus is the set of its   *)
(* lines that are high.  Whatever is reported about a bus at a time T is a   *)
(* function of its waveform before T.                                        *)
EXTENDS Integers, Sequences, FiniteSets, Patterns

LOCAL Min2(a, b) == IF a < b THEN a ELSE b

\* ---------------------------------------------------------------- one bus
\* w lines; idle: lines that idle high; t: beats accounted; prev: beat t-1;
\* q: beats that follow; st: ones, zeros, changes, 1->0, 0->1
BusNew(w, idle) == [w |-> w, idle |-> idle, t |-> 0, prev |-> idle, q |-> <<>>, st |-> <<0, 0, 0, 0, 0>>]

Beat(b, x, n) == \* n equal beats x
  LET o == Cardinality(x)
      f == Cardinality(b.prev \ x)
      r == Cardinality(x \ b.prev)
  IN [b EXCEPT !.t = @ + n, !.prev = x,
               !.st = <<@[1] + n * o, @[2] + n * (b.w - o), @[3] + f + r, @[4] + f, @[5] + r>>]
RECURSIVE BusTo(_, _)
BusTo(b, T) ==
  IF b.t >= T THEN b
  ELSE IF b.q = <<>> THEN Beat(b, b.idle, T - b.t)
  ELSE BusTo([Beat(b, Head(b.q), 1) EXCEPT !.q = Tail(@)], T)
BusLoad(b, T, beats) == [BusTo(b, T) EXCEPT !.q = beats]
BusStat(b, T) == BusTo(b, T).st
Add5(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4], a[5] + b[5]>>
Mul5(k, a) == <<k * a[1], k * a[2], k * a[3], k * a[4], k * a[5]>>
RECURSIVE SumStat(_, _, _)
SumStat(bs, T, i) == IF i > Len(bs) THEN <<0, 0, 0, 0, 0>> ELSE Add5(BusStat(bs[i], T), SumStat(bs, T, i + 1))

\* ---------------------------------------------------------------- data
\* data: sequence of bytes, bit i is bit i%8 of byte i/8
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
BitOf(x, i) == (x \div Pow2[i + 1]) % 2          \* i in 0..15
DBit(data, i) == BitOf(data[(i \div 8) + 1], i % 8)
Ones8(x) == BitOf(x, 0) + BitOf(x, 1) + BitOf(x, 2) + BitOf(x, 3) + BitOf(x, 4) + BitOf(x, 5) + BitOf(x, 6) + BitOf(x, 7)
\* the word of the highest bits is the first beat
DataBeats(data, n, w) ==
  LET k == n \div w
  IN [i \in 1..k |-> {j \in 0..(w - 1) : DBit(data, (k - i) * w + j) = 1}]

\* ---------------------------------------------------------------- inversion
\* A group is inverted iff more than half of its lines would leave the idle level.
\* g: bytes per group.  The flags of a burst, in order of the data.
GroupOnes(data, g, c) == IF g = 1 THEN Ones8(data[c]) ELSE Ones8(data[2 * c - 1]) + Ones8(data[2 * c])
Flags(data, g, idleHigh) ==
  [c \in 1..(Len(data) \div g) |->
     LET o == GroupOnes(data, g, c) IN IF idleHigh THEN 2 * o < 8 * g ELSE 2 * o > 8 * g]
Transmitted(data, g, fl) == [i \in DOMAIN data |-> IF fl[((i - 1) \div g) + 1] THEN 255 - data[i] ELSE data[i]]

\* ---------------------------------------------------------------- LPDDR6 frame
\* 24 beats of 12 lines carry 256 payload bits, 16 metadata bits, 16 inversion flags
Special == {4, 5, 10, 11}
GroupOf(dq) == CASE dq = 4 -> 0 [] dq = 5 -> 1 [] dq = 10 -> 2 [] dq = 11 -> 3
BlockBase == <<0, 48, 96, 128, 176, 224>>
PayloadIdx(beat, dq) ==
  LET k == beat \div 4
      p == IF k \in {2, 5} THEN (IF dq < 4 THEN dq ELSE dq - 2) ELSE dq
  IN BlockBase[k + 1] + 4 * p + (beat % 4)
FrameBit(data, f, meta, fl, beat, dq) == \* f: 0 or 1, which frame
  IF dq \in Special /\ beat \in 8..11 THEN BitOf(meta[f + 1], 4 * GroupOf(dq) + beat - 8) = 1
  ELSE IF dq \in Special /\ beat \in 20..23 THEN fl /= <<>> /\ fl[16 * f + 4 * GroupOf(dq) + beat - 20 + 1]
  ELSE DBit(data, 256 * f + PayloadIdx(beat, dq)) = 1
FrameBeats(data, meta, fl) ==
  [i \in 1..(24 * ((8 * Len(data)) \div 256)) |->
     LET f == (i - 1) \div 24 beat == (i - 1) % 24 IN {dq \in 0..11 : FrameBit(data, f, meta, fl, beat, dq)}]

\* ---------------------------------------------------------------- toggling
\* rates and duty cycles in sixteenths
TogNew == [n |-> 0, s |-> 0, l |-> 0]
TogLoad(g, T, len) == [n |-> g.n + g.l, s |-> T, l |-> len]
TogBeats(g, T) == g.n + Min2(g.l, T - g.s)
TogStat(g, T, w, rate, duty, idle) ==
  LET c == TogBeats(g, T)
      x == (c * rate) \div 32
      o == (c * duty) \div 16 + (IF idle = "H" THEN T - c ELSE 0)
      z == (c * (16 - duty)) \div 16 + (IF idle = "L" THEN T - c ELSE 0)
  IN Mul5(w, <<o, z, 2 * x, x, x>>)

\* ---------------------------------------------------------------- clocks
\* h: half periods (beats divided by two) so far
ClkStat(h) == <<h, h, 2 * h, h, h>>

\* ---------------------------------------------------------------- configuration
\* m: raw memory specification; sim: toggling definition or <<>>
Width(m) == m.W * m.ND
IdleHigh(std) == std \in {"DDR4", "DDR5"}
AllHigh(w) == 0..(w - 1)
CmdWidth(std) == CASE std = "DDR4" -> 27 [] std = "DDR5" -> 14 [] std = "LPDDR4" -> 6 [] std = "LPDDR5" -> 7 [] std = "LPDDR6" -> 4
CmdRate(std) == IF std \in {"LPDDR5", "LPDDR6"} THEN 2 ELSE 1
HasDbi(std) == std /= "DDR5"
DbiPins(std, m) == IF std \in {"DDR4", "LPDDR4", "LPDDR5"} THEN Width(m) \div 8 ELSE 0
DbiAllowed(std, m) == ~(std = "DDR4" /\ m.W = 4)

IfNew(std, m) ==
  LET di == IF IdleHigh(std) THEN AllHigh(Width(m)) ELSE {}
      ci == IF IdleHigh(std) THEN AllHigh(CmdWidth(std)) ELSE {}
      \* the inversion pin is asserted by leaving its idle level
      pin == BusNew(1, IF std = "DDR4" THEN {0} ELSE {})
  IN [cmd |-> BusNew(CmdWidth(std), ci),
      rd |-> BusNew(Width(m), di), wr |-> BusNew(Width(m), di),
      rp |-> [i \in 1..DbiPins(std, m) |-> pin], wp |-> [i \in 1..DbiPins(std, m) |-> pin],
      rt |-> TogNew, wt |-> TogNew,
      rq |-> 0, wq |-> 0, wck |-> 0,
      dbi |-> FALSE, meta |-> <<0, 0>>,
      par |-> FALSE,                 \* LPDDR6: parity of command words
      on |-> 0, ck |-> 0, wk |-> 0,  \* LPDDR6: interface on since (-1: off), half periods of the clocks before
      re |-> [i \in 1..m.NR |-> 0], we |-> [i \in 1..m.NR |-> 0],
      rs |-> [i \in 1..m.NR |-> 0], ws |-> [i \in 1..m.NR |-> 0]]

\* ---------------------------------------------------------------- commands
\* x: [ty, t, r, bg, ba, row, col, n, d]; n bits, d bytes (<<>>: no data given)
IsRead(ty) == ty \in {"RD", "RDA"}
IsData(ty) == ty \in {"RD", "RDA", "WR", "WRA"}
\* beats of a data command as the memory sees them
Len6(std, n) == IF std = "LPDDR6" THEN n + 32 * (IF n >= 512 THEN 2 ELSE 1) ELSE n
BurstBeats(std, m, togmode, x) ==
  IF x.n = 0 THEN (IF togmode THEN m.BL ELSE 0) ELSE Len6(std, x.n) \div Width(m)

CmdBeats(std, m, x, len, par) == \* beats on the command bus, as sets of lines
  LET w == CmdWidth(std)
      p == Pattern(std, m, x.ty)
      B(d) == DescBit(std, m, d, x, len)
      \* even parity over the sixteen bits of two clock cycles
      Odd(i) == LET o == ((i - 1) \div 16) * 16 IN Cardinality({j \in (o + 1)..(o + 16) : B(p[j])}) % 2 = 1
      C(i) == IF par /\ p[i] = PAR THEN Odd(i) ELSE B(p[i])
  IN [k \in 1..(Len(p) \div w) |-> {j \in 0..(w - 1) : C((k - 1) * w + (w - j))}]

DqsRate(std, m) == IF std = "DDR5" THEN m.DQSR ELSE m.DR

PinBeats(fl, pins, p, hi) == \* flags of pin p, beat after beat
  [k \in 1..(Len(fl) \div pins) |-> IF fl[(k - 1) * pins + p] /= hi THEN {0} ELSE {}]

DoData(std, m, sim, I, x) ==
  LET rd == IsRead(x.ty)
      tm == sim /= <<>>
      len == BurstBeats(std, m, tm, x)
      cyc == len \div m.DR
      vt == x.t * m.DR
      usedbi == ~tm /\ I.dbi /\ x.d /= <<>>
      g == IF std = "LPDDR6" THEN 2 ELSE 1
      fl == IF usedbi THEN Flags(x.d, g, std = "DDR4") ELSE <<>>
      sent == IF usedbi THEN Transmitted(x.d, g, fl) ELSE x.d
      beats == IF std = "LPDDR6" THEN FrameBeats(sent, I.meta, fl) ELSE DataBeats(sent, x.n, Width(m))
      I1 == IF tm THEN (IF rd THEN [I EXCEPT !.rt = TogLoad(@, vt, len)] ELSE [I EXCEPT !.wt = TogLoad(@, vt, len)])
            ELSE IF x.d = <<>> THEN I
            ELSE IF rd THEN [I EXCEPT !.rd = BusLoad(@, vt, beats)] ELSE [I EXCEPT !.wr = BusLoad(@, vt, beats)]
      np == DbiPins(std, m)
      PB(p) == PinBeats(fl, np, p, std = "DDR4")
      I2 == IF ~usedbi \/ np = 0 THEN I1
            ELSE IF rd THEN [I1 EXCEPT !.rp = [p \in 1..np |-> BusLoad(I1.rp[p], vt, PB(p))]]
            ELSE [I1 EXCEPT !.wp = [p \in 1..np |-> BusLoad(I1.wp[p], vt, PB(p))]]
      h == (cyc * DqsRate(std, m)) \div 2
      hw == IF std \in {"LPDDR5", "LPDDR6"} THEN (cyc * (m.DR \div m.WCK2CK)) \div 2 ELSE 0
      I3 == [I2 EXCEPT !.rq = IF rd THEN @ + h ELSE @,
                       !.wq = IF rd THEN @ ELSE @ + h,
                       !.wck = @ + hw]
      r == x.r
      e == x.t + cyc
  IN IF rd THEN [I3 EXCEPT !.rs[r] = IF I3.re[r] = x.t THEN @ + 1 ELSE @, !.re[r] = e]
     ELSE [I3 EXCEPT !.ws[r] = IF I3.we[r] = x.t THEN @ + 1 ELSE @, !.we[r] = e]

IfCmd(std, m, sim, I, x) ==
  LET I1 == IF IsData(x.ty) THEN DoData(std, m, sim, I, x) ELSE I
      len == IF IsData(x.ty) THEN BurstBeats(std, m, sim /= <<>>, x) ELSE 0
      b == CmdBeats(std, m, x, len, I.par)
  IN IF b = <<>> THEN I1 ELSE [I1 EXCEPT !.cmd = BusLoad(@, x.t * CmdRate(std), b)]

\* cycles the command occupies the command bus, and the data bus
CmdCycles(std, m, x) == (Len(Pattern(std, m, x.ty)) \div CmdWidth(std) + CmdRate(std) - 1) \div CmdRate(std)
DataCycles(std, m, sim, x) == IF IsData(x.ty) THEN BurstBeats(std, m, sim /= <<>>, x) \div m.DR ELSE 0

\* ---------------------------------------------------------------- LPDDR6: the interface switched off and on
\* Its clocks stand still while it is off.
Wck6(m) == m.DR \div m.WCK2CK
Run6(I, T, rate) == IF I.on < 0 THEN 0 ELSE ((T - I.on) * rate) \div 2
IfOff(m, I, t) == IF I.on < 0 THEN I ELSE [I EXCEPT !.ck = @ + Run6(I, t, 2), !.wk = @ + Run6(I, t, Wck6(m)), !.on = -1]
IfOn(I, t) == IF I.on >= 0 THEN I ELSE [I EXCEPT !.on = t]

\* ---------------------------------------------------------------- what is reported at T
Report(std, m, sim, I, T, w) ==
  LET W == Width(m)   vt == T * m.DR  tm == sim /= <<>>
      pairs == IF std \in {"DDR4", "DDR5", "LPDDR4"} /\ m.W = 16 THEN 2 ELSE 1   \* differential pairs per direction
      Z == <<0, 0, 0, 0, 0>>
  IN CASE w = "cmd" -> BusStat(I.cmd, T * CmdRate(std))
       [] w = "rd" -> IF tm THEN Z ELSE BusStat(I.rd, vt)
       [] w = "wr" -> IF tm THEN Z ELSE BusStat(I.wr, vt)
       [] w = "rtog" -> IF tm THEN TogStat(I.rt, vt, W, sim[1], sim[3], sim[5]) ELSE Z
       [] w = "wtog" -> IF tm THEN TogStat(I.wt, vt, W, sim[2], sim[4], sim[6]) ELSE Z
       [] w = "rdbi" -> SumStat(I.rp, vt, 1)
       [] w = "wdbi" -> SumStat(I.wp, vt, 1)
       [] w = "ck" -> Mul5(2, ClkStat(I.ck + Run6(I, T, 2)))
       [] w = "wck" -> IF std \notin {"LPDDR5", "LPDDR6"} THEN Z
                       ELSE IF m.WCKON = 1 THEN Mul5(2, ClkStat(I.wk + Run6(I, T, Wck6(m))))
                       ELSE Mul5(2, ClkStat(I.wck))
       [] w = "rdqs" -> Mul5(2 * pairs, ClkStat(I.rq))
       [] w = "wdqs" -> IF std \in {"LPDDR5", "LPDDR6"} THEN Z ELSE Mul5(2 * pairs, ClkStat(I.wq))
       [] w = "prepos" -> IF std = "DDR4" THEN [i \in 1..m.NR |-> <<0, 0, 0, 0, I.rs[i], I.ws[i]>>] ELSE <<>>
=============================================================================
