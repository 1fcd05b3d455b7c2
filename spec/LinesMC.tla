------------------------------- MODULE LinesMC -------------------------------
(* Every history of a small line group.  The bookkeeping of Lines agrees with   *)
(* the waveform, written down here line by line from the full record of what    *)
(* was asked for: when the group was on, and which burst was started when.      *)
EXTENDS Lines, TLC, IOUtils
MODE == IOEnv.MODE       \* bus, tog, data, clock, pin
N == atoi(IOEnv.N)       \* horizon in cycles
DR == atoi(IOEnv.DR)
W == atoi(IOEnv.W)       \* lines

\* on: what happened, <<t, 1>> switched on and <<t, 0>> off (the first one at 0); ld: <<t, beats, switchings before>>
VARIABLES st, on, ld, now
vars == <<st, on, ld, now>>

\* the last switching at or before beat b: its index in the record
At(o, b) == CHOOSE i \in DOMAIN o : o[i][1] * DR <= b /\ \A j \in DOMAIN o : o[j][1] * DR <= b => j <= i
IsOn(o, b) == o[At(o, b)][2] = 1
\* burst under way at beat b: its index in the record or 0.  It ends with the time on in which it began.
Under(o, l, b) ==
  LET c == {i \in DOMAIN l : l[i][3] = At(o, b) /\ l[i][1] * DR <= b /\ b < l[i][1] * DR + Len(l[i][2])}
  IN IF c = {} THEN 0 ELSE CHOOSE i \in c : TRUE
Wave(o, l, idle, b) ==
  IF ~IsOn(o, b) THEN idle
  ELSE LET i == Under(o, l, b) IN IF i = 0 THEN idle ELSE l[i][2][b - l[i][1] * DR + 1]
\* the beat before: nothing is carried over a time switched off
Before(o, l, idle, b) == IF b = 0 \/ ~IsOn(o, b - 1) THEN idle ELSE Wave(o, l, idle, b - 1)
RECURSIVE Sum(_, _, _, _)
Sum(o, l, idle, b) ==   \* of the beats before b
  IF b = 0 THEN <<0, 0, 0, 0, 0>>
  ELSE LET r == Sum(o, l, idle, b - 1) IN
       IF ~IsOn(o, b - 1) THEN r
       ELSE LET x == Wave(o, l, idle, b - 1)  p == Before(o, l, idle, b - 1)
                ones == Cardinality(x)  f == Cardinality(p \ x)  g == Cardinality(x \ p)
            IN <<r[1] + ones, r[2] + W - ones, r[3] + f + g, r[4] + f, r[5] + g>>
BeatsOn(o, T) == Cardinality({b \in 0..(T - 1) : IsOn(o, b)})
BeatsBurst(o, l, T) == Cardinality({b \in 0..(T - 1) : IsOn(o, b) /\ Under(o, l, b) /= 0})

Lines1 == 0..(W - 1)
Bursts == {<<x>> : x \in SUBSET Lines1} \cup {<<x, y>> : x, y \in SUBSET Lines1} \cup {<<{}, Lines1, {}>>, <<Lines1, {}, Lines1>>}
NowOn == on[Len(on)][2] = 1
Last == on[Len(on)][1]
Idl == Idle(W, "H")
OnAt(t) == t > Last      \* strictly later than switching off

Room == Len(ld) < 3
BusNext ==
  \E t \in now..N : now' = t /\
    \/ /\ NowOn /\ Room /\ t >= LnFree(st)
       /\ \E q \in Bursts : st' = LnLoad(st, t, q) /\ ld' = Append(ld, <<t, q, Len(on)>>)
       /\ UNCHANGED on
    \/ NowOn /\ st' = LnOff(st, t) /\ on' = Append(on, <<t, 0>>) /\ UNCHANGED ld
    \/ ~NowOn /\ OnAt(t) /\ st' = LnOn(st, t) /\ on' = Append(on, <<t, 1>>) /\ UNCHANGED ld
BusInv == \A T \in now..(N + 2) : LnStat(st, T) = Sum(on, ld, st.b.idle, T * DR)

\* rate 1/2, duty 1/4
WaveTog(o, l, T, w, idle) ==
  LET c == BeatsBurst(o, l, T * DR)  live == BeatsOn(o, T * DR)  e == (8 * c) \div 32
      n == (4 * c) \div 16 + (IF idle = "H" THEN live - c ELSE 0)
      z == (12 * c) \div 16 + (IF idle = "L" THEN live - c ELSE 0)
  IN <<w * n, w * z, w * 2 * e, w * e, w * e>>
Len1(n) == [i \in 1..n |-> {}]
TogNext ==
  \E t \in now..N : now' = t /\
    \/ /\ NowOn /\ Room /\ t >= TgFree(st)
       /\ \E n \in 1..4 : st' = TgLoad(st, t, n) /\ ld' = Append(ld, <<t, Len1(n), Len(on)>>)
       /\ UNCHANGED on
    \/ NowOn /\ st' = TgOff(st, t) /\ on' = Append(on, <<t, 0>>) /\ UNCHANGED ld
    \/ ~NowOn /\ OnAt(t) /\ st' = TgOn(st, t) /\ on' = Append(on, <<t, 1>>) /\ UNCHANGED ld
TogInv == \A T \in now..(N + 2) : TgStat(st, T) = WaveTog(on, ld, T, W, st.idle)

\* data bus: ld of reads only; on: 1 the bus, 0 the estimator.  Together they see every beat exactly once.
Def == <<8, 8, 4, 4, "L", "H">>
Other(o) == [i \in DOMAIN o |-> <<o[i][1], 1 - o[i][2]>>]
DataNext ==
  \E t \in now..N : now' = t /\
    \/ /\ Room /\ t >= DbFree(st)
       /\ \E q \in {<<{}>>, <<Lines1>>, <<Lines1, {0}, Lines1>>} : st' = DbRead(st, t, Len(q), q) /\ ld' = Append(ld, <<t, q, Len(on)>>)
       /\ UNCHANGED on
    \/ NowOn /\ st' = DbTog(st, t) /\ on' = Append(on, <<t, 0>>) /\ UNCHANGED ld
    \/ ~NowOn /\ OnAt(t) /\ st' = DbBus(st, t) /\ on' = Append(on, <<t, 1>>) /\ UNCHANGED ld
DataInv == \A T \in now..(N + 2) : LET s == DbStat(st, T) IN
  /\ s[1] = Sum(on, ld, {}, T * DR)
  /\ s[3] = WaveTog(Other(on), ld, T, W, "L")
  /\ s[1][1] + s[1][2] + s[3][1] + s[3][2] <= W * T * DR        \* rounded down
  /\ s[1][1] + s[1][2] + s[3][1] + s[3][2] >= W * (T * DR - 1)
  /\ s[2] = <<W * BeatsOn(on, T * DR), 0, 0, 0, 0>>
  /\ s[4] = <<W * (T * DR - BeatsOn(on, T * DR)), 0, 0, 0, 0>>
  /\ st.bus = NowOn

ClockNext ==
  \E t \in now..N : now' = t /\ UNCHANGED ld /\
    \/ NowOn /\ t > Last /\ st' = CkStop(st, t) /\ on' = Append(on, <<t, 0>>)
    \/ ~NowOn /\ st' = CkStart(st, t) /\ on' = Append(on, <<t, 1>>)
ClockInv == \A T \in now..(N + 2) : LET h == BeatsOn(on, T * DR) \div 2 IN CkStat(st, T) = <<h, h, 2 * h, h, h>>

\* ld: bursts <<t, levels>>; on is unused.  The record of levels beat by beat, the initial one first
Lvl(l, init, idle, b) ==
  IF b < 0 THEN init ELSE
  LET c == {i \in DOMAIN l : l[i][1] * DR <= b /\ b < l[i][1] * DR + Len(l[i][2])}
  IN IF c = {} THEN idle ELSE LET i == CHOOSE j \in c : TRUE IN l[i][2][b - l[i][1] * DR + 1]
Count(l, init, idle, T, P(_, _)) == Cardinality({b \in 0..(T - 1) : P(Lvl(l, init, idle, b - 1), Lvl(l, init, idle, b))})
High(p, x) == x = "H"
Low(p, x) == x = "L"
Fall(p, x) == p = "H" /\ x = "L"
Rise(p, x) == p = "L" /\ x = "H"
PnWave(l, init, idle, T) ==
  LET f == Count(l, init, idle, T, Fall)  g == Count(l, init, idle, T, Rise)
  IN <<Count(l, init, idle, T, High), Count(l, init, idle, T, Low), f + g, f, g>>
PnFree == (st.t + Len(st.q) + DR - 1) \div DR
PinNext ==
  \E t \in now..N : /\ now' = t /\ UNCHANGED on /\ Len(ld) < 3 /\ t >= PnFree
    /\ \E q \in {<<x>> : x \in {"H", "L"}} \cup {<<x, y>> : x, y \in {"H", "L"}} \cup {<<"H", "L", "H">>} :
         st' = PnLoad(st, t * DR, q) /\ ld' = Append(ld, <<t, q>>)
PinInv == \A T \in (now * DR)..((N + 2) * DR) : PnStat(st, T) = PnWave(ld, on[1], st.idle, T)

Init ==
  /\ now = 0 /\ ld = <<>>
  /\ IF MODE = "pin" THEN \E v, i \in {"L", "H", "Z"} : on = <<v>> /\ st = PnNew(v, i) ELSE \E v \in {0, 1}, i \in {"L", "H"} :
       /\ on = <<<<0, v>>>>
       /\ CASE MODE = "bus" -> st = LnNew(W, Idle(W, i), DR, v = 1)
            [] MODE = "tog" -> st = TgNew(W, DR, 8, 4, i, v = 1)
            [] MODE = "data" -> st = DbNew(W, DR, Def, v = 1)
            [] OTHER -> st = CkNew(DR, v = 1)
Next == CASE MODE = "bus" -> BusNext [] MODE = "tog" -> TogNext [] MODE = "data" -> DataNext [] MODE = "pin" -> PinNext [] OTHER -> ClockNext
Spec == Init /\ [][Next]_vars
Inv == CASE MODE = "bus" -> BusInv [] MODE = "tog" -> TogInv [] MODE = "data" -> DataInv [] MODE = "pin" -> PinInv [] OTHER -> ClockInv
\* nothing is ever taken back
Now5 == CASE MODE = "bus" -> LnStat(st, now) [] MODE = "tog" -> TgStat(st, now) [] MODE = "data" -> DbStat(st, now)[1] [] MODE = "pin" -> PnStat(st, now * DR) [] OTHER -> CkStat(st, now)
Mono == [][\A i \in 1..5 : Now5'[i] >= Now5[i]]_vars
=============================================================================
