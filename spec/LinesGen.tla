------------------------------- MODULE LinesGen -------------------------------
(* Generates histories of one line group with what has to be observed.         *)
EXTENDS Lines, TLC, Json, IOUtils
PROFILE == IOEnv.PROFILE      \* lines
STEPS == atoi(IOEnv.STEPS)
VARIABLES st, kind, tr, now, pc
vars == <<st, kind, tr, now, pc>>
R(A) == RandomElement(A)
W(q) == q[RandomElement(DOMAIN q)]
Gap(z) == W(<<0, 0, 0, 1, 1, 1, 2, 3, 5, 9, 30, 700>>)
Later(z) == W(<<1, 1, 2, 3, 7, 40, 500>>)
Bits(n) == LET k == R(1..6) IN
  CASE k = 1 -> TLCEval([i \in 1..n |-> 1]) [] k = 2 -> TLCEval([i \in 1..n |-> 0])
    [] k = 3 -> TLCEval([i \in 1..n |-> i % 2]) [] OTHER -> TLCEval([i \in 1..n |-> R({0, 1})])
\* the word of the last bits is the first beat
BeatsOf(q, w) == [i \in 1..(Len(q) \div w) |-> {j \in 0..(w - 1) : q[Len(q) - i * w + j + 1] = 1}]
Lv(z) == W(<<"H", "L">>)
Def(z) == TLCEval(<<R(0..16), R(0..16), R(0..16), R(0..16), Lv(1), Lv(2)>>)
Flag(b) == IF b THEN 1 ELSE 0
Max(a, b) == IF a > b THEN a ELSE b

Widths == <<1, 2, 3, 4, 5, 7, 8, 9, 12, 14, 16, 17, 31, 32, 33, 63, 64>>
Wide == <<1, 4, 8, 16, 24, 63, 64, 65, 72, 128, 255, 256, 257, 512, 1000, 1024, 1025, 1500>>
Setup ==
  /\ pc = "cfg" /\ pc' = "run" /\ now' = 0
  /\ \E k \in {W(<<"bus", "bus", "data", "data", "clock", "tog", "pin", "pin">>)}, w \in {W(Widths)}, v \in {W(Wide)}, dr \in {W(<<1, 2, 2, 4>>)}, on \in {W(<<0, 1, 1>>)}, i \in {Lv(0)}, d \in {Def(0)} :
       /\ kind' = k
       /\ CASE k = "bus" -> st' = LnNew(w, Idle(w, i), dr, on = 1) /\ tr' = <<<<"bus", w, dr, i, on>>>>
            [] k = "data" -> st' = DbNew(v, dr, d, on = 1) /\ tr' = <<<<"data", v, dr, d, on>>>>
            [] k = "pin" -> \E in \in {W(<<"L", "H", "Z">>)}, id \in {W(<<"L", "L", "H", "H", "Z">>)}, len \in {W(<<8, 32>>)} :
                 st' = [p |-> PnNew(in, id), dr |-> dr, len |-> len, init |-> in] /\ tr' = <<<<"pin", len, in, id>>>>
            [] k = "clock" -> st' = CkNew(2 * dr, on = 1) /\ tr' = <<<<"clk", 2 * dr, 1 - on>>>>
            [] OTHER -> st' = TgNew(v, dr, d[1], d[3], d[5], on = 1) /\ tr' = <<<<"tog", v, dr, d[1], d[3], d[5], on>>>>

Put(o, s, t) == tr' = tr \o o /\ st' = s /\ now' = t /\ UNCHANGED <<kind, pc>>
BusStep ==
  \E k \in {R(1..12)}, t \in {now + Gap(1)}, u \in {now + Later(1)}, n \in {R(1..8)} :
    CASE k <= 4 -> LET x == Max(t, LnFree(st)) IN \E q \in {Bits(n * st.b.w)} : Put(<<<<"bload", x, q>>>>, TLCEval(LnLoad(st, x, BeatsOf(q, st.b.w))), x)
      [] k = 5 /\ st.b.w <= 32 -> LET x == Max(t, LnFree(st)) IN \E q \in {Bits(R(1..(64 \div st.b.w)) * st.b.w)} : Put(<<<<"bword", x, q>>>>, TLCEval(LnLoad(st, x, BeatsOf(q, st.b.w))), x)
      [] k = 6 -> Put(<<<<"bdis", t>>>>, TLCEval(LnOff(st, t)), t)
      [] k \in {7, 8} -> Put(<<<<"ben", u>>>>, TLCEval(LnOn(st, u)), u)
      [] k = 9 -> Put(<<<<"bser", IF st.b.idle = {} THEN "L" ELSE "H", R({0, 1}), 1>>>>, st, now)
      [] OTHER -> Put(<<<<"bq", t, LnStat(st, t)>>>>, st, t)
DataStep ==
  \E k \in {R(1..15)}, t \in {now + Gap(1)}, u \in {now + Later(1)}, n \in {IF st.w > 300 THEN R(1..2) ELSE IF st.w > 70 THEN R(1..4) ELSE R(1..10)}, has \in {W(<<0, 1, 1, 1>>)} :
    CASE k <= 6 -> LET x == Max(t, DbFree(st)) IN \E q \in {Bits(n * st.w)} :
           IF k <= 3 THEN Put(<<<<"drd", x, q, has>>>>, TLCEval(DbRead(st, x, n, IF has = 1 THEN BeatsOf(q, st.w) ELSE <<>>)), x)
           ELSE Put(<<<<"dwr", x, q, has>>>>, TLCEval(DbWrite(st, x, n, IF has = 1 THEN BeatsOf(q, st.w) ELSE <<>>)), x)
      [] k = 7 -> Put(<<<<"dbus", u>>, <<"dmode", <<1, 0, st.w>>>>>>, TLCEval(DbBus(st, u)), u)
      [] k = 8 -> Put(<<<<"dtog", t>>, <<"dmode", <<0, 1, st.w>>>>>>, TLCEval(DbTog(st, t)), t)
      [] k = 10 -> \E d \in {Def(0)} : Put(<<<<"ddef", d>>, <<"dq", t, DbStat(DbSet(st, d), t)>>>>, DbSet(st, d), t)
      [] k = 9 -> Put(<<<<"dser", R({0, 1}), 1>>>>, st, now)
      [] OTHER -> Put(<<<<"dq", t, DbStat(st, t)>>>>, st, t)
\* the burst of a pin is written beat by beat; queries at a finer or coarser rate than the bursts
PinStep ==
  \E k \in {R(1..8)}, t \in {now + Gap(1)}, n \in {R(1..8)}, m \in {R(1..32)} :
    CASE k <= 3 -> LET x == Max(t, (st.p.t + Len(st.p.q) + st.dr - 1) \div st.dr) IN
           \E q \in {Bits(IF st.len = 8 THEN n ELSE m)} :
             Put(<<<<"pset", x, q, st.dr>>>>, TLCEval([st EXCEPT !.p = PnLoad(@, x * st.dr, [i \in 1..Len(q) |-> IF q[i] = 1 THEN "H" ELSE "L"])]), x)
      [] k = 4 -> Put(<<<<"pser", st.init, st.p.idle, 1>>>>, st, now)
      [] k = 5 -> Put(<<<<"pq", t * st.dr, 1, PnStat(st.p, t * st.dr)>>>>, st, t)
      [] OTHER -> Put(<<<<"pq", t, st.dr, PnStat(st.p, t * st.dr)>>>>, st, t)
ClockStep ==
  \E k \in {R(1..6)}, t \in {now + Gap(1)}, u \in {now + Later(1)} :
    CASE k <= 2 /\ st.s < 0 -> Put(<<<<"cstart", t>>>>, CkStart(st, t), t)
      [] k <= 2 /\ st.s >= 0 -> LET x == Max(u, st.s + 1) IN Put(<<<<"cstop", x>>>>, CkStop(st, x), x)
      [] k = 3 -> Put(<<<<"cser", R({0, 1}), 1>>>>, st, now)
      [] OTHER -> Put(<<<<"cq", t, CkStat(st, t)>>>>, st, t)
TogStep ==
  \E k \in {R(1..12)}, t \in {now + Gap(1)}, u \in {now + Later(1)}, n \in {R(1..16)} :
    CASE k <= 3 -> LET x == Max(t, TgFree(st)) IN Put(<<<<"tinc", x, n>>>>, TLCEval(TgLoad(st, x, n)), x)
      [] k = 4 -> LET x == Max(t, TgFree(st)) IN Put(<<<<"tbits", x, n * st.w>>>>, TLCEval(TgLoad(st, x, n)), x)
      [] k = 5 -> Put(<<<<"tdis", t>>>>, TLCEval(TgOff(st, t)), t)
      [] k \in {6, 7} -> Put(<<<<"ten", u>>>>, TLCEval(TgOn(st, u)), u)
      [] k = 8 -> Put(<<<<"tser", 1>>>>, st, now)
      [] k = 10 -> \E d \in {Def(0)} : Put(<<<<"tset", d[1], d[3], d[5]>>, <<"tq", t, TgStat(TgSet(st, d[1], d[3], d[5]), t)>>>>, TgSet(st, d[1], d[3], d[5]), t)
      [] k = 9 -> Put(<<<<"tget", <<Flag(st.on), st.w, st.dr, st.rate, st.duty>>>>>>, st, now)
      [] OTHER -> Put(<<<<"tq", t, TgStat(st, t)>>>>, st, t)
Step == pc = "run" /\ Len(tr) < STEPS /\
  (CASE kind = "bus" -> BusStep [] kind = "data" -> DataStep [] kind = "clock" -> ClockStep [] kind = "pin" -> PinStep [] OTHER -> TogStep)
Init == st = [dr |-> 0] /\ kind = "" /\ tr = <<>> /\ now = 0 /\ pc = "cfg"
Finish == pc = "run" /\ Len(tr) >= STEPS /\ pc' = "end" /\ UNCHANGED <<st, kind, tr, now>> /\ PrintT(ToJson([kind |-> "lines", ops |-> tr]))
Next == Setup \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
