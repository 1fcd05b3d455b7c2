--------------------------------- MODULE Lines ---------------------------------
(* Groups of lines that can be switched off and on: buses, the estimator of    *)
(* toggling activity, the data bus that is one or the other, clocks.           *)
(* A group that is off drives nothing: its beats are not counted.  Switched on *)
(* again it starts from its idle level.                                        *)
EXTENDS Iface

LMin(a, b) == IF a < b THEN a ELSE b
\* ---------------------------------------------------------------- a bus
LnNew(w, idle, dr, on) == [b |-> BusNew(w, idle), dr |-> dr, on |-> on]
LnLoad(l, t, beats) == IF l.on THEN [l EXCEPT !.b = BusLoad(@, t * l.dr, beats)] ELSE l
LnOff(l, t) == IF ~l.on THEN l ELSE [l EXCEPT !.on = FALSE, !.b = [BusTo(@, t * l.dr) EXCEPT !.q = <<>>]]
LnOn(l, t) == IF l.on THEN l ELSE [l EXCEPT !.on = TRUE, !.b = [@ EXCEPT !.t = t * l.dr, !.prev = l.b.idle, !.q = <<>>]]
LnStat(l, t) == IF l.on THEN BusStat(l.b, t * l.dr) ELSE l.b.st
\* first time at which a burst can follow
LnFree(l) == IF l.on THEN (l.b.t + Len(l.b.q) + l.dr - 1) \div l.dr ELSE 0

\* ---------------------------------------------------------------- the estimator
\* rate and duty in sixteenths; off: beats spent switched off before at
TgNew(w, dr, rate, duty, idle, on) == [w |-> w, dr |-> dr, rate |-> rate, duty |-> duty, idle |-> idle, on |-> on, g |-> TogNew, off |-> 0, at |-> 0]
TgLoad(x, t, len) == IF x.on THEN [x EXCEPT !.g = TogLoad(@, t * x.dr, len)] ELSE x
TgOff(x, t) == IF ~x.on THEN x ELSE [x EXCEPT !.on = FALSE, !.at = t * x.dr, !.g = [n |-> TogBeats(@, t * x.dr), s |-> 0, l |-> 0]]
TgOn(x, t) == IF x.on THEN x ELSE [x EXCEPT !.on = TRUE, !.off = @ + t * x.dr - x.at]
TgStat(x, t) ==
  LET T == t * x.dr
      live == (IF x.on THEN T ELSE x.at) - x.off          \* beats spent switched on
      c == TogBeats(x.g, T)
      e == (c * x.rate) \div 32
      o == (c * x.duty) \div 16 + (IF x.idle = "H" THEN live - c ELSE 0)
      z == (c * (16 - x.duty)) \div 16 + (IF x.idle = "L" THEN live - c ELSE 0)
  IN Mul5(x.w, <<o, z, 2 * e, e, e>>)
\* another definition prices the whole history, beats of the past included
TgSet(x, rate, duty, idle) == [x EXCEPT !.rate = rate, !.duty = duty, !.idle = idle]
TgFree(x) == IF x.on THEN (x.g.s + x.g.l + x.dr - 1) \div x.dr ELSE 0

\* ---------------------------------------------------------------- the data bus
\* d: toggling definition (read rate, write rate, read duty, write duty, read idle, write idle)
Idle(w, lv) == IF lv = "H" THEN 0..(w - 1) ELSE {}
DbNew(w, dr, d, isbus) ==
  [w |-> w, dr |-> dr, bus |-> isbus,
   r |-> LnNew(w, Idle(w, d[5]), dr, isbus), x |-> LnNew(w, Idle(w, d[6]), dr, isbus),
   tr |-> TgNew(w, dr, d[1], d[3], d[5], ~isbus), tx |-> TgNew(w, dr, d[2], d[4], d[6], ~isbus)]
DbRead(s, t, n, beats) == IF ~s.bus THEN [s EXCEPT !.tr = TgLoad(@, t, n)] ELSE IF beats = <<>> THEN s ELSE [s EXCEPT !.r = LnLoad(@, t, beats)]
DbWrite(s, t, n, beats) == IF ~s.bus THEN [s EXCEPT !.tx = TgLoad(@, t, n)] ELSE IF beats = <<>> THEN s ELSE [s EXCEPT !.x = LnLoad(@, t, beats)]
DbBus(s, t) == [s EXCEPT !.bus = TRUE, !.r = LnOn(@, t), !.x = LnOn(@, t), !.tr = TgOff(@, t), !.tx = TgOff(@, t)]
DbTog(s, t) == [s EXCEPT !.bus = FALSE, !.r = LnOff(@, t), !.x = LnOff(@, t), !.tr = TgOn(@, t), !.tx = TgOn(@, t)]
DbStat(s, t) == <<LnStat(s.r, t), LnStat(s.x, t), TgStat(s.tr, t), TgStat(s.tx, t)>>
DbSet(s, d) == [s EXCEPT !.tr = TgSet(@, d[1], d[3], d[5]), !.tx = TgSet(@, d[2], d[4], d[6])]      \* the buses keep their idle levels
LMax(a, b) == IF a > b THEN a ELSE b
DbFree(s) == LMax(LMax(LnFree(s.r), LnFree(s.x)), LMax(TgFree(s.tr), TgFree(s.tx)))

\* ---------------------------------------------------------------- clocks
\* beats run so far; s: running since, -1: stopped
CkNew(dr, on) == [dr |-> dr, n |-> 0, s |-> IF on THEN 0 ELSE -1]
CkStop(c, t) == [c EXCEPT !.n = @ + (t - c.s) * c.dr, !.s = -1]
CkStart(c, t) == [c EXCEPT !.s = t]
CkStat(c, t) == ClkStat((c.n + (IF c.s < 0 THEN 0 ELSE (t - c.s) * c.dr)) \div 2)

\* ---------------------------------------------------------------- a single pin
\* levels "L", "H" and "Z" (not driven); a change from or to Z is no toggle and beats of Z are not counted
PnNew(init, idle) == [t |-> 0, prev |-> init, idle |-> idle, q |-> <<>>, st |-> <<0, 0, 0, 0, 0>>]
PnBeat(p, v, n) ==      \* n beats of level v
  IF n = 0 THEN p ELSE
  LET fall == IF p.prev = "H" /\ v = "L" THEN 1 ELSE 0
      rise == IF p.prev = "L" /\ v = "H" THEN 1 ELSE 0
  IN [p EXCEPT !.t = @ + n, !.prev = v, !.st = Add5(@, <<IF v = "H" THEN n ELSE 0, IF v = "L" THEN n ELSE 0, fall + rise, fall, rise>>)]
RECURSIVE PnTo(_, _)
PnTo(p, T) ==
  IF p.t >= T THEN p
  ELSE IF p.q = <<>> THEN PnBeat(p, p.idle, T - p.t)
  ELSE PnTo([PnBeat(p, Head(p.q), 1) EXCEPT !.q = Tail(@)], T)
PnLoad(p, T, q) == [PnTo(p, T) EXCEPT !.q = q]
PnStat(p, T) == PnTo(p, T).st
=============================================================================
