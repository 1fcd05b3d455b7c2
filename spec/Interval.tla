------------------------------ MODULE Interval ------------------------------
(* Interval counters: the total time an interval was open.  A counter is    *)
(* [n, s, e]: n = closed time so far, s/e = start/end of the last interval, *)
(* -1 when unset.  The counter is open iff s is set and e is not.           *)
EXTENDS Integers

IvNew == [n |-> 0, s |-> -1, e |-> -1]
IvOpen(v) == v.s >= 0 /\ v.e < 0
IvStart(v, t) == [v EXCEPT !.s = t, !.e = -1]
IvStartIf(v, t) == IF IvOpen(v) THEN v ELSE IvStart(v, t)
IvClose(v, t) == IF IvOpen(v) THEN [n |-> v.n + (t - v.s), s |-> v.s, e |-> t] ELSE v
IvAt(v, t) == IF IvOpen(v) /\ t > v.s THEN v.n + (t - v.s) ELSE v.n
=============================================================================
