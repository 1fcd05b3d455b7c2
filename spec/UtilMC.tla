------------------------------- MODULE UtilMC -------------------------------
(* Every history of a small component: the bookkeeping of Util agrees with    *)
(* the plain meaning, kept here as the full record of what happened.          *)
EXTENDS Util, TLC, IOUtils

MODE == IOEnv.MODE           \* interval, queue, bits, registry
N == atoi(IOEnv.N)           \* horizon / width / registrations

VARIABLES st, rec, now
vars == <<st, rec, now>>

-----------------------------------------------------------------------------
(* interval: rec is the set of counted cycles, cycle i being [i, i+1), of closed intervals, as a *)
(* sequence (a cycle can be measured twice when a measure is begun again before its end), plus the open one *)
\* rec = [done |-> sequence of <<from, to>>, open |-> <<from>> or <<>>, added |-> sum]
RecAt(r, t) == FoldSeq(LAMBDA x, s : s + (x[2] - x[1]), 0, r.done) + (IF r.open = <<>> THEN 0 ELSE IF t > r.open[1] THEN t - r.open[1] ELSE 0) + r.added
IvNext ==
  \E t \in now..(now + 2) : t <= N /\ now' = t /\
   \/ st' = IcStart(st, t) /\ rec' = [rec EXCEPT !.open = <<t>>]
   \/ st' = IcStartIf(st, t) /\ rec' = [rec EXCEPT !.open = IF @ = <<>> THEN <<t>> ELSE @]
   \/ Len(rec.done) < 3 /\ st' = IcClose(st, t) /\ rec' = [rec EXCEPT !.done = IF rec.open = <<>> THEN @ ELSE Append(@, <<rec.open[1], t>>), !.open = <<>>]
   \/ st' = IcReset(st) /\ rec' = [rec EXCEPT !.open = <<>>]
   \/ rec.added = 0 /\ st' = IcAdd(st, 5) /\ rec' = [rec EXCEPT !.added = @ + 5]
IvInv ==
  /\ \A t \in now..(N + 2) : IcAt(st, t) = RecAt(rec, t)
  /\ st.n = RecAt([rec EXCEPT !.open = <<>>], 0)
  /\ st.open = (rec.open /= <<>>)
  /\ IcClosed(st, now) = IcClose(st, now).n - st.n
IvMono == IcAt(st', now') >= IcAt(st, now) \/ (st.open /\ st'.s /= st.s)

(* queue: rec = [ins |-> times scheduled from outside, has |-> what each defers itself (<<delay, id>> or nothing), kids |-> the schedulings
   brought about so, <<time, parent, id>>, ran |-> <<id, time of the advance>>] *)
RECURSIVE QuLog(_, _, _, _)
\* the schedulings (times, parents) an advance brings about, in order, when k commands have been scheduled so far
QuLog(q, t, k, log) ==
  IF QuDue(q, t) = {} THEN log
  ELSE LET x == QuFirst(QuDue(q, t)) IN
       IF x.kid = <<>> THEN QuLog(q \ {x}, t, k, log)
       ELSE QuLog((q \ {x}) \cup {[t |-> x.t + x.kid[1], k |-> k + 1, id |-> x.kid[2], kid |-> <<>>]}, t, k + 1, Append(log, <<x.t + x.kid[1], x.id, x.kid[2]>>))
QuNext ==
  \/ /\ Len(rec.ins) < (IF N <= 3 THEN 3 ELSE 4)
     /\ \E t \in now..N, kid \in {<<>>} \cup {<<d, Len(rec.ins) + 51>> : d \in (IF N <= 3 THEN 0..2 ELSE {0, 2})} :
          /\ st' = st \cup {[t |-> t, k |-> Len(rec.ins) + Len(rec.kids) + 1, id |-> Len(rec.ins) + 1, kid |-> kid]}
          /\ rec' = [rec EXCEPT !.ins = Append(@, t), !.has = Append(@, kid)]
     /\ now' = now
  \/ \E t \in now..N : LET k == Len(rec.ins) + Len(rec.kids)
                            r == QuRun(st, t, <<>>, 0, k + 1) IN
                       /\ st' = r.q
                       /\ rec' = [rec EXCEPT !.ran = @ \o [i \in DOMAIN r.ran |-> <<r.ran[i], t>>], !.kids = @ \o QuLog(st, t, k, <<>>)]
                       /\ now' = t
QuWhen(id) == IF id > 50 THEN rec.kids[CHOOSE i \in DOMAIN rec.kids : rec.kids[i][3] = id][1] ELSE rec.ins[id]
QuInv ==
  /\ \A i, j \in DOMAIN rec.ran : i /= j => rec.ran[i][1] /= rec.ran[j][1]                          \* at most once
  /\ \A i \in DOMAIN rec.ran : QuWhen(rec.ran[i][1]) <= rec.ran[i][2]                                \* never early
  /\ \A i \in DOMAIN rec.ran : rec.ran[i][1] > 50 => QuWhen(rec.ran[i][1]) >= rec.ins[rec.ran[i][1] - 50]
  /\ \A x \in st : x.t > now \/ \A j \in DOMAIN rec.ran : rec.ran[j][1] /= x.id                       \* what is left has not run
  /\ \A i \in DOMAIN rec.ins : (\E j \in DOMAIN rec.ran : rec.ran[j][1] = i) \/ \E x \in st : x.id = i  \* none lost
  /\ \A i \in DOMAIN rec.ins : rec.has[i] /= <<>> /\ (\E j \in DOMAIN rec.ran : rec.ran[j][1] = i)
        => (\E j \in DOMAIN rec.ran : rec.ran[j][1] = i + 50) \/ \E x \in st : x.id = i + 50           \* nor one deferred by another
  /\ \A i, j \in DOMAIN rec.ran : i < j /\ rec.ran[i][2] = rec.ran[j][2] => QuWhen(rec.ran[i][1]) <= QuWhen(rec.ran[j][1])
  /\ \A i, j \in DOMAIN rec.ran : i < j /\ rec.ran[i][2] = rec.ran[j][2] /\ rec.ran[i][1] <= 50 /\ rec.ran[j][1] <= 50
        => QuWhen(rec.ran[i][1]) < QuWhen(rec.ran[j][1]) \/ rec.ran[i][1] < rec.ran[j][1]

(* bits: st ranges over all vectors up to N bits *)
BvAll == UNION {[1..n -> {0, 1}] : n \in 0..N}
BiNext == FALSE /\ UNCHANGED vars
BiInv ==
  LET a == st IN
  /\ BvNot(BvNot(a)) = a /\ BvCount(a) + BvCount(BvNot(a)) = Len(a)
  /\ BvXor(a, a) = BvNew(Len(a)) /\ BvCount(BvNew(Len(a))) = 0
  /\ \A b \in [DOMAIN a -> {0, 1}] :
       /\ BvNot(BvAnd(a, b)) = BvOr(BvNot(a), BvNot(b))
       /\ BvXor(a, b) = BvOr(BvAnd(a, BvNot(b)), BvAnd(BvNot(a), b))
       /\ BvCount(BvXor(a, b)) = Cardinality({i \in DOMAIN a : a[i] /= b[i]})
       /\ BvCount(BvXor(a, b)) + 2 * BvCount(BvAnd(a, b)) = BvCount(a) + BvCount(b)
  /\ \A x \in {0, 1} : BvCount(Append(a, x)) = BvCount(a) + x /\ BvNot(Append(a, x)) = Append(BvNot(a), 1 - x)
  /\ \A n \in 0..Len(a) : BvVal(n, a) = SubSeq(a, 1, n)
  /\ Len(BvStr(a)) = Len(a) + 2

(* registry: st the registrations in order, rec the set of kinds *)
ReNext ==
  \/ \E k \in 1..N, m \in SUBSET {0, 1} :
       st' = ExReg(st, [k |-> k, v |-> 0, m |-> m]) /\ rec' = rec \cup {k} /\ now' = now
  \/ \E k \in rec, v \in 0..1 : st' = [st EXCEPT ![ExAt(st, k)].v = v] /\ UNCHANGED <<rec, now>>
ReInv ==
  /\ \A k \in 1..N : ExHas(st, k) = (k \in rec)
  /\ \A i, j \in DOMAIN st : st[i].k = st[j].k => i = j
  /\ \A h \in {0, 1} : LET o == ExHook(st, h) IN
       /\ Len(o) = Cardinality({i \in DOMAIN st : h \in st[i].m})
       /\ \A i, j \in DOMAIN o : i < j => ExAt(st, o[i][2]) < ExAt(st, o[j][2])
       /\ \A i \in DOMAIN o : o[i][3] = st[ExAt(st, o[i][2])].v
       /\ ExHooks(st, h, 1) = o
       /\ Len(ExHooks(st, h, 2)) = 2 * Len(o)

-----------------------------------------------------------------------------
Init ==
  /\ now = 0
  /\ CASE MODE = "interval" -> st = IcNew /\ rec = [done |-> <<>>, open |-> <<>>, added |-> 0]
       [] MODE = "queue" -> st = {} /\ rec = [ins |-> <<>>, has |-> <<>>, kids |-> <<>>, ran |-> <<>>]
       [] MODE = "bits" -> st \in BvAll /\ rec = 0
       [] OTHER -> st = <<>> /\ rec = {}
Next == CASE MODE = "interval" -> IvNext [] MODE = "queue" -> QuNext [] MODE = "bits" -> BiNext [] OTHER -> ReNext
Spec == Init /\ [][Next]_vars
Inv == CASE MODE = "interval" -> IvInv [] MODE = "queue" -> QuInv [] MODE = "bits" -> BiInv [] OTHER -> ReInv
Mono == MODE = "interval" => [][IvMono]_vars

ASSUME /\ Len(Names) = Cardinality(NameSet)
       /\ \A n \in NameSet : Read(n) = n /\ Names[NumberOf(n) + 1] = n
       /\ Cardinality({n \in NameSet : Carries(n)}) = 4
       /\ Read("END") = "END_OF_SIMULATION" /\ Read("rd") = "NOP" /\ Read("") = "NOP"
=============================================================================
