------------------------------ MODULE InversionMC ------------------------------
(* Every history of a small inversion unit, against the record of what was     *)
(* given, transferred and told.                                                *)
EXTENDS Inversion, FiniteSets, TLC, IOUtils
N == atoi(IOEnv.N)         \* horizon
CS == atoi(IOEnv.CS)       \* bits of a chunk
PINS == atoi(IOEnv.PINS)   \* 0: width unknown
M == atoi(IOEnv.M)         \* bursts
VARIABLES u, now, log, told
vars == <<u, now, log, told>>
\* log: <<time, read, given, transferred>>; told: everything that was told, in order
Words(n) == [1..n -> {0, 1}]
Len0 == CS * (IF PINS = 0 THEN 1 ELSE PINS)
Init == /\ now = 0 /\ log = <<>> /\ told = <<>>
        /\ \E d \in BOOLEAN, i \in {"L", "H"} : u = NewDbi(d, CS, CS \div 2, i, PINS * CS, 2, TRUE)
Free(rd) == IF Dir(u, rd).init THEN Dir(u, rd).end ELSE 0
Next ==
  \E t \in now..N : now' = t /\
    \/ /\ Len(log) < M
       /\ \E rd \in BOOLEAN, n \in {1, 2} : t >= Free(TRUE) /\ t >= Free(FALSE) /\
            \E q \in Words(n * Len0) : LET b == Burst(u, t, q, rd) IN
              u' = b.u /\ log' = Append(log, <<t, rd, q, b.out>>) /\ told' = told \o b.tells
    \/ LET b == EndAll(u, t) IN b.tells # <<>> /\ u' = b.u /\ told' = told \o b.tells /\ UNCHANGED log
Spec == Init /\ [][Next]_vars

Chunks(q) == 1..(Len(q) \div CS)
At(t, rd, k) == \E i \in DOMAIN told : told[i] = k
\* what a burst told about its chunks: in order, each once
Mine(t, rd) == SelectSeq(told, LAMBDA x : x[1] = t /\ x[5] = Bit(rd) /\ x[2] >= t)
Decode(q, fl) == [i \in DOMAIN q |-> IF fl[(i - 1) \div CS + 1] = 1 THEN 1 - q[i] ELSE q[i]]
Recovered == \A i \in DOMAIN log : LET l == log[i]  f == Mine(l[1], l[2]) IN
  /\ Len(f) = Len(l[3]) \div CS
  /\ Decode(l[4], [c \in 1..Len(f) |-> f[c][4]]) = l[3]
  /\ \A c \in 1..Len(f) : f[c][3] = (IF PINS = 0 THEN c - 1 ELSE (c - 1) % PINS) /\ f[c][2] = (IF PINS = 0 THEN l[1] ELSE l[1] + (c - 1) \div PINS)
\* the beat before a beat, as transferred
Prior(i, c) ==
  IF c > PINS THEN Chunk(u, log[i][4], c - PINS)
  ELSE LET s == {j \in 1..(i - 1) : log[j][2] = log[i][2] /\ log[j][1] + Len(log[j][3]) \div (CS * PINS) = log[i][1]}
       IN IF s = {} THEN [k \in 1..CS |-> IF u.idle = "H" THEN 1 ELSE 0]
          ELSE LET q == log[CHOOSE j \in s : TRUE][4] IN Chunk(u, q, Len(q) \div CS - PINS + c)
\* no chunk is transferred in the worse of its two forms, and none is inverted without gain
Best == \A i \in DOMAIN log : \A c \in Chunks(log[i][3]) :
  LET g == Chunk(u, log[i][3], c)  o == Chunk(u, log[i][4], c)
      Cost(x) == IF ~u.dyn THEN (IF u.idle = "L" THEN Ones(x) ELSE CS - Ones(x)) ELSE IF PINS = 0 THEN 0 ELSE Diff(x, Prior(i, c))
  IN Cost(o) <= Cost(Flip(o)) /\ (Cost(g) = Cost(Flip(g)) => o = g)
\* a line told to go back to rest was the one raised in the last beat of the burst that ended then, and each only once
Back(x) == x[2] < x[1]
Rested == \A i \in DOMAIN told : Back(told[i]) =>
  /\ told[i][4] = 0
  /\ \E j \in 1..(i - 1) : told[j][4] = 1 /\ told[j][3] = told[i][3] /\ told[j][5] = told[i][5]
                         /\ (PINS > 0 => told[j][2] = told[i][2] - 1)
                         /\ (PINS = 0 => told[j][1] = told[i][2] - u.bl)
  /\ \A j \in DOMAIN told : j # i /\ Back(told[j]) => told[j][2] # told[i][2] \/ told[j][3] # told[i][3] \/ told[j][5] # told[i][5]
\* nothing stays raised after the end of everything
AllDown == LET z == EndAll(u, now + 9)
               all == told \o z.tells
           IN \A p \in 0..(IF PINS = 0 THEN 1 ELSE PINS - 1), rd \in {0, 1} :
                LET s == SelectSeq(all, LAMBDA x : x[3] = p /\ x[5] = rd) IN s = <<>> \/ PINS = 0 \/ s[Len(s)][4] = 0
Inv == Recovered /\ Best /\ Rested /\ AllDown
=============================================================================
