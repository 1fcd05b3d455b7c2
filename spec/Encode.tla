-------------------------------- MODULE Encode --------------------------------
(* How a command word is made from the description of its bits, the address   *)
(* and the chosen levels of the bits the address does not determine.          *)
EXTENDS Integers, Sequences, FiniteSets

\* a description is a sequence of <<kind, index>>, the first one the highest bit of the word
Kinds == {"L", "H", "V", "X", "AP", "BL", "CID", "BG", "BA", "C", "R"}
MaxIx(k) == CASE k = "CID" -> 3 [] k = "BG" -> 2 [] k = "BA" -> 8 [] k = "C" -> 16 [] k = "R" -> 17 [] OTHER -> 0
\* bits whose level can be chosen: always low, always high, or as in the last word
Free(x) == x[1] \in {"V", "X", "AP", "BL", "CID"} \/ (x[1] = "C" /\ x[2] \in {0, 1, 2, 3, 4, 10})
Choices == {"L", "H", "LAST"}

BitOf(v, i) == (v \div 2^i) % 2
\* a: [ba, bg, row, col]
ByAddress(x, a) ==
  CASE x[1] = "L" -> 0 [] x[1] = "H" -> 1
    [] x[1] \in {"BL", "CID"} -> 1 [] x[1] \in {"V", "X", "AP"} -> 0
    [] x[1] = "BG" -> BitOf(a.bg, x[2]) [] x[1] = "BA" -> BitOf(a.ba, x[2])
    [] x[1] = "C" -> BitOf(a.col, x[2]) [] x[1] = "R" -> BitOf(a.row, x[2])
\* words are sequences of bits, highest first
At(w, n) == IF n < Len(w) THEN w[Len(w) - n] ELSE 0
\* chosen: sequence of <<description, level>>, each description once
Level(chosen, x) == LET S == {i \in DOMAIN chosen : chosen[i][1] = x} IN IF S = {} THEN "none" ELSE chosen[CHOOSE i \in S : TRUE][2]
Choose1(chosen, x, l) == Append(SelectSeq(chosen, LAMBDA y : y[1] /= x), <<x, l>>)
Drop(chosen, x) == SelectSeq(chosen, LAMBDA y : y[1] /= x)
Word(p, a, chosen, last) ==
  [i \in DOMAIN p |->
     LET x == p[i]  l == Level(chosen, x)
     IN IF ~Free(x) \/ l = "none" THEN ByAddress(x, a)
        ELSE IF l = "L" THEN 0 ELSE IF l = "H" THEN 1 ELSE At(last, Len(p) - i)]
=============================================================================
