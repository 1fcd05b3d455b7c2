-------------------------------- MODULE CliGen --------------------------------
(* Generates command list files and what they stand for.                      *)
EXTENDS Cli, Json, IOUtils
STEPS == atoi(IOEnv.STEPS)
BADNESS == atoi(IOEnv.BADNESS)          \* one row in so many is malformed
VARIABLES rows, done
vars == <<rows, done>>
R(A) == RandomElement(A)
W(q) == q[RandomElement(DOMAIN q)]
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE Head(q) \o Join(Tail(q))
Pad(z) == W(<<"", "", "", "", " ", "~", "  ", " ~ ">>)
Dig(n) == Join([i \in 1..n |-> R(Digits)])
Num(z) == R({"0", "1", "7", "15", "00", "016", "1000", "65535", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775806", Dig(3), Dig(9), Dig(18)})
BadNum(z) == R({"", "-1", "-20", "1.5", "2.0", ".5", "5.", "12abc", "x", "0x10", "abc", "1e3", "15e-1", "1 2", "+3", "--1", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1_0", "1;2", "0b1", "1u", "#"} \cup {Dig(25)})
HexDig(z) == R({"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"})
Pre(z) == R({"", "0x", "0X"})
Hx(n) == Join([i \in 1..n |-> HexDig(i)])
GoodData(z) == Pre(z) \o Hx(2 * W(<<1, 1, 2, 4, 8, 16, 5, 32, 64>>))
BadData(z) == R({Pre(1) \o Hx(3), Pre(2) \o Hx(1), Pre(1) \o Hx(2) \o "g1", Pre(1) \o "1 2 ", "-102", "0x0x11", Hx(2) \o "0x", "+1+2", Hx(4) \o "zz", "0x 1", "1x11", Hx(2) \o "-1", Pre(1) \o "1." \o Hx(2)})
Good(z) ==
  \E w \in {R(Names \cup {"END", "RD", "WR", "RDA", "WRA", "ACT", "act", "XYZ", "REF", "WRAA", "R"})} :
    LET n == [i \in 1..7 |-> IF i = 2 THEN Pad(i) \o w \o Pad(i) ELSE Pad(i) \o Num(i) \o Pad(i)]
        more == IF Meaning(w) \in DataCmds THEN <<Pad(1) \o GoodData(1) \o Pad(2)>> \o W(<< <<>>, <<>>, <<>>, <<"">>, <<"9", "x">> >>) ELSE W(<< <<>>, <<>>, <<"">>, <<"0xzz">>, <<"", "">> >>)
    IN rows' = Append(rows, TLCEval(n \o more))
Wrong(z) ==
  \E w \in {R({"RD", "WR", "ACT", "PRE", "REFA", "WRA", "RDA", "END", "nop"})}, k \in {W(<<"num", "num", "num", "data", "data", "nodata", "short">>)} :
    LET i == R({1, 3, 4, 5, 6, 7})
        n == TLCEval([j \in 1..7 |-> IF j = 2 THEN w ELSE Num(j)])
        d == IF w \in DataCmds THEN <<GoodData(1)>> ELSE <<>>
    IN rows' = Append(rows, TLCEval(
         CASE k = "num" -> \* one field is no number
                [n EXCEPT ![i] = Pad(1) \o BadNum(1) \o Pad(1)] \o d
           [] k = "data" -> [n EXCEPT ![2] = R(DataCmds)] \o <<BadData(1)>>
           [] k = "nodata" -> [n EXCEPT ![2] = R(DataCmds)]
           [] OTHER -> SubSeq(n, 1, R(2..6))))
Init == rows = <<>> /\ done = FALSE
Step == ~done /\ Len(rows) < STEPS /\ UNCHANGED done /\ (IF R(1..BADNESS) = 1 THEN Wrong(1) ELSE Good(1))
Finish == ~done /\ Len(rows) >= STEPS /\ UNCHANGED rows /\ done' = TRUE
          /\ PrintT(ToJson([rows |-> rows, exp |-> File(rows), style |-> <<W(<<"lf", "lf", "crlf">>), R({0, 1}), IF R(1..4) = 1 THEN R(1..3) ELSE 0>>]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
