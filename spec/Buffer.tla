------------------------------- MODULE Buffer -------------------------------
(***************************************************************************)
(* The fixed size buffer: content c, capacity size, overflow flag.         *)
(* What does not fit is dropped and sets the flag, clear resets both.      *)
(* p: size, fill (number of '#' the buffer starts with)                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

NewBuf(p) == [c |-> [j \in 1..p.fill |-> 35], size |-> p.size, ovf |-> FALSE]

BMin(a, b) == IF a < b THEN a ELSE b
Append2(s, b) == LET n == BMin(Len(b), s.size - Len(s.c))
                 IN [s EXCEPT !.c = s.c \o SubSeq(b, 1, n), !.ovf = s.ovf \/ n < Len(b)]
Resize(s, n, ch) == IF n <= Len(s.c) THEN [s EXCEPT !.c = SubSeq(s.c, 1, n)]
                    ELSE [s EXCEPT !.c = s.c \o [j \in 1..(BMin(n, s.size) - Len(s.c)) |-> ch]]
(* a character reference written to a block of memory: the text and a null byte, as far as it fits *)
RECURSIVE HexText(_)
HexText(c) == IF c = 0 THEN <<>> ELSE Append(HexText(c \div 16), IF c % 16 < 10 THEN 48 + (c % 16) ELSE 87 + (c % 16))
RefText(c) == <<38, 35, 120>> \o (IF c = 0 THEN <<48>> ELSE HexText(c)) \o <<59, 0>>
RefIn(c, n) == LET t == RefText(c) IN <<IF Len(t) <= n THEN 1 ELSE 0>> \o [j \in 1..n |-> IF j <= Len(t) THEN t[j] ELSE 35]
BOk == <<"ok", <<>>>>
OutOfRange == <<"EXC/DimOutOfRange/DimOutOfRange", <<>>>>

(* operation op with arguments a: next state and result *)
ApplyBuf(s, op, a) ==
  LET S(t) == [s |-> t, r |-> BOk]
      R(v) == [s |-> s, r |-> <<"", v>>]
      k == IF Len(a) > 0 /\ Len(a[1]) > 0 THEN a[1][1] ELSE 0
      v == IF Len(a) > 1 THEN a[2][1] ELSE 0
  IN CASE op = "psh" -> S(Append2(s, <<k>>))
       [] op = "app" -> S(Append2(s, IF Len(a) = 0 THEN <<>> ELSE a[1]))
       [] op = "self" -> S(s)   \* an output stream: a copy writes to the same stream
       [] op = "clr" -> S([s EXCEPT !.c = <<>>, !.ovf = FALSE])
       [] op = "rsz" -> S(Resize(s, k, v))
       [] op \in {"idx", "at"} -> IF k < Len(s.c) THEN R(<<s.c[k + 1]>>) ELSE [s |-> s, r |-> OutOfRange]
       [] op = "wr" -> IF k < Len(s.c) THEN S([s EXCEPT !.c[k + 1] = v]) ELSE [s |-> s, r |-> OutOfRange]
       [] op = "ref" -> R(RefIn(k, v))
       [] op = "ovf" -> R(<<IF s.ovf THEN 1 ELSE 0>>)
       [] op = "all" -> R(s.c)

DoBuf(p, s, op, a, r) == LET x == ApplyBuf(s, op, a) IN [s |-> x.s, ok |-> r = x.r]
=============================================================================
