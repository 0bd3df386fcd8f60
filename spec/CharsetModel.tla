---------------------------- MODULE CharsetModel ----------------------------
(***************************************************************************)
(* The character set encodings checked against themselves: for every       *)
(* encoding and every boundary character decoding is the inverse of        *)
(* encoding and consumes exactly its bytes, encodings do not overlap, and  *)
(* decoding of arbitrary bytes is total and bounded.                       *)
(***************************************************************************)
EXTENDS Charset, TLC

Chars == {1, 9, 10, 13, 38, 65, 126, 127, 128, 159, 160, 164, 165, 255, 256, 260, 728, 2047, 2048, 8217, 8364,
          55295, 57344, 65533, 65535, 65536, 65537, 1114111, 1114112, 2097151, 2097152, 67108863, 67108864, 2147483646}
Bytes == {0, 1, 10, 65, 127, 128, 160, 191, 192, 194, 216, 219, 220, 223, 224, 240, 248, 252, 254, 255}

VARIABLES e, c, b, ph
vars == <<e, c, b, ph>>
Init == /\ e \in Encodings
        /\ \/ ph = "char" /\ c \in Chars /\ b = <<>>
           \/ ph = "bytes" /\ c = 0 /\ \E x \in Bytes, y \in Bytes, z \in Bytes : b \in {<<>>, <<x>>, <<x, y>>, <<x, y, z>>, <<x, y, z, 128>>, <<x, y, z, 0>>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Junk == <<65, 200>>
Inverse == (ph = "char" /\ Rep(e, c)) =>
             /\ Dec(e, Enc(e, c), 0) = [c |-> c, n |-> Len(Enc(e, c))]
             /\ Dec(e, Enc(e, c) \o Junk, 0) = [c |-> c, n |-> Len(Enc(e, c))]
             /\ Dec(e, Enc(e, 65) \o Enc(e, c), Len(Enc(e, 65))).c = c
Printed == ph = "char" => /\ Len(Print(e, c)) > 0
                          /\ ~Rep(e, c) => Dec(e, Print(e, c), 0).c = 38
Bounded == ph = "bytes" => LET d == Dec(e, b, 0) IN d.n \in 1..8 /\ d.c >= -1
(* an ASCII byte is only ever an ASCII character in the byte based encodings *)
Ascii == (ph = "bytes" /\ Len(b) > 0 /\ (e = "UTF8" \/ IsIso(e)) /\ b[1] < 128) => Dec(e, b, 0) = [c |-> b[1], n |-> 1]
=============================================================================
