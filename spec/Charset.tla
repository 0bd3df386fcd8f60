------------------------------ MODULE Charset ------------------------------
(***************************************************************************)
(* The character set encodings of textwolf as functions between Unicode    *)
(* code points and sequences of bytes.                                     *)
(*   Enc(e, c)     bytes of character c in encoding e (c representable)    *)
(*   Rep(e, c)     c is representable in e                                 *)
(*   Print(e, c)   what printing c in e writes: Enc or the hexadecimal     *)
(*                 character reference of c                                *)
(*   Dec(e, b, i)  decoding at offset i of the bytes b: the character and  *)
(*                 the number of bytes consumed (beyond the end of b all   *)
(*                 bytes are null)                                         *)
(* Encodings are names; "ISO1".."ISO9" are the IsoLatin code pages.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, CodePages

Pow(b, n) == b^n

(* ------------------------------- encoding ------------------------------ *)
IsIso(e) == e \in {"ISO1","ISO2","ISO3","ISO4","ISO5","ISO6","ISO7","ISO8","ISO9"}
Page(e) == CASE e = "ISO1" -> Iso1 [] e = "ISO2" -> Iso2 [] e = "ISO3" -> Iso3
             [] e = "ISO4" -> Iso4 [] e = "ISO5" -> Iso5 [] e = "ISO6" -> Iso6
             [] e = "ISO7" -> Iso7 [] e = "ISO8" -> Iso8 [] e = "ISO9" -> Iso9
Undefined == 65533          \* byte without character in a code page
IsoByte(e, c) == IF c < 128 THEN {c}
                 ELSE {k + 127 : k \in {j \in 1..128 : Page(e)[j] = c /\ c # Undefined}}

Utf8Len(c) == CASE c < 128 -> 1 [] c < 2048 -> 2 [] c < 65536 -> 3
                [] c < 2097152 -> 4 [] c < 67108864 -> 5 [] OTHER -> 6
Utf8Mark == <<0, 192, 224, 240, 248, 252>>
Utf8(c) ==
  LET n == Utf8Len(c) IN
  IF n = 1 THEN <<c>>
  ELSE [k \in 1..n |-> IF k = 1 THEN Utf8Mark[n] + (c \div Pow(64, n - 1))
                       ELSE 128 + ((c \div Pow(64, n - k)) % 64)]

Word(e, w) ==
  IF e \in {"UTF16LE","UCS2LE"} THEN <<w % 256, w \div 256>> ELSE <<w \div 256, w % 256>>
Quad(e, c) ==
  LET q == <<c \div 16777216, (c \div 65536) % 256, (c \div 256) % 256, c % 256>>
  IN IF e = "UCS4LE" THEN <<q[4], q[3], q[2], q[1]>> ELSE q

Utf16(e) == e \in {"UTF16LE","UTF16BE"}
Ucs2(e) == e \in {"UCS2LE","UCS2BE"}
Ucs4(e) == e \in {"UCS4LE","UCS4BE"}

Rep(e, c) ==
  CASE e = "UTF8" -> TRUE
    [] Ucs4(e) -> TRUE
    [] Ucs2(e) -> c < 65536
    [] Utf16(e) -> c <= 1114111 /\ c \notin 55296..57343
    [] IsIso(e) -> IsoByte(e, c) # {}

Enc(e, c) ==
  CASE e = "UTF8" -> Utf8(c)
    [] Ucs4(e) -> Quad(e, c)
    [] Ucs2(e) -> Word(e, c)
    [] Utf16(e) -> IF c < 65536 THEN Word(e, c)
                   ELSE Word(e, 55296 + ((c - 65536) \div 1024)) \o Word(e, 56320 + ((c - 65536) % 1024))
    [] IsIso(e) -> <<CHOOSE b \in IsoByte(e, c) : TRUE>>

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE HexStr(_)
HexStr(c) == IF c = 0 THEN <<>> ELSE HexStr(c \div 16) \o <<HexDigit(c % 16)>>
(* the hexadecimal character reference of c *)
Ref(c) == <<38, 35, 120>> \o (IF c = 0 THEN <<48>> ELSE HexStr(c)) \o <<59>>

RECURSIVE FlatR(_, _, _)
FlatR(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i]
                   ELSE LET m == (i + j) \div 2 IN FlatR(ss, i, m) \o FlatR(ss, m + 1, j)
Flat(ss) == FlatR(ss, 1, Len(ss))

(* texts of characters that are bytes as they are *)
Plain(e, b) == (e = "UTF8" \/ IsIso(e)) /\ \A k \in 1..Len(b) : b[k] \in 1..127
EncAll(e, cs) == IF Plain(e, cs) THEN cs ELSE Flat([k \in 1..Len(cs) |-> Enc(e, cs[k])])
(* the characters a reader of encoding e sees where c was printed *)
Seen(e, c) == IF Rep(e, c) THEN <<c>> ELSE Ref(c)
SeenAll(e, cs) == IF \A k \in 1..Len(cs) : Rep(e, cs[k]) THEN cs
                  ELSE Flat([k \in 1..Len(cs) |-> Seen(e, cs[k])])
Print(e, c) == EncAll(e, Seen(e, c))
PrintAll(e, cs) == EncAll(e, SeenAll(e, cs))

(* ------------------------------- decoding ------------------------------ *)
Bad8 == 2147483647
Bad16 == 65535
Byte(b, i) == IF i < Len(b) THEN b[i + 1] ELSE 0
LeadLen(x) == CASE x < 128 -> 1 [] x < 192 -> 0 [] x < 224 -> 2 [] x < 240 -> 3
                [] x < 248 -> 4 [] x < 252 -> 5 [] x < 254 -> 6 [] x = 254 -> 7 [] OTHER -> 8
RECURSIVE Cont(_, _, _)
Cont(b, i, n) ==    \* value of n continuation bytes at i, or -1
  IF n = 0 THEN 0
  ELSE LET v == Cont(b, i, n - 1)
           x == Byte(b, i + n - 1)
       IN IF v < 0 \/ x < 128 \/ x >= 192 THEN -1 ELSE v * 64 + (x - 128)
DecUtf8(b, i) ==
  LET x == Byte(b, i)
      n == LeadLen(x)
      used == IF n = 0 THEN 1 ELSE n
  IN IF n = 1 THEN [c |-> x, n |-> 1]
     ELSE IF n = 0 THEN [c |-> Bad8, n |-> 1]
     ELSE IF n > 6 THEN [c |-> -1, n |-> used]          \* not specified which character
     ELSE LET t == Cont(b, i + 1, n - 1)
          IN IF t < 0 THEN [c |-> Bad8, n |-> used]
             ELSE [c |-> (x - Utf8Mark[n]) * Pow(64, n - 1) + t, n |-> used]
Word16(e, b, i) == IF e \in {"UTF16LE","UCS2LE"} THEN Byte(b, i) + 256 * Byte(b, i + 1)
                                                 ELSE 256 * Byte(b, i) + Byte(b, i + 1)
DecUtf16(e, b, i) ==
  LET w == Word16(e, b, i) IN
  IF w \in 55296..56319
  THEN LET v == Word16(e, b, i + 2) IN
       IF v \in 56320..57343 THEN [c |-> 65536 + (w - 55296) * 1024 + (v - 56320), n |-> 4]
       ELSE [c |-> Bad16, n |-> 4]
  ELSE [c |-> w, n |-> 2]
DecUcs4(e, b, i) ==
  LET q == IF e = "UCS4LE" THEN <<Byte(b,i+3), Byte(b,i+2), Byte(b,i+1), Byte(b,i)>>
                           ELSE <<Byte(b,i), Byte(b,i+1), Byte(b,i+2), Byte(b,i+3)>>
  IN [c |-> IF q[1] >= 128 THEN -1 ELSE q[1]*16777216 + q[2]*65536 + q[3]*256 + q[4], n |-> 4]
Dec(e, b, i) ==
  CASE e = "UTF8" -> DecUtf8(b, i)
    [] Utf16(e) -> DecUtf16(e, b, i)
    [] Ucs2(e) -> [c |-> Word16(e, b, i), n |-> 2]
    [] Ucs4(e) -> DecUcs4(e, b, i)
    [] IsIso(e) -> [c |-> IF Byte(b, i) < 128 THEN Byte(b, i) ELSE Page(e)[Byte(b, i) - 127], n |-> 1]

(* the characters of a text up to its end or null *)
RECURSIVE DecR(_, _, _)
DecR(e, b, i) == LET d == Dec(e, b, i) IN IF i >= Len(b) \/ d.c = 0 THEN <<>> ELSE <<d.c>> \o DecR(e, b, i + d.n)
DecAll(e, b, i) == IF i = 0 /\ Plain(e, b) THEN b ELSE DecR(e, b, i)

Encodings == {"UTF8","UTF16LE","UTF16BE","UCS2LE","UCS2BE","UCS4LE","UCS4BE",
              "ISO1","ISO2","ISO3","ISO4","ISO5","ISO6","ISO7","ISO8","ISO9"}
=============================================================================
