-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The text scanner: a cursor over the characters of a byte sequence in    *)
(* one encoding.  The character value, its ASCII value, its control class  *)
(* and its bytes are functions of the bytes at the cursor; asking for them *)
(* does not change the state, skipping moves the cursor by the length of   *)
(* the character.  A source fed in chunks may suspend an operation, only   *)
(* while bytes of the current character are missing; it is repeated after  *)
(* the next chunk was put.                                                 *)
(* p: bytes, enc, chunks (sizes, <<>> if not chunked)                      *)
(* state: at cursor (offset of the first byte of the current character)    *)
(*        e  bytes visible, k chunks put, eof nothing more will be put     *)
(***************************************************************************)
EXTENDS Charset

NewText(p) == [at |-> 0, k |-> 1,
               e |-> IF p.chunks = <<>> THEN Len(p.bytes) ELSE p.chunks[1],
               eof |-> p.chunks = <<>>]
PutText(p, s) ==
  IF s.k < Len(p.chunks) THEN [s EXCEPT !.k = s.k + 1, !.e = s.e + p.chunks[s.k + 1]]
  ELSE [s EXCEPT !.eof = TRUE]

IsLetterOrDigit(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122
(* control character classes: what a character means for markup *)
ClassOf(c) ==
  CASE c = 0 -> "EndOfText"
    [] c \in {9, 13, 32} -> "Space"
    [] c = 10 -> "EndOfLine"
    [] c = 38 -> "Amp"   [] c = 60 -> "Lt"     [] c = 61 -> "Equal"  [] c = 62 -> "Gt"
    [] c = 47 -> "Slash" [] c = 45 -> "Dash"   [] c = 33 -> "Exclam" [] c = 63 -> "Questm"
    [] c = 39 -> "Sq"    [] c = 34 -> "Dq"     [] c = 91 -> "Osb"    [] c = 93 -> "Csb"
    [] c = 5 -> "Undef"
    [] c \in 1..31 -> "Cntrl"
    [] c \in 33..127 -> "Any"
    [] OTHER -> "Undef"

Num(v) == <<"", <<v>>>>
Okay == <<"ok", <<>>>>
PrintOr(e, c) == IF c = 2147483647 /\ e # "UTF8" THEN <<>> ELSE Print(e, c)

DoText(p, s, op, a, r) ==
  LET d == Dec(p.enc, p.bytes, s.at)
      complete == s.at + d.n <= s.e
      same == [s |-> s, ok |-> TRUE]
      Is(x) == [s |-> s, ok |-> r = x]
      \* (an overlong UTF-8 sequence is never ASCII)
      cc == IF p.enc = "UTF8" /\ d.n > 1 /\ d.c < 128 THEN 128 ELSE d.c
      ascii == IF cc > 0 /\ cc < 128 THEN cc ELSE 0
      bytes == [j \in 1..d.n |-> Byte(p.bytes, s.at + j - 1)]
      to == IF Len(a) > 0 THEN a[1][1] ELSE 0
  IN CASE op = "put" -> IF p.chunks = <<>> THEN same ELSE [s |-> PutText(p, s), ok |-> r = Okay]
       [] op = "pos" -> [s |-> s, ok |-> IF s.at + d.n <= Len(p.bytes) THEN r = Num(s.at) ELSE r[1] = ""]
       [] r[1] = "eom" -> [s |-> s, ok |-> ~s.eof /\ ~complete]
       [] op \in {"chr", "drf"} -> [s |-> s, ok |-> IF d.n > 6 THEN r[1] = "" ELSE r = Num(d.c)]
       [] op = "asc" -> Is(Num(ascii))
       [] op = "ctl" -> Is(<<ClassOf(IF cc < 0 THEN 128 ELSE cc), <<>>>>)
       [] op \in {"skp", "inc"} -> [s |-> [s EXCEPT !.at = s.at + d.n], ok |-> r = Okay]
       [] op = "pst" -> [s |-> [s EXCEPT !.at = s.at + d.n], ok |-> IF d.n > 6 THEN r[1] = "" ELSE r = Num(d.c)]
       [] op = "cpy" /\ d.c = 0 /\ to # 0 /\ p.pages # to -> [s |-> s, ok |-> r[1] = ""]   \* printing null is not defined
       [] op = "cpy" -> Is(<<"", IF to = 0 \/ p.pages = to THEN bytes ELSE Print(p.tonames[to], d.c)>>)
=============================================================================
