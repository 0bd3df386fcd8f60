------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* A source iterator: a cursor over a sequence of bytes that returns null  *)
(* bytes behind the end.  The source iterator of textwolf (kind "S") sees  *)
(* one chunk at a time and suspends the reader at the end of a chunk until *)
(* the next one is put, unless the chunk was declared to be the last.      *)
(*                                                                         *)
(* p: bytes  the input                                                     *)
(*    kind   "C" string, "I" stream, "S" chunks                            *)
(*    chunks sizes of the chunks (S), the first one is put on creation     *)
(*    open   the chunks are not the last ones (S)                          *)
(*    fail   the byte with this offset cannot be read (I; -1: all can);    *)
(*    faillo the failure may be noticed at the increment to this offset    *)
(* operations as of the iterators; adv n: n increments                    *)
(* state: at    absolute position                                          *)
(*        b, e  the chunk visible                                          *)
(*        k     number of chunks put                                       *)
(*        eof   no more chunks will follow                                 *)
(*        base  where the position counted starts (an iterator default     *)
(*              constructed counts from the chunk put first)               *)
(*        nil   default constructed: no input at all                       *)
(*        bad   reading failed, nothing is promised any more               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Min(a, b) == IF a < b THEN a ELSE b
New(p) == [at |-> 0, b |-> 0, base |-> 0, k |-> 1, nil |-> FALSE, bad |-> FALSE,
           e |-> IF p.kind = "S" THEN p.chunks[1] ELSE Len(p.bytes),
           eof |-> p.kind # "S" \/ ~p.open]
Put(p, s0) ==
  LET s == IF s0.nil THEN [s0 EXCEPT !.nil = FALSE, !.base = s0.e] ELSE s0 IN
  IF s.k < Len(p.chunks)
  THEN [s EXCEPT !.k = s.k + 1, !.at = s.e, !.b = s.e, !.e = s.e + p.chunks[s.k + 1], !.eof = FALSE]
  ELSE [s EXCEPT !.at = s.e, !.b = s.e, !.eof = TRUE]
Val(v) == <<"", <<v>>>>
Ok == <<"ok", <<>>>>
Suspend == <<"eom", <<>>>>
Get(p, s) == IF s.nil THEN Val(0)
             ELSE IF s.at < s.e THEN Val(p.bytes[s.at + 1])
             ELSE IF s.eof THEN Val(0) ELSE Suspend
Size(p) == Len(p.bytes)

ReadError == <<"EXC/FileReadError/FileReadError", <<>>>>
Broken(p, s) == p.fail >= 0 /\ ~s.nil /\ s.at >= p.fail

DoSource(p, s, op, a, r) ==
  CASE s.bad -> [s |-> s, ok |-> TRUE]
    [] op = "get" /\ Broken(p, s) -> [s |-> [s EXCEPT !.bad = TRUE], ok |-> r = ReadError]
    [] op = "inc" /\ p.fail >= 0 /\ ~s.nil /\ s.at + 1 >= p.faillo /\ r = ReadError -> [s |-> [s EXCEPT !.bad = TRUE], ok |-> TRUE]
    [] op = "get" -> [s |-> s, ok |-> r = Get(p, s)]
    [] op = "inc" -> [s |-> [s EXCEPT !.at = s.at + 1], ok |-> r = Ok]
    [] op = "adv" -> [s |-> [s EXCEPT !.at = s.at + a[1][1]], ok |-> r = Ok]
    [] op = "pos" -> [s |-> s, ok |-> IF s.at <= s.e /\ ~s.nil THEN r = Val(s.at - s.base) ELSE r[1] = ""]
    [] op = "cpos" -> [s |-> s, ok |-> p.kind # "S" \/ (IF s.at <= s.e /\ ~s.nil THEN r = Val(s.at - s.b) ELSE r[1] = "")]
    [] op = "set" -> IF p.kind = "C" /\ ~s.nil THEN [s |-> [s EXCEPT !.at = Min(a[1][1], Size(p))], ok |-> r = Ok] ELSE [s |-> s, ok |-> TRUE]
    [] op = "eoc" -> [s |-> s, ok |-> p.kind # "S" \/ s.nil \/ r = Val(IF s.at >= s.e THEN 1 ELSE 0)]
    [] op = "put" -> IF p.kind = "S" THEN [s |-> Put(p, s), ok |-> r = Ok] ELSE [s |-> s, ok |-> TRUE]
    [] op = "def" -> [s |-> [s EXCEPT !.nil = TRUE], ok |-> r = Ok]

DifSource(p, s, t, r) ==
  CASE s.nil \/ t.nil -> TRUE
    [] p.kind = "C" -> r = Val(s.at - t.at)
    [] p.kind = "I" -> (s.at < Size(p) /\ t.at < Size(p)) => r = Val(s.at - t.at)
    [] OTHER -> IF s.k = t.k /\ s.eof = t.eof /\ s.at >= t.at THEN r = Val(s.at - t.at)
                ELSE (s.e # t.e \/ s.at < t.at) => r[1] = "EXC/IllegalParam/IllegalParam"
=============================================================================
