------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The input stream on a standard stream: reads deliver the bytes in       *)
(* order, as many as asked for unless the input ends.  A read that runs    *)
(* into a failure delivers nothing, and so do all reads after it; the      *)
(* error code tells whether the last read failed.  The end of the input is *)
(* not a failure.  Copies read from the same standard stream, so only one  *)
(* of them is used further.                                                *)
(* p: bytes the input, fail offset of the byte that cannot be read (-1     *)
(*    none; the number of bytes: the end cannot be determined)             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

NewStream(p) == [at |-> 0, bad |-> FALSE]
DoStream(p, s, op, a, r) ==
  LET n == a[1][1]
      rest == Len(p.bytes) - s.at
      m == IF n < rest THEN n ELSE rest
      fails == s.bad \/ (p.fail >= 0 /\ s.at + n > p.fail)
  IN CASE op = "read" /\ fails -> [s |-> [s EXCEPT !.bad = TRUE], ok |-> r = <<"", <<>>>>]
       [] op = "read" -> [s |-> [s EXCEPT !.at = s.at + m], ok |-> r = <<"", SubSeq(p.bytes, s.at + 1, s.at + m)>>]
       [] op = "err" -> [s |-> s, ok |-> r = <<"", <<IF s.bad THEN 1 ELSE 0>>>>]
=============================================================================
