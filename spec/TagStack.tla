------------------------------ MODULE TagStack ------------------------------
(***************************************************************************)
(* The stack of tag names: a sequence of byte strings.  Popping the empty  *)
(* stack has no effect, its top is "none".                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

NewStack(p) == <<>>
SOk == <<"ok", <<>>>>
ApplyStack(s, op, a) ==
  CASE op = "psh" -> [s |-> Append(s, IF Len(a) = 0 THEN <<>> ELSE a[1]), r |-> SOk]
    [] op = "pop" -> [s |-> IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1), r |-> SOk]
    [] op = "clr" -> [s |-> <<>>, r |-> SOk]
    [] op = "emp" -> [s |-> s, r |-> <<"", <<IF s = <<>> THEN 1 ELSE 0>>>>]
    [] op = "top" -> [s |-> s, r |-> IF s = <<>> THEN <<"none", <<>>>> ELSE <<"", s[Len(s)]>>]
DoStack(p, s, op, a, r) == LET x == ApplyStack(s, op, a) IN [s |-> x.s, ok |-> r = x.r]
=============================================================================
