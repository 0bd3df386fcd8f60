----------------------------- MODULE PrinterOps -----------------------------
(* Operations on printers, with arguments and results as bytes. *)
EXTENDS Printer, Charset
Chars(e, b, at) == DecAll(e, b, at)
Opt(p, b) == IF b[1] = 0 THEN Null ELSE IF p.wide THEN Tail(b) ELSE Chars(p.app, Tail(b), 0)
ArgsOf(p, op, a) ==
  CASE op \in {"hdr", "doc"} -> [k \in 1..Len(a) |-> Opt(p, a[k])]
    [] op = "pch" -> <<a[1]>>        \* one byte is one character
    [] op = "pst" -> <<Opt(p, <<1>> \o a[1])>>
    [] op \in {"opn", "atr", "val", "raw", "pav", "pct", "sub"} -> <<IF a = <<>> THEN <<>> ELSE Chars(p.app, a[1], 0)>>
    [] op = "rst" -> <<IF a = <<>> \/ a[1] = <<0>> THEN <<>> ELSE <<1>>>>
    [] OTHER -> <<>>
(* err: whether an error is reported (lasterror): "none", "some" or "any" (left open: after accepted calls, and after the rejected calls
   that tell nothing) *)
NewP(p) == [pr |-> NewPrinter(p.sub), err |-> "none"]
Told == {"hdr", "doc", "ext", "opn", "val"}
ErrAfter(err, op, ok) ==
  CASE op = "rst" -> "none"
    [] ok -> IF err = "none" THEN "none" ELSE "any"
    [] op \in Told -> "some"
    [] OTHER -> IF err = "some" THEN "some" ELSE "any"
DoP(p, s, op, a, r) ==
  IF op = "sta" THEN [s |-> s, ok |-> r = <<"", <<StateNo(s.pr)>>>>]
  ELSE IF op = "err" THEN [s |-> s, ok |-> \E b \in {0, 1} : r = <<"", <<b>>>> /\ (s.err = "none" => b = 0) /\ (s.err = "some" => b = 1)]
  ELSE LET c == Call(s.pr, op, ArgsOf(p, op, a))
       IN [s |-> [pr |-> c.s, err |-> ErrAfter(s.err, op, c.ok)], ok |-> r = <<"", <<IF c.ok THEN 1 ELSE 0>> \o PrintAll(p.io, c.w)>>]
=============================================================================
