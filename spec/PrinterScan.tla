---- MODULE PrinterScan ----
(***************************************************************************)
(* Round trip: the items the real scanner returned for a document the real *)
(* printer wrote must be the items of the calls the printer accepted.      *)
(* Run: p      as in PrinterTrace                                          *)
(*      calls  <<operation, arguments, accepted>>                          *)
(*      view   "full" or the output encoding of the scanner                *)
(*      items  <<type, characters>>                                        *)
(***************************************************************************)
EXTENDS Printer, Charset, Json, IOUtils
VARIABLES i, n, s, its, ok
vars == <<i, n, s, its, ok>>
Traces == JsonDeserialize(IOEnv.TRACE)
T == Traces.runs[i]
Chars(e, b, at) == DecAll(e, b, at)
Opt(p, b) == IF b[1] = 0 THEN Null ELSE IF p.wide THEN Tail(b) ELSE Chars(p.app, Tail(b), 0)
ArgsOf(p, op, a) ==
  CASE op \in {"hdr", "doc"} -> [k \in 1..Len(a) |-> Opt(p, a[k])]
    [] op \in {"opn", "atr", "val"} -> <<IF a = <<>> THEN <<>> ELSE Chars(p.app, a[1], 0)>>
    [] op = "rst" -> <<IF a = <<>> \/ a[1] = <<0>> THEN <<>> ELSE <<1>>>>
    [] OTHER -> <<>>
NoText == {"HeaderEnd", "DocAttribEnd", "CloseTagIm", "Exit"}
Text(c) == IF T.view = "full" THEN c ELSE SeenAll(T.view, c)
Same(r, x) == r[1] = x[1] /\ (r[1] \in NoText \/ r[2] = Text(x[2]))
Init == i \in 1..Len(Traces.runs) /\ n = 0 /\ s = NewPrinter(T.p.sub) /\ its = <<>> /\ ok = TRUE
Step == /\ n < Len(T.calls)
        /\ LET c == T.calls[n + 1]
               a == ArgsOf(T.p, c[1], c[2])
               r == Call(s, c[1], a)
           IN IF c[3] = 1 /\ r.ok
              THEN s' = r.s /\ its' = AddItems(s, its, c[1], a)
              ELSE UNCHANGED <<s, its>>
        /\ n' = n + 1 /\ UNCHANGED <<i, ok>>
Compare == /\ n = Len(T.calls) /\ n' = n + 1
           /\ LET all == Append(its, <<"Exit", <<>>>>)
              IN ok' = (Len(T.items) = Len(all) /\ \A k \in 1..Len(all) : Same(T.items[k], all[k]))
           /\ UNCHANGED <<i, s, its>>
Done == n > Len(T.calls) /\ UNCHANGED vars
Next == Step \/ Compare \/ Done
Spec == Init /\ [][Next]_vars
ReadsBack == ok
====
