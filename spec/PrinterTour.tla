---------------------------- MODULE PrinterTour -----------------------------
(* transition tour: every call (accepted or not) in every context *)
EXTENDS Printer, Json, TLC
CONSTANT Depth
VARIABLES s, hist, sub
vars == <<s, hist, sub>>
T == {<<>>, <<97, 60, 38, 34, 39, 62, 10, 13, 9, 8, 233, 8364>>}
N == {<<97>>, <<98, 98>>, <<>>}
Opts == {Null, <<>>, <<120, 121>>}
Calls == {<<"hdr", a, b>> : a, b \in Opts} \cup {<<"doc", a, b, c>> : a, b, c \in Opts} \cup {<<"cls">>, <<"ext">>, <<"rst", <<>>>>, <<"rst", <<1>>>>, <<"sta">>}
         \cup {<<o, n>> : o \in {"opn", "atr"}, n \in N} \cup {<<"val", t>> : t \in T}
Init == sub \in BOOLEAN /\ s = NewPrinter(sub) /\ hist = <<>>
Do(c) == LET t == IF c[1] = "sta" THEN s ELSE Call(s, c[1], Tail(c)).s
         IN Len(t.stk) <= Depth /\ s' = t /\ hist' = Append(hist, c) /\ UNCHANGED sub
            /\ PrintT("HIST" \o ToJson([sub |-> sub, h |-> hist']))
Next == \E c \in Calls : Do(c)
Spec == Init /\ [][Next]_vars
View == <<s, sub>>
Context == (s.st \in {"attribute", "element"} => s.stk # <<>>) /\ (s.st = "init" => s.stk = <<>>)
=============================================================================
