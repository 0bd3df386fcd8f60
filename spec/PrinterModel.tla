---------------------------- MODULE PrinterModel ----------------------------
(***************************************************************************)
(* Design model: every sequence of accepted calls (of a small set of       *)
(* names and texts with all special characters) prints a document that the *)
(* scanner specification reads back as the items of the calls, whatever    *)
(* the output encoding can represent.  DOCTYPE comes before the root       *)
(* element and texts are printed inside of elements.                       *)
(* Also a tour: the call sequences are printed and replayed in the code.   *)
(***************************************************************************)
EXTENDS Printer, Json, TLC
CONSTANTS MaxLen, Texts, Names, Sub, Io
VARIABLES s, doc, its, hist
vars == <<s, doc, its, hist>>
Sc == INSTANCE Scanner
Cs == INSTANCE Charset

TextSet == CASE Texts = "few" -> {<<>>, <<32>>, <<97, 60, 38>>, <<10, 34, 39, 62, 13>>}
             [] Texts = "all" -> {<<>>} \cup {<<c>> : c \in {1, 5, 8, 9, 10, 13, 32, 33, 34, 38, 39, 45, 47, 59, 60, 61, 62, 63, 91, 93, 97, 128, 233, 8364, 65536}}
                                 \cup {<<38, 97, 109, 112, 59>>, <<13, 10>>, <<93, 93, 62>>, <<60, 33, 45, 45>>, <<32, 10, 97, 32>>}
NameSet == IF Names = "one" THEN {<<97>>} ELSE {<<97>>, <<98, 45>>, <<233, 8364>>}
Calls == {<<"hdr", Null, Null>>, <<"hdr", <<85, 67, 83, 45, 50>>, <<121, 101, 115>>>>,
          <<"doc", <<97>>, Null, Null>>, <<"doc", <<97>>, Null, <<112, 32, 58>>>>, <<"doc", <<97>>, <<112>>, <<113>>>>, <<"doc", Null, Null, Null>>, <<"doc", <<97>>, <<112>>, Null>>,
          <<"cls">>, <<"ext">>}
         \cup {<<o, n>> : o \in {"opn", "atr"}, n \in NameSet} \cup {<<"val", t>> : t \in TextSet}
Init == \E sub \in Sub : s = NewPrinter(sub) /\ doc = <<>> /\ its = <<>> /\ hist = << <<"new", IF sub THEN <<1>> ELSE <<>>>> >>
(* document level: no text and no DOCTYPE where XML does not allow it *)
Allowed(c) == /\ c[1] = "val" /\ s.st # "attribute" => s.stk # <<>>
              /\ c[1] = "doc" /\ c[2] # Null => s.stk = <<>> /\ ~(\E k \in 1..Len(its) : its[k][1] = "OpenTag")
 Next == /\ Len(hist) <= MaxLen
        /\ \E c \in Calls : /\ Allowed(c)
             /\ LET r == Call(s, c[1], Tail(c)) IN
                /\ s' = r.s /\ doc' = doc \o Cs!SeenAll(Io, r.w)
                /\ its' = IF r.ok THEN AddItems(s, its, c[1], Tail(c)) ELSE its
                /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars

RECURSIVE Items(_, _, _)
Items(st, p, acc) ==
  IF Sc!Final(st) THEN acc
  ELSE LET r == Sc!Step(st, p, Sc!At(doc, p), <<>>)
       IN Items(r.s, p + r.use, IF r.em = <<>> THEN acc ELSE Append(acc, <<r.em[1].t, IF r.em[1].mk THEN <<>> ELSE r.em[1].c>>))
(* the items of a complete document, read by the scanner, are those printed *)
RoundTrip == s.st = "content" /\ s.stk = <<>> /\ (\E k \in 1..Len(its) : its[k][1] = "OpenTag")
             => Items(Sc!Init0, 0, <<>>) = Append(its, <<"Exit", <<>>>>)
(* a rejected call changes nothing *)
Rejected == \A c \in Calls : LET r == Call(s, c[1], Tail(c)) IN ~r.ok => r.s = s /\ r.w = <<>>
Context == (s.st \in {"attribute", "element"} => s.stk # <<>>) /\ (s.st = "init" => s.stk = <<>>)
View == <<s, doc, its>>
Show == [hist |-> hist, printed |-> its, read |-> Items(Sc!Init0, 0, <<>>)]
Emit == PrintT("HIST" \o ToJson(hist))
=============================================================================
