---------------------------- MODULE HeaderModel -----------------------------
(***************************************************************************)
(* Design model of the header parser.  Documents are written by rules that *)
(* know what a header is (attributes, quotes, spaces, null bytes of wider  *)
(* encodings); what the parser must find is known from the way the         *)
(* document was written.  Also a tour: a document for every control state  *)
(* and character.                                                          *)
(***************************************************************************)
EXTENDS Header, TLC, Json
CONSTANTS MaxAttr, Rich
VARIABLES doc, mode, want, enc, na
vars == <<doc, mode, want, enc, na>>

S(str) == CASE str = "xml" -> Xml [] str = "encoding" -> AttrNames[1] [] str = "version" -> AttrNames[2] [] str = "standalone" -> AttrNames[3]
            [] str = "" -> <<>> [] str = "utf" -> <<85, 84, 70, 45, 56>> [] str = "odd" -> <<63, 62, 39, 60, 32, 200, 61>> [] str = "one" -> <<49>>

Init == doc = <<>> /\ mode = "start" /\ want = "" /\ enc = <<>> /\ na = 0
Write(w, m, f) == doc' = doc \o w /\ mode' = m /\ want' = f
(* well formed and malformed headers *)
Start == mode = "start" /\ na' = 0 /\ enc' = <<>> /\
          \/ \E sp \in (IF Rich THEN {<<>>, <<32>>, <<10, 9>>} ELSE {<<>>, <<10, 32>>}) : \E sp2 \in {<<>>, <<13>>} :
               \/ Write(sp \o <<60>> \o sp2 \o <<63>> \o Xml, "decl", "")
               \/ \E c \in {97, 90, 95} : Write(sp \o <<60>> \o sp2 \o <<c>>, "end", "true")
               \/ \E c \in {33, 47, 45, 62, 60, 49, 200} : Write(sp \o <<60>> \o sp2 \o <<c>>, "end", "error")
               \/ \E c \in {97, 62, 200} : Write(sp \o <<c>>, "end", "error")
          \/ Write(<<60, 63>> \o <<120, 109>>, "bad", "") \/ Write(<<60, 63>> \o Xml \o <<120>>, "bad", "")
Bad == mode = "bad" /\ \E c \in {32, 63, 62, 10} : Write(<<c>>, "end", "error") /\ UNCHANGED <<enc, na>>
Decl == mode = "decl" /\ UNCHANGED <<enc, na>> /\
          \/ \E sp \in {<<32>>, <<10, 32>>} : Write(sp, "attr", "")
          \/ Write(<<63>>, "end", "true") \/ Write(<<62>>, "end", "error") \/ Write(<<49>>, "end", "error") \/ Write(<<61>>, "end", "error")
Attr == mode = "attr" /\
          \/ /\ na < MaxAttr /\ na' = na + 1
             /\ \E n \in {"encoding", "version", "standalone"} : \E ab \in (IF Rich THEN {<< <<>>, <<>> >>, << <<32>>, <<>> >>, << <<>>, <<10>> >>, << <<9>>, <<32>> >>} ELSE {<< <<>>, <<>> >>, << <<32>>, <<10>> >>}) :
                  \E q \in {34, 39} : \E v \in {"", "utf", "odd"} : \E sp \in (IF Rich THEN {<<>>, <<32>>} ELSE {<<32>>}) :
                  /\ ~(\E j \in 1..Len(S(v)) : S(v)[j] = q)
                  /\ Write(S(n) \o ab[1] \o <<61>> \o ab[2] \o <<q>> \o S(v) \o <<q>> \o sp, "attr", "")
                  /\ enc' = IF n = "encoding" THEN S(v) ELSE enc
          \/ UNCHANGED <<enc, na>> /\
               (\/ Write(<<63>>, "end", "true") \/ Write(<<62>>, "end", "error") \/ Write(<<60>>, "end", "error") \/ Write(<<34>>, "end", "error")
                \/ Write(<<101, 110, 99, 61>>, "end", "error") \/ Write(AttrNames[1] \o <<120, 32>>, "end", "error")
                \/ Write(AttrNames[1] \o <<32, 34>>, "end", "error") \/ Write(AttrNames[2] \o <<61, 120>>, "end", "error")
                \/ Write(AttrNames[2] \o <<63>>, "end", "error") \/ Write(<<101, 49>>, "end", "error"))
Next == Start \/ Bad \/ Decl \/ Attr
Spec == Init /\ [][Next]_vars

New == NewHdr(<<>>)
Run(d) == Parse([New EXCEPT !.src = d])
Wide(d, k, be) == [j \in 1..(k * Len(d)) |-> IF be THEN (IF j % k = 0 THEN d[j \div k] ELSE 0) ELSE (IF (j - 1) % k = 0 THEN d[(j - 1) \div k + 1] ELSE 0)]
FindsWhatWasWritten == LET r == Run(doc) IN r.fin = want /\ r.enc = enc
WidthIndependent == \A k \in {2, 4} : \A be \in BOOLEAN : LET r == Run(Wide(doc, k, be)) a == Run(doc) IN r.fin = a.fin /\ r.enc = a.enc /\ r.cnt = a.cnt
(* a cut in the last characters gives the same (for the others: the states before) *)
CutIndependent == \A k \in (IF Len(doc) > 8 THEN Len(doc) - 8 ELSE 0)..Len(doc) :
   LET a == Parse([New EXCEPT !.src = SubSeq(doc, 1, k)])
   IN Parse([a EXCEPT !.src = doc]) = (IF a.fin = "" THEN Run(doc) ELSE [Run(doc) EXCEPT !.src = doc])
Emit == PrintT("DOC" \o ToJson(doc)) 
=============================================================================
