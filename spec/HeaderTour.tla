----------------------------- MODULE HeaderTour -----------------------------
(* transition tour: a document for every control state and character *)
EXTENDS Header, TLC, Json
VARIABLES doc, s
vars == <<doc, s>>
Chars == {0, 1, 9, 10, 32, 33, 34, 39, 45, 47, 49, 60, 61, 62, 63, 64, 65, 90, 91, 95, 96, 97, 122, 123, 128, 193, 225, 255}
Words == {<<c>> : c \in Chars} \cup {Xml} \cup {AttrNames[k] : k \in 1..3}
Init == doc = <<>> /\ s = NewHdr(<<>>)
Next == s.fin = "" /\ Len(doc) < 60 /\ \E w \in Words : /\ doc' = doc \o w
                                       /\ s' = Parse([s EXCEPT !.src = doc'])
                                       /\ PrintT("DOC" \o ToJson(doc'))
Spec == Init /\ [][Next]_vars
View == <<s.st, s.fin, s.z, s.attr, s.enc # <<>>, IF s.item = <<>> THEN 0 ELSE IF s.item = Xml THEN 1 ELSE IF AttrOf(s.item) # "" THEN 2 ELSE 3>>
Known == s.st \in {"init", "open", "decl", "find", "name", "assign", "value", "dq", "sq"} /\ s.fin \in {"", "true", "error", "exc"}
=============================================================================
