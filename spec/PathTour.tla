------------------------------ MODULE PathTour ------------------------------
(* Documents for the replay: all of MaxEvents events (Docs) and for every  *)
(* expression of the menu one for every transition of the selection        *)
(* machine between its states up to a depth (Tour).                        *)
EXTENDS PathModel
Cap(n) == Min(n, 3)
Norm == [l \in 1..Len(s.sc) |-> {<<tok.x, tok.k, tok.at = s.n, Cap(tok.c),
          Cap(Cardinality({j \in 1..Len(s.sc[l]) : s.sc[l][j].k = tok.k /\ s.sc[l][j].x = tok.x}))>> : tok \in {s.sc[l][j] : j \in 1..Len(s.sc[l])}}]
LastKind == IF doc = <<>> THEN "" ELSE IF CanAttr(doc) THEN "attr" ELSE IF doc[Len(doc)][1] \in {"CloseTag", "CloseTagIm", "Content"} THEN "cont" ELSE doc[Len(doc)][1]
View == <<x, Norm, LastKind>>
\* the expression as it is in the list of all, for the replay
TourNext == Next /\ Len(s.sc[Len(s.sc)]) < 5 /\ PrintT("DOC" \o ToJson([x |-> x, d |-> doc']))
TourSpec == Init /\ [][TourNext]_vars
DocsInit == x = <<>> /\ doc = <<>> /\ hist = <<>> /\ s = Begin(<<>>)
DocsNext == Next /\ (Len(doc') = MaxEvents => PrintT("DOC" \o ToJson([x |-> <<>>, d |-> doc'])))
DocsSpec == DocsInit /\ [][DocsNext]_vars
=============================================================================
