------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The components composed as programs compose them: the header parser     *)
(* looks at the document to find its encoding, the scanner is started on   *)
(* what the header parser consumed and gets the rest, and the items it     *)
(* returns are fed to a path selection.  Sources, encodings and chunks do  *)
(* not appear here: whatever they are, the behaviour has to be this one.   *)
(*                                                                         *)
(* p: doc   the characters of the document,  ents  user entities are defined  *)
(*    decl  the encoding it is known to declare (<<-1>>: unknown)  *)
(*    enc   encoding of the document (for the header parser)               *)
(*    atm   encoding of the scanner output, expressions and selection      *)
(* operations: def, add  define expressions                                *)
(*             head      parse the header                                  *)
(*             next      the next item and the types selected by it        *)
(* A whole pipeline is copied like everything else.                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
S == INSTANCE Scanner
P == INSTANCE Path
H == INSTANCE Header

Types == <<"None", "ErrorOccurred", "HeaderStart", "HeaderAttribName", "HeaderAttribValue", "HeaderEnd", "DocAttribValue", "DocAttribEnd",
           "TagAttribName", "TagAttribValue", "OpenTag", "CloseTag", "CloseTagIm", "Content", "Exit">>
TypeNo(t) == CHOOSE k \in 0..14 : Types[k + 1] = t

NewPipe(p) == [xs |-> <<>>, on |-> FALSE, b |-> P!Begin(<<>>), s |-> S!Init0, pos |-> 0, fin |-> FALSE]
RECURSIVE NextItem(_, _, _, _)
NextItem(doc, ents, s, pos) ==
  LET r == S!Step(s, pos, S!At(doc, pos), ents)
  IN IF r.em # <<>> THEN [s |-> r.s, pos |-> pos + r.use, it |-> r.em[1]] ELSE NextItem(doc, ents, r.s, pos + r.use)

\* the entities defined by the user
Ents == << [n |-> <<117,117,109,108>>, v |-> 252], [n |-> <<101,117,114>>, v |-> 8364], [n |-> <<120>>, v |-> 120],
           [n |-> <<113,117,111,116,50>>, v |-> 34], [n |-> <<110,108>>, v |-> 10] >>
Entities(p) == IF p.ents THEN Ents ELSE <<>>

Long(v) == <<v \div 16777216, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>
RECURSIVE Quads(_)
Quads(r) == IF r = <<>> THEN <<>> ELSE <<SubSeq(r, 1, 4)>> \o Quads(SubSeq(r, 5, Len(r)))
HeadResult(p) == LET h == H!Parse([H!NewHdr(<<>>) EXCEPT !.src = P!EncAll(p.enc, p.doc)])
                 IN IF h.fin = "true" THEN <<1>> \o h.enc ELSE IF h.fin = "error" THEN <<2>> ELSE IF h.fin = "exc" THEN <<3>> ELSE <<0>>
DoPipe(p, s, op, a, r) ==
  CASE op = "def" -> [s |-> [s EXCEPT !.xs = P!Calls(p.atm, a, 1, P!NewPE, s.xs)], ok |-> r = <<"ok", <<>>>>]
    [] op = "add" -> LET q == P!Parse(p.atm, P!Decode("UTF8", a[1], 0))
                     IN IF q.ok THEN [s |-> [s EXCEPT !.xs = @ \o [k \in 1..Len(q.es) |-> P!Expr(q.es[k], a[2])]], ok |-> r = <<"", <<0>>>>]
                        ELSE [s |-> s, ok |-> r[1] = "" /\ Len(r[2]) = 1 /\ r[2][1] \in 1..(Len(a[1]) + 1)]
    [] op = "head" -> [s |-> s, ok |-> r = <<"", HeadResult(p)>> /\ (p.decl[1] < 0 \/ r[2] = <<1>> \o p.decl)]
    [] op = "next" /\ s.fin -> [s |-> s, ok |-> r = <<"end", <<>>>>]
    [] op = "next" ->
       LET q == NextItem(p.doc, Entities(p), s.s, s.pos)
           t == q.it.t
           n == [s EXCEPT !.s = q.s, !.pos = q.pos, !.on = TRUE]
       IN IF t \in {"ErrorOccurred", "Exit"} THEN [s |-> [n EXCEPT !.fin = TRUE], ok |-> r = <<"", <<TypeNo(t)>>>>]
          ELSE LET b == IF s.on THEN s.b ELSE P!Begin(s.xs)
                   text == P!PrintAll(p.atm, q.it.c)
                   v == P!Event(s.xs, b, t, text)
                   hd == <<TypeNo(t)>> \o Long(Len(text)) \o text
               IN [s |-> [n EXCEPT !.b = v.s],
                   ok |-> /\ r[1] = "" /\ Len(r[2]) >= Len(hd) /\ SubSeq(r[2], 1, Len(hd)) = hd
                          /\ P!SameBag(Quads(SubSeq(r[2], Len(hd) + 1, Len(r[2]))), v.r)]
=============================================================================
