------------------------------- MODULE PathOps -------------------------------
(* Operations on automatons and selections, with arguments and results as bytes. *)
EXTENDS Path
Types == <<"None", "ErrorOccurred", "HeaderStart", "HeaderAttribName", "HeaderAttribValue", "HeaderEnd", "DocAttribValue", "DocAttribEnd",
           "TagAttribName", "TagAttribValue", "OpenTag", "CloseTag", "CloseTagIm", "Content", "Exit">>
NewSel(p) == [xs |-> <<>>, on |-> FALSE, s |-> Begin(<<>>)]
RECURSIVE Quads(_)
Quads(r) == IF r = <<>> THEN <<>> ELSE <<SubSeq(r, 1, 4)>> \o Quads(SubSeq(r, 5, Len(r)))
(* the description of an automaton: it names all types and ranges defined and no others *)
RECURSIVE Dec10(_)
Dec10(v) == IF v < 10 THEN <<48 + v>> ELSE Append(Dec10(v \div 10), 48 + (v % 10))
DigitsFrom(b, i) == LET j == CHOOSE j \in i..(Len(b) + 1) : (j = Len(b) + 1 \/ b[j] \notin 48..57) /\ \A k \in i..(j - 1) : b[k] \in 48..57 IN SubSeq(b, i, j - 1)
TypeOf(q) == Dec10(q[4] + 256 * (q[3] + 256 * q[2]))
TextOk(xs, b) ==
  LET arrows == {i \in 1..(Len(b) - 1) : b[i] = 61 /\ b[i + 1] = 62}
      opens == {i \in 1..Len(b) : b[i] = 91}
      range(i) == LET l == DigitsFrom(b, i + 1)
                      c == i + 1 + Len(l)
                  IN IF c <= Len(b) /\ b[c] = 44 THEN <<l, DigitsFrom(b, c + 1)>> ELSE <<>>
      given == {<<Dec10(xs[k].from), Dec10(xs[k].to)>> : k \in {k \in 1..Len(xs) : xs[k].from >= 0 /\ xs[k].to > 0}}
  IN /\ {DigitsFrom(b, i + 2) : i \in arrows} = {TypeOf(xs[k].type) : k \in 1..Len(xs)}
     /\ \A n \in {DigitsFrom(b, i + 2) : i \in arrows} : Cardinality({i \in arrows : DigitsFrom(b, i + 2) = n}) = Cardinality({k \in 1..Len(xs) : TypeOf(xs[k].type) = n})
     /\ {range(i) : i \in opens} \subseteq given
     /\ \A g \in given : g = <<Dec10(0), Dec10(Inf)>> \/ g \in {range(i) : i \in opens}
DoSel(p, s, op, a, r) ==
  CASE op = "def" -> [s |-> [s EXCEPT !.xs = Calls(p.atm, a, 1, NewPE, s.xs)], ok |-> r = <<"ok", <<>>>>]
    [] op = "add" -> LET q == Parse(p.atm, Decode(p.src, a[1], 0))
                     IN IF q.ok THEN [s |-> [s EXCEPT !.xs = @ \o [k \in 1..Len(q.es) |-> Expr(q.es[k], a[2])]], ok |-> r = <<"", <<0>>>>]
                        ELSE [s |-> s, ok |-> r[1] = "" /\ Len(r[2]) = 1 /\ r[2][1] \in 1..(Len(a[1]) + 1)]
    [] op = "look" -> LET b == IF s.on THEN s.s ELSE Begin(s.xs)
                      IN [s |-> [s EXCEPT !.on = TRUE, !.s = b],
                          ok |-> r[1] = "" /\ (SameBag(Quads(r[2]), Ahead(s.xs, b, Types[a[1][1] + 1], a[2][1] = 1, Types[a[3][1] + 1])) \/ \E k \in 1..Len(s.xs) : Rooted(s.xs[k]))]
    [] op = "str" -> [s |-> s, ok |-> r[1] = "" /\ TextOk(s.xs, r[2])]
    [] op = "ev" -> LET b == IF s.on THEN s.s ELSE Begin(s.xs)
                        v == Event(s.xs, b, Types[a[1][1] + 1], IF Len(a) > 1 THEN a[2] ELSE <<>>)
                    IN [s |-> [s EXCEPT !.on = TRUE, !.s = v.s],
                        ok |-> r[1] = "" /\ (SameBag(Quads(r[2]), v.r) \/ \E k \in 1..Len(s.xs) : Rooted(s.xs[k]))]
=============================================================================
