-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Selection by path expressions.                                          *)
(*                                                                         *)
(* An expression is a sequence of steps and an output:                     *)
(*   steps  [op, any, key, f]: find a tag, the close tag, an attribute or  *)
(*          the value of the attribute just found; with any key or only    *)
(*          key; f: also in all scopes below                               *)
(*   out    "" the last step itself, "content" or "value" (of the          *)
(*          attribute just found), d: also in all scopes below; from, to:  *)
(*          the indices selected are from..to-1                            *)
(* Definitions are built by the operators of a path element (PE.. below)   *)
(* or by the parser of textual expressions.                                *)
(*                                                                         *)
(* Selecting: a token (x, k) waits in a scope for step k of expression x   *)
(* (k = number of steps + 1: for outputs).  A scope is opened by an open   *)
(* tag and ended by its close tag; HeaderStart finds tags too, but does    *)
(* not open a scope.  Each match of a step creates a token for the next    *)
(* step: in the scope opened by the event, otherwise in the current one.   *)
(***************************************************************************)
EXTENDS Charset

Inf == 2147483647
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* ------------------------------ definitions ---------------------------- *)
NewPE == [steps |-> <<>>, out |-> "", f |-> FALSE, from |-> 0, to |-> Inf]
Find(pe, op, any, key) ==
  [pe EXCEPT !.steps = Append(@, [op |-> op, any |-> any, key |-> key, f |-> pe.f]), !.f = FALSE]
Output(pe, o) == [pe EXCEPT !.out = o]
Follow(pe) == [pe EXCEPT !.f = TRUE]
Tag(pe, any, key) == Find(pe, "tag", any, key)
CloseTag(pe) == Find(pe, "close", TRUE, <<>>)
Attr(pe, any, key) == Output(Find(pe, "attr", any, key), "value")
IfAttr(pe, any, key, anyval, val) == Find(Find(pe, "attr", any, key), "this", anyval, val)
Restrict(pe, lo, end) == [pe EXCEPT !.from = Max(@, lo), !.to = Min(@, end)]
UpTo(i) == IF i >= 0 /\ i < Inf THEN i + 1 ELSE Inf
Expr(pe, type) == [steps |-> pe.steps, out |-> pe.out, d |-> pe.f, from |-> pe.from, to |-> pe.to, type |-> type]
(* not specified: an expression without steps that selects no content *)
Rooted(x) == x.steps = <<>> /\ x.out # "content"

(* ------------------------- names and values as keys --------------------- *)
Decode(e, b, i) == DecAll(e, b, i)
At(cs, i) == IF i <= Len(cs) THEN cs[i] ELSE 0
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> 99
RECURSIVE Digits(_, _, _, _)
Digits(cs, i, base, v) ==   \* value of the digits up to the semicolon, 0 if there is none
  IF At(cs, i) = 59 THEN [v |-> v, i |-> i + 1]
  ELSE IF HexVal(At(cs, i)) >= base \/ v > 100000000 THEN [v |-> 0, i |-> i]
  ELSE Digits(cs, i + 1, base, v * base + HexVal(At(cs, i)))
NumRef(cs, i) ==
  IF At(cs, i) # 35 THEN [v |-> 0, i |-> i]
  ELSE IF At(cs, i + 1) = 120 THEN Digits(cs, i + 2, 16, 0) ELSE Digits(cs, i + 1, 10, 0)
NameChar(c) == c > 127 \/ c = 5 \/ c = 45 \/ c \in ((33..127) \ {33, 34, 38, 39, 47, 60, 61, 62, 63, 91, 93})
RECURSIVE TokenR(_, _, _)
TokenR(cs, i, isval) ==
  LET c == At(cs, i)
      n == NumRef(cs, i + 1)
  IN CASE c = 0 -> <<>>
       [] c = 38 -> IF n.v > 0 THEN <<n.v>> \o TokenR(cs, n.i, isval) ELSE <<c>> \o TokenR(cs, i + 1, isval)
       [] OTHER -> IF isval \/ NameChar(c) THEN <<c>> \o TokenR(cs, i + 1, isval) ELSE <<>>
Token(cs, i, isval) == IF \A k \in i..Len(cs) : cs[k] \notin {0, 38} /\ (isval \/ NameChar(cs[k])) THEN SubSeq(cs, i, Len(cs)) ELSE TokenR(cs, i, isval)
(* the bytes b of a name or value in encoding e as they appear in events *)
Key(e, b, isval) == PrintAll(e, Token(Decode(e, b, 0), 1, isval))
CKey(e, cs, isval) == Key(e, PrintAll(e, cs), isval)

(* calls of operators: a letter and its arguments, '=' assigns a type *)
RECURSIVE Calls(_, _, _, _, _)
Calls(e, a, j, pe, xs) ==
  IF j > Len(a) THEN xs
  ELSE LET o == a[j][1]
           n(k) == a[j + k][1]
           key(k, v) == Key(e, a[j + k], v)
           go(k, q) == Calls(e, a, j + k, q, xs)
       IN CASE o = 100 -> go(1, Follow(pe))                              \* d  --
            [] o = 116 -> go(2, Tag(pe, FALSE, key(1, FALSE)))           \* t  [name]
            [] o = 84  -> go(1, Tag(pe, TRUE, <<>>))                     \* T  [0]
            [] o = 99  -> go(1, CloseTag(pe))                            \* c
            [] o = 97  -> go(2, Attr(pe, FALSE, key(1, FALSE)))          \* a  (name)
            [] o = 65  -> go(1, Attr(pe, TRUE, <<>>))                    \* A  (0)
            [] o = 105 -> go(3, IfAttr(pe, FALSE, key(1, FALSE), FALSE, key(2, TRUE)))   \* i (name,value)
            [] o = 73  -> go(2, IfAttr(pe, TRUE, <<>>, FALSE, key(1, TRUE)))             \* I (0,value)
            [] o = 106 -> go(2, IfAttr(pe, FALSE, key(1, FALSE), TRUE, <<>>))            \* j (name,0)
            [] o = 111 -> go(1, Output(pe, "content"))                   \* o  ()
            [] o = 102 -> go(2, Restrict(pe, n(1), Inf))                 \* f  FROM
            [] o = 117 -> go(2, Restrict(pe, 0, UpTo(n(1))))             \* u  TO
            [] o = 114 -> go(3, Restrict(pe, n(1), UpTo(n(2))))          \* r  RANGE
            [] o = 120 -> go(2, Restrict(pe, n(1), n(1) + 1))            \* x  INDEX
            [] o = 61  -> Calls(e, a, j + 2, pe, Append(xs, Expr(pe, a[j + 1])))

(* ------------------------ textual expressions --------------------------- *)
Space == {9, 13, 32}
IdChar(c) == NameChar(c) /\ c \notin {42, 126, 47, 40, 41, 123, 125, 91, 93, 64, 44, 59}
RECURSIVE SkipSp(_, _), IdEnd(_, _), NumEnd(_, _), QuoteEnd(_, _, _), NumVal(_, _, _)
SkipSp(u, i) == IF At(u, i) \in Space THEN SkipSp(u, i + 1) ELSE i
IdEnd(u, i) == IF IdChar(At(u, i)) THEN IdEnd(u, i + 1) ELSE i
NumEnd(u, i) == IF At(u, i) \in 48..57 THEN NumEnd(u, i + 1) ELSE i
QuoteEnd(u, i, q) == IF At(u, i) \in {0, q} THEN i ELSE QuoteEnd(u, i + 1, q)
NumVal(u, i, j) == IF i = j THEN 0 ELSE NumVal(u, i, j - 1) * 10 + (u[j - 1] - 48)
Sub(u, i, j) == SubSeq(u, i, j - 1)

Fail == [ok |-> FALSE, i |-> 0, st |-> "", es |-> <<>>]
Each(es, F(_)) == [k \in 1..Len(es) |-> F(es[k])]
(* {a,b,..} at i (behind the bracket or comma): the names and the end *)
RECURSIVE Names(_, _, _)
Names(u, i0, ns) ==
  LET i == SkipSp(u, i0)
      j == IdEnd(u, i)
      k == SkipSp(u, j)
  IN IF i = j THEN [ok |-> FALSE, i |-> 0, ns |-> <<>>]
     ELSE IF At(u, k) = 44 THEN Names(u, k + 1, Append(ns, Sub(u, i, j)))
     ELSE IF At(u, k) = 125 THEN [ok |-> TRUE, i |-> k + 1, ns |-> Append(ns, Sub(u, i, j))]
     ELSE [ok |-> FALSE, i |-> 0, ns |-> <<>>]
(* condition or range behind '[' *)
Bracket(e, u, q, i1) ==
  LET i == SkipSp(u, i1) IN
  IF At(u, i) = 64
  THEN LET n == SkipSp(u, i + 1)
           ne == IdEnd(u, n)
           eq == SkipSp(u, ne)
           v == SkipSp(u, eq + 1)
           quoted == At(u, v) \in {34, 39}
           ve == IF quoted THEN QuoteEnd(u, v + 1, At(u, v)) ELSE IdEnd(u, v)
           val == IF quoted THEN Sub(u, v + 1, ve) ELSE Sub(u, v, ve)
           z == SkipSp(u, IF quoted THEN ve + 1 ELSE ve)
       IN IF ne = n \/ At(u, eq) # 61 \/ (~quoted /\ ve = v) \/ (quoted /\ At(u, ve) = 0) \/ At(u, z) # 93 THEN Fail
          ELSE [ok |-> TRUE, i |-> z + 1, st |-> "cond",
                es |-> Each(q.es, LAMBDA x : IfAttr(x, FALSE, CKey(e, Sub(u, n, ne), FALSE), FALSE, CKey(e, val, TRUE)))]
  ELSE LET ne == NumEnd(u, i)
           c == SkipSp(u, ne)
           lo == NumVal(u, i, ne)
           m == SkipSp(u, c + 1)
           me == NumEnd(u, m)
           hi == NumVal(u, m, me)
           z == SkipSp(u, me)
           In(x, y, k) == [ok |-> TRUE, i |-> k + 1, st |-> "cond", es |-> Each(q.es, LAMBDA p : Restrict(p, x, y))]
       IN IF ne = i \/ ne - i > 8 THEN Fail
          ELSE IF At(u, c) = 93 THEN In(lo, lo + 1, c)
          ELSE IF At(u, c) # 44 THEN Fail
          ELSE IF At(u, m) = 93 THEN In(lo, Inf, m)
          ELSE IF me = m \/ me - m > 8 \/ At(u, z) # 93 THEN Fail
          ELSE In(lo, hi + 1, z)
Item(e, u, q) ==
  LET c == At(u, q.i)
      st == q.st
      go(k, s, es) == [ok |-> TRUE, i |-> k, st |-> s, es |-> es]
      named(nm) == IF st = "attr" THEN Each(q.es, LAMBDA x : Attr(x, FALSE, CKey(e, nm, FALSE)))
                   ELSE Each(q.es, LAMBDA x : Tag(x, FALSE, CKey(e, nm, FALSE)))
      then == IF st = "attr" THEN "attrid" ELSE "tagid"
  IN CASE c = 64 -> IF st \notin {"start", "tag", "tagid", "cond"} THEN Fail ELSE go(q.i + 1, "attr", q.es)
       [] c = 47 -> IF st \notin {"start", "tagid", "cond"} THEN Fail
                    ELSE IF At(u, q.i + 1) = 47 THEN go(q.i + 2, "tag", Each(q.es, Follow)) ELSE go(q.i + 1, "tag", q.es)
       [] c = 91 -> IF st \notin {"start", "tag", "tagid", "cond"} THEN Fail ELSE Bracket(e, u, q, q.i + 1)
       [] c = 40 -> LET j == SkipSp(u, q.i + 1)
                    IN IF st \notin {"start", "tag", "tagid", "cond"} \/ At(u, j) # 41 THEN Fail
                       ELSE go(j + 1, "content", Each(q.es, LAMBDA x : Output(x, "content")))
       [] c = 42 -> IF st \notin {"start", "tag", "attr"} THEN Fail
                    ELSE go(q.i + 1, then, IF st = "attr" THEN Each(q.es, LAMBDA x : Attr(x, TRUE, <<>>))
                                                         ELSE Each(q.es, LAMBDA x : Tag(x, TRUE, <<>>)))
       [] c = 123 -> LET l == Names(u, q.i + 1, <<>>)
                     IN IF st \notin {"start", "tag", "attr"} \/ ~l.ok THEN Fail
                        ELSE go(l.i, then, Flat([k \in 1..Len(l.ns) |-> named(l.ns[k])]))
       [] c = 126 -> IF st \notin {"start", "tagid", "cond"} THEN Fail ELSE go(q.i + 1, "content", Each(q.es, CloseTag))
       [] OTHER -> LET j == IdEnd(u, q.i)
                   IN IF st \notin {"start", "tag", "attr"} \/ j = q.i THEN Fail ELSE go(j, then, named(Sub(u, q.i, j)))
RECURSIVE Items(_, _, _)
Items(e, u, q) == IF ~q.ok \/ At(u, q.i) = 0 THEN q
                  ELSE LET r == Item(e, u, q) IN Items(e, u, IF r.ok THEN [r EXCEPT !.i = SkipSp(u, r.i)] ELSE r)
Parse(e, u) ==
  IF \E k \in 1..(Len(u) - 1) : u[k] = 58 /\ u[k + 1] = 58 THEN Fail     \* namespaces are not supported
  ELSE Items(e, u, [ok |-> TRUE, i |-> 1, st |-> "start", es |-> <<NewPE>>])

(* ------------------------------- selection ------------------------------ *)
Opens == {"OpenTag", "HeaderStart"}
Closes == {"CloseTag", "CloseTagIm", "HeaderEnd"}
AttrNames == {"TagAttribName", "HeaderAttribName"}
AttrValues == {"TagAttribValue", "HeaderAttribValue"}

(* s: n number of events, sc the scopes from the root to the current one, tokens [x, k, at, c] *)
Wants(x, k) == IF k <= Len(x.steps) THEN x.steps[k] ELSE [op |-> x.out, any |-> TRUE, key |-> <<>>, f |-> x.d]
Matches(w, tok, n, t, key) ==
  /\ CASE w.op = "tag" -> t \in Opens
       [] w.op = "close" -> t \in Closes
       [] w.op = "attr" -> t \in AttrNames
       [] w.op \in {"this", "value"} -> t \in AttrValues /\ tok.at = n
       [] w.op = "content" -> t = "Content"
       [] OTHER -> FALSE
  /\ w.any \/ w.key = key
Tok(x, k, n) == [x |-> x, k |-> k, at |-> n, c |-> 0]
Begin(xs) == [n |-> 0, sc |-> <<[x \in 1..Len(xs) |-> Tok(x, 1, 0)]>>]

Some(q, F(_)) == Flat([k \in 1..Len(q) |-> F(q[k])])
(* the event (t, key): [s next state, r the types selected, in any order] *)
Event(xs, s, t, key) ==
  LET top == Len(s.sc)
      Hit(l, tok) == LET w == Wants(xs[tok.x], tok.k)
                     IN (l = top \/ w.f) /\ Matches(w, tok, s.n, t, key)
      IsOut(tok) == tok.k > Len(xs[tok.x].steps)
      Last(tok) == tok.k = Len(xs[tok.x].steps) /\ xs[tok.x].out = ""
      In(tok) == xs[tok.x].from <= tok.c /\ tok.c < xs[tok.x].to
      all == Some([l \in 1..top |-> <<l>>], LAMBDA p : Some(s.sc[p[1]], LAMBDA tok : IF Hit(p[1], tok) THEN <<tok>> ELSE <<>>))
      res == Some(all, LAMBDA tok : IF Last(tok) \/ (IsOut(tok) /\ In(tok)) THEN <<xs[tok.x].type>> ELSE <<>>)
      new == Some(all, LAMBDA tok : IF Last(tok) \/ IsOut(tok) THEN <<>> ELSE <<Tok(tok.x, tok.k + 1, s.n + 1)>>)
      sc == [l \in 1..top |-> [j \in 1..Len(s.sc[l]) |->
               IF Hit(l, s.sc[l][j]) /\ IsOut(s.sc[l][j]) THEN [s.sc[l][j] EXCEPT !.c = Min(@ + 1, 1000000)] ELSE s.sc[l][j]]]
      nsc == CASE t = "OpenTag" -> Append(sc, new)
               [] t \in {"CloseTag", "CloseTagIm"} /\ top > 1 -> SubSeq(sc, 1, top - 1)
               [] OTHER -> [sc EXCEPT ![top] = @ \o new]
  IN [s |-> [n |-> s.n + 1, sc |-> nsc], r |-> res]

(* Looking ahead: the types given by an element of type t2 that comes directly behind any     *)
(* element of type t1: what the last element started to wait for, with follows also what is   *)
(* waited for in all scopes from before.                                                      *)
WaitsFor(w, t) == CASE w.op = "tag" -> t \in Opens [] w.op = "close" -> t \in Closes [] w.op = "attr" -> t \in AttrNames
                    [] w.op = "this" -> t \in AttrValues [] OTHER -> FALSE
Emits(x, t) == (x.out = "content" /\ t = "Content") \/ (x.out = "value" /\ t \in AttrValues)
Ahead(xs, s, t1, follows, t2) ==
  Some([l \in 1..Len(s.sc) |-> <<l>>], LAMBDA p : Some(s.sc[p[1]], LAMBDA tok :
    LET x == xs[tok.x]
        new == tok.at = s.n
    IN IF /\ tok.k = Len(x.steps) /\ WaitsFor(x.steps[tok.k], t1) /\ Emits(x, t2)
          /\ new \/ (follows /\ x.steps[tok.k].f)
       THEN <<x.type>> ELSE <<>>))

SameBag(p, q) ==
  /\ Len(p) = Len(q)
  /\ \A t \in {p[k] : k \in 1..Len(p)} : Cardinality({k \in 1..Len(p) : p[k] = t}) = Cardinality({k \in 1..Len(q) : q[k] = t})
=============================================================================
