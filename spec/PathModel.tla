------------------------------ MODULE PathModel ------------------------------
(***************************************************************************)
(* The selection machine of Path.tla is compared, on every document up to  *)
(* a bound and every expression of a menu, with the meaning of expressions *)
(* stated without any state: the number of chains of events that match the *)
(* steps one after the other, each below (or for follow steps anywhere     *)
(* below) the one before it.  From this follow independence of expressions *)
(* from each other and from preceding siblings, which are checked too.     *)
(***************************************************************************)
EXTENDS Path, TLC, Json
CONSTANTS MaxEvents, MaxDepth, Menu
VARIABLES x, doc, s, hist
vars == <<x, doc, s, hist>>

A == <<97>>
B == <<98>>
V == <<49>>
W == <<50>>
\* expressions as calls of operators, all with type <<0,0,0,1>> (the first) and so on
D == <<<<100>>>>
TA == <<<<116>>, A>>
TB == <<<<116>>, B>>
TW == <<<<84>>>>
CL == <<<<99>>>>
AA == <<<<97>>, A>>
AW == <<<<65>>>>
IA == <<<<105>>, A, V>>
IW == <<<<73>>, V>>
JA == <<<<106>>, A>>
CO == <<<<111>>>>
IX(k) == <<<<120>>, <<k>>>>
TO(k) == <<<<117>>, <<k>>>>
FR(k) == <<<<102>>, <<k>>>>
RG(k, l) == <<<<114>>, <<k>>, <<l>>>>

Single == {TA, TA \o TB, TA \o TW \o CO, D \o TA, D \o TA \o D \o TB, D \o TW \o D \o TW, TA \o CL, D \o TB \o CL, D \o TA \o TA \o CL,
           TA \o AA, D \o AA, D \o TW \o AW, D \o TA \o AW \o D, TA \o IA, D \o TA \o IA \o TB, D \o IW \o CO, D \o TB \o JA \o CO, TA \o IA \o AA,
           TA \o IA \o D \o TB \o CO, TA \o CO, D \o CO, D \o TW \o CO, TA \o D \o CO, D \o TA \o D \o CO,
           TA \o IX(1) \o CO, D \o TW \o IX(0) \o CO, TA \o FR(1) \o D \o CO, D \o TA \o TO(1) \o CO, D \o TA \o RG(1, 2) \o D \o CO,
           D \o TA \o IX(1) \o AW, D \o TB \o IX(0) \o AA, TA \o CL \o TB, D \o TA \o CL \o D \o TB}
Pairs == {<<p, q>> : p \in {D \o TA \o TB, D \o TW \o D \o CO, TA \o TB \o AA}, q \in {TA \o TB, TA \o TB \o CO, D \o TA \o IA \o CO, D \o TA \o D \o AA}}
Sets == CASE Menu = 1 -> {<<p>> : p \in Single} [] Menu = 2 -> Pairs [] OTHER -> {<<p>> : p \in Single} \cup Pairs
Exprs(m) == [k \in 1..Len(m) |-> Calls("UTF8", m[k] \o <<<<61>>, <<0, 0, 0, k>>>>, 1, NewPE, <<>>)[1]]

(* documents: sequences of events as a scanner reports them *)
Depth(d) == Cardinality({k \in 1..Len(d) : d[k][1] = "OpenTag"}) - Cardinality({k \in 1..Len(d) : d[k][1] \in {"CloseTag", "CloseTagIm"}})
LastIs(d, T) == d # <<>> /\ d[Len(d)][1] \in T
CanAttr(d) == LastIs(d, {"OpenTag", "TagAttribValue"})
NextEvents(d) ==
  IF LastIs(d, {"TagAttribName"}) THEN {<<"TagAttribValue", V>>, <<"TagAttribValue", W>>}
  ELSE IF LastIs(d, {"HeaderStart", "HeaderAttribValue"}) THEN {<<"HeaderAttribName", A>>, <<"HeaderEnd", <<>>>>}
  ELSE IF LastIs(d, {"HeaderAttribName"}) THEN {<<"HeaderAttribValue", V>>}
  ELSE (IF Depth(d) < MaxDepth THEN {<<"OpenTag", A>>, <<"OpenTag", B>>} ELSE {})
       \cup (IF Depth(d) > 0 THEN {<<"CloseTag", A>>, <<"Content", <<>>>>} ELSE {})
       \cup (IF d = <<>> THEN {<<"HeaderStart", A>>} ELSE {})
       \cup (IF CanAttr(d) THEN {<<"TagAttribName", A>>, <<"TagAttribName", B>>, <<"CloseTagIm", <<>>>>} ELSE {})

Init == /\ x \in Sets
        /\ doc = <<>> /\ hist = <<>>
        /\ s = Begin(Exprs(x))
Next == /\ Len(doc) < MaxEvents
        /\ \E e \in NextEvents(doc) :
             LET v == Event(Exprs(x), s, e[1], e[2])
             IN doc' = Append(doc, e) /\ s' = v.s /\ hist' = Append(hist, v.r) /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

(* ------------------------- meaning without state ------------------------ *)
\* scopes are named by the open tag that opens them, 0 is the root
RECURSIVE ScopeAt(_, _)
ScopeAt(d, i) ==  \* the open scopes, innermost last, before event i
  IF i = 1 THEN <<0>>
  ELSE LET b == ScopeAt(d, i - 1)
       IN CASE d[i - 1][1] = "OpenTag" -> Append(b, i - 1)
            [] d[i - 1][1] \in {"CloseTag", "CloseTagIm"} /\ Len(b) > 1 -> SubSeq(b, 1, Len(b) - 1)
            [] OTHER -> b
Inner(q) == q[Len(q)]
\* the scope in which what event j found is looked for further, -1 if it has ended
Below(d, j) == IF d[j][1] = "OpenTag" THEN j
               ELSE IF d[j][1] \in {"CloseTag", "CloseTagIm"} /\ Len(ScopeAt(d, j)) > 1 THEN -1 ELSE Inner(ScopeAt(d, j))
InScope(sc, w, q) == IF w.f THEN \E k \in 1..Len(q) : q[k] = sc ELSE Inner(q) = sc
Fits(d, w, j, i) ==   \* event i is what w looks for after event j (0: from the root)
  /\ InScope(IF j = 0 THEN 0 ELSE Below(d, j), w, ScopeAt(d, i))
  /\ LET T == d[i][1]
     IN CASE w.op = "tag" -> T \in Opens
          [] w.op = "close" -> T \in Closes
          [] w.op = "attr" -> T \in AttrNames
          [] w.op \in {"this", "value"} -> T \in AttrValues /\ i = j + 1
          [] w.op = "content" -> T = "Content"
  /\ w.any \/ w.key = d[i][2]
Sum(n, F(_)) == LET f[k \in -1..n] == IF k < 0 THEN 0 ELSE F(k) + f[k - 1] IN f[n]
RECURSIVE Chains(_, _, _, _)
Chains(d, e, k, i) ==    \* number of ways to match steps 1..k of e, the last with event i
  IF k = 0 THEN (IF i = 0 THEN 1 ELSE 0)
  ELSE IF i = 0 THEN 0
  ELSE Sum(i - 1, LAMBDA j : IF Fits(d, e.steps[k], j, i) THEN Chains(d, e, k - 1, j) ELSE 0)
Selected(d, e, i) ==
  LET n == Len(e.steps) IN
  IF e.out = "" THEN Chains(d, e, n, i)
  ELSE LET w == Wants(e, n + 1)
       IN Sum(i - 1, LAMBDA j : IF ~Fits(d, w, j, i) THEN 0
                                ELSE LET idx == Cardinality({m \in (j + 1)..(i - 1) : Fits(d, w, j, m)})
                                     IN IF e.from <= idx /\ idx < e.to THEN Chains(d, e, n, j) ELSE 0)
CountOf(r, ty) == Cardinality({k \in 1..Len(r) : r[k] = ty})
(* the machine selects what the expressions mean: nothing more and nothing less *)
Meaning == doc # <<>> =>
  LET i == Len(doc)
      xs == Exprs(x)
  IN \A k \in 1..Len(xs) : CountOf(hist[i], xs[k].type) = Selected(doc, xs[k], i)
(* removing a completed sibling element does not change what is selected afterwards *)
Element(d, a, b) == a < b /\ d[a][1] = "OpenTag" /\ d[b][1] \in {"CloseTag", "CloseTagIm"} /\ ScopeAt(d, a) = ScopeAt(d, b + 1)
                    /\ \A k \in (a + 1)..b : Len(ScopeAt(d, k)) > Len(ScopeAt(d, a))
Pure(e) == e.from = 0 /\ e.to = Inf      \* (an index counts also matches in siblings)
History == doc # <<>> =>
  LET i == Len(doc)
      xs == Exprs(x)
  IN \A a, b \in 1..(i - 1) : Element(doc, a, b) =>
       LET d2 == SubSeq(doc, 1, a - 1) \o SubSeq(doc, b + 1, i)
       IN \A k \in 1..Len(xs) : Pure(xs[k]) => CountOf(hist[i], xs[k].type) = Selected(d2, xs[k], Len(d2))
(* looking ahead tells what some continuation will give: an open tag and a content, an attribute and its value *)
Foresight ==
  LET xs == Exprs(x)
      Here(e) == Pure(e) /\ ~e.d /\ e.out # ""
      After(t1, key, t2) == LET v == Event(xs, s, t1, key) IN Event(xs, v.s, t2, V).r
      Told(t1, f, t2, k) == CountOf(Ahead(xs, s, t1, f, t2), xs[k].type) > 0
  IN \A k \in 1..Len(xs) : Here(xs[k]) =>
       /\ (doc = <<>> \/ LastIs(doc, {"OpenTag"})) =>
            (Told("OpenTag", TRUE, "Content", k) <=> \E key \in {A, B} : CountOf(After("OpenTag", key, "Content"), xs[k].type) > 0)
       /\ LastIs(doc, {"OpenTag"}) =>
            (Told("TagAttribName", TRUE, "TagAttribValue", k) <=> \E key \in {A, B} : CountOf(After("TagAttribName", key, "TagAttribValue"), xs[k].type) > 0)
=============================================================================
