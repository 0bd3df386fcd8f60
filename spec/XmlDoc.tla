------------------------------- MODULE XmlDoc -------------------------------
(***************************************************************************)
(* What a document contains, said without a scanner: a writer that builds  *)
(* well formed documents piece by piece and knows for every piece which    *)
(* items it stands for (type, decoded text, position of the text).  The    *)
(* invariants say that the machine of Scanner, run on the text, yields     *)
(* exactly these items (S01, S05, S06, S08) and that they are nested       *)
(* (S10), and that each proper prefix that ends inside of markup is        *)
(* reported as an error (S09).                                             *)
(*                                                                         *)
(* A piece of text is a pair <<raw, decoded>>.                             *)
(***************************************************************************)
EXTENDS Scanner, Json
CONSTANTS MaxOps, MaxDepth, Rich

VARIABLES text, exp, stack, ph, ops, glue
vars == <<text, exp, stack, ph, ops, glue>>
(* ph: "start" nothing yet, "prolog", "tag" inside an open tag, "cont"     *)
(* content, "done" root closed.  glue: the last piece was text (two texts  *)
(* in a row are one item) or something white space is dropped behind       *)

S(str) == str
Names == IF Rich THEN {<<97>>, <<98,45,49>>, <<233,95>>, <<97,58,98>>} ELSE {<<97>>, <<98>>}
Plain == {<< <<120>>, <<120>> >>}
Pieces == Plain \cup
  { << <<38,108,116,59>>, <<60>> >>,                        \* &lt;
    << <<38,35,54,53,59>>, <<65>> >>,                       \* &#65;
    << <<38,35,120,50,48,65,67,59>>, <<8364>> >>,           \* &#x20AC;
    << <<13,10>>, <<10>> >>, << <<13>>, <<10>> >>,
    << <<38,35,49,51,59>>, <<13>> >>,                       \* &#13;
    << <<38>>, <<38>> >>, << <<93,93>>, <<93,93>> >>, << <<62>>, <<62>> >>,
    << <<233>>, <<233>> >> }
Texts == IF ~Rich THEN {<< <<120>>, <<120>> >>, << <<38,108,116,59>>, <<60>> >>, << <<13,10>>, <<10>> >>}
         ELSE Pieces \cup {<< a[1] \o b[1], a[2] \o b[2] >> :
                a \in {<< <<120>>, <<120>> >>, << <<13,10>>, <<10>> >>, << <<38,97,109,112,59>>, <<38>> >>},
                b \in Plain \cup {<< <<38,35,49,51,59>>, <<13>> >>, << <<38,103,116,59>>, <<62>> >>, << <<10>>, <<10>> >>}}
Comments == IF Rich THEN {<<>>, <<60,97,62>>, <<45,97>>, <<38>>, <<233,13>>} ELSE {<<>>, <<60,97,62>>}
CDatas == IF Rich THEN {<<>>, <<93>>, <<93,93>>, <<60,47,97,62>>, <<93,97,93>>, <<38,97>>} ELSE {<<93>>}
Blanks == IF Rich THEN {<<32>>, <<13,10>>, <<9,10>>} ELSE {<<32>>, <<13>>}

At0 == Len(text)
Item0(t, c, at, n) == [t |-> t, c |-> c, tp |-> at, p |-> at + n + 1]
Ev(t) == [t |-> t, c |-> <<>>, tp |-> -1, p |-> -1]

Tick == ops < MaxOps /\ ops' = ops + 1
Add(t, e) == text' = text \o t /\ exp' = exp \o e

Init == text = <<>> /\ exp = <<>> /\ stack = <<>> /\ ph = "start" /\ ops = 0 /\ glue = ""

Attrs == {<< >>} \cup {<< n, 34, v >> : n \in {<<97>>}, v \in Plain \cup {<< <<39,13,10>>, <<39,10>> >>, << <<38,113,117,111,116,59>>, <<34>> >>}}
         \cup {<< n, 39, v >> : n \in {<<98>>}, v \in {<< <<34,62,47>>, <<34,62,47>> >>, << <<>>, <<>> >>}}
(* attribute written at offset at: text and items *)
AttrText(a) == <<32>> \o a[1] \o <<61, a[2]>> \o a[3][1] \o <<a[2]>>
AttrItems(a, at, pre) ==
  << Item0(pre \o "AttribName", a[1], at + 1, Len(a[1])),
     Item0(pre \o "AttribValue", a[3][2], at + 3 + Len(a[1]), Len(a[3][1])) >>

Header(a) ==
  /\ ph = "start" /\ Tick
  /\ LET t == <<60,63,120,109,108>> IN
     IF a = << >>
     THEN Add(t \o <<63,62>>, << Ev("HeaderStart"), Ev("HeaderEnd") >>)
     ELSE Add(t \o AttrText(a) \o <<63,62>>,
              << Ev("HeaderStart") >> \o AttrItems(a, At0 + 5, "Header") \o << Ev("HeaderEnd") >>)
  /\ ph' = "prolog" /\ glue' = "drop" /\ UNCHANGED stack

DocType(w) ==
  /\ ph \in {"start", "prolog"} /\ Tick
  /\ LET d == <<68,79,67>> IN
     CASE w = 0 -> Add(<<60,33>> \o d \o <<62>>, << Item0("DocAttribValue", d, At0 + 2, 3), Ev("DocAttribEnd") >>)
       [] w = 1 -> Add(<<60,33>> \o d \o <<32,34,13,34,62>>,
                       << Item0("DocAttribValue", d, At0 + 2, 3), Item0("DocAttribValue", <<10>>, At0 + 7, 1), Ev("DocAttribEnd") >>)
       [] w = 2 -> Add(<<60,33>> \o d \o <<32,120,32,91,60,33,62,91,93,62>>,
                       << Item0("DocAttribValue", d, At0 + 2, 3), Item0("DocAttribValue", <<120>>, At0 + 6, 1), Ev("DocAttribEnd") >>)
  /\ glue' = "drop" /\ ph' = "prolog"
  /\ UNCHANGED stack

Blank1(b) ==
  /\ ph \in {"start", "prolog", "done"} /\ Tick /\ glue = "drop"
  /\ Add(b, <<>>) /\ UNCHANGED <<stack, ph, glue>>

Comment(b) ==
  /\ ph \in {"start", "prolog", "cont"} /\ Tick
  /\ Add(<<60,33,45,45>> \o b \o <<45,45,62>>, <<>>)
  /\ ph' = (IF ph = "start" THEN "prolog" ELSE ph)
  /\ glue' = "drop" /\ UNCHANGED stack
DropBlank(b) ==     \* white space behind a comment
  /\ ph = "cont" /\ glue = "drop" /\ Tick /\ Add(b, <<>>) /\ UNCHANGED <<stack, ph, glue>>

PI(b) ==
  /\ ph \in {"prolog", "cont"} /\ Tick
  /\ Add(<<60,63,112>> \o b \o <<63,62>>, <<>>) /\ UNCHANGED <<stack, ph>>
  /\ glue' = "keep"
CData(b) ==
  /\ ph = "cont" /\ Tick
  /\ Add(<<60,33,91,67,68,65,84,65,91>> \o b \o <<93,93,62>>, <<>>) /\ UNCHANGED <<stack, ph>>
  /\ glue' = "keep"

Open(n) ==
  /\ ph \in {"start", "prolog", "cont"} /\ Tick /\ Len(stack) < MaxDepth
  /\ Add(<<60>> \o n, << Item0("OpenTag", n, At0 + 1, Len(n)) >>)
  /\ stack' = Append(stack, n) /\ ph' = "tag" /\ glue' = ""
Attr(a) ==
  /\ ph = "tag" /\ Tick
  /\ Add(AttrText(a), AttrItems(a, At0, "Tag"))
  /\ UNCHANGED <<stack, ph, glue>>
TagEnd(sp) ==
  /\ ph = "tag" /\ ops' = ops
  /\ Add(sp \o <<62>>, <<>>) /\ ph' = "cont" /\ glue' = "keep" /\ UNCHANGED stack
TagEndIm(sp) ==
  /\ ph = "tag" /\ ops' = ops
  /\ Add(<<47>> \o sp \o <<62>>, << Ev("CloseTagIm") >>)
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ ph' = (IF Len(stack) = 1 THEN "done" ELSE "cont") /\ glue' = "keep"
Close(sp) ==
  /\ ph = "cont" /\ ops' = ops
  /\ LET n == stack[Len(stack)] IN
     Add(<<60,47>> \o n \o sp \o <<62>>, << Item0("CloseTag", n, At0 + 2, Len(n)) >>)
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ ph' = (IF Len(stack) = 1 THEN "done" ELSE "cont") /\ glue' = "keep"
Text(x) ==
  /\ ph = "cont" /\ Tick /\ glue # "text"
  /\ glue = "drop" => Cls(x[1][1]) \notin Blank
  /\ Add(x[1], << Item0("Content", x[2], At0, Len(x[1])) >>)
  /\ glue' = "text" /\ UNCHANGED <<stack, ph>>

Next == \/ \E a \in Attrs : Header(a)
        \/ \E w \in 0..2 : DocType(w)
        \/ \E b \in Blanks : Blank1(b) \/ DropBlank(b)
        \/ \E b \in Comments : Comment(b)
        \/ \E b \in {<<>>, <<63>>, <<32,62>>} : PI(b)
        \/ \E b \in CDatas : CData(b)
        \/ \E n \in Names : Open(n)
        \/ \E a \in Attrs \ {<< >>} : Attr(a)
        \/ \E sp \in {<<>>, <<32>>} : TagEnd(sp) \/ TagEndIm(sp) \/ Close(sp)
        \/ \E x \in Texts : Text(x)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Complete == ph = "done"
Clamp(p) == IF p > Len(text) THEN Len(text) ELSE p
Agree(it, e) ==
  /\ it.t = e.t
  /\ (e.t # "HeaderStart" => it.c = e.c)
  /\ (e.tp >= 0 => it.tp = e.tp /\ Clamp(it.p) = Clamp(e.p))
ItemsExact ==
  Complete =>
    LET r == Run(text, <<>>) IN
    /\ Len(r) = Len(exp) + 1
    /\ \A k \in 1..Len(exp) : Agree(r[k], exp[k])
    /\ r[Len(r)].t = "Exit"
(* a document cut off inside of a tag is an error, the items before it stay *)
Cut ==
  ph = "tag" =>
    LET r == Run(text, <<>>) IN
    /\ r[Len(r)].t = "ErrorOccurred"
    /\ \A k \in 1..(Len(r) - 1) : k <= Len(exp) /\ r[k].t = exp[k].t
RECURSIVE ProtoRun(_, _)
ProtoRun(m, q) == IF q = <<>> THEN m ELSE ProtoRun(ProtoNext(m, Head(q).t), Tail(q))
Protocol == ProtoRun(ProtoInit, exp) # "bad"
Emit == Complete => PrintT("DOC" \o ToJson(text))
=============================================================================
