---------------------------- MODULE CopierModel -----------------------------
(***************************************************************************)
(* Design model of copying: every document composed of at most MaxLen of   *)
(* the pieces below.  Is it well formed, every item is accepted by the     *)
(* printer and the copy has the same content, written down here without    *)
(* the machine of the printer (Norm): the declaration is written anew,     *)
(* adjacent texts are one, an element without content is closed            *)
(* immediately and a line feed follows the root element.  In any case the  *)
(* copy of the part before a break is a prefix of what is copied.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Json, TLC
CONSTANTS MaxLen
VARIABLES doc, n, its, grows
Sc == INSTANCE Scanner
R == INSTANCE PrinterOps
K == INSTANCE Copier

Decl == <<60, 63, 120, 109, 108, 32, 118, 61, 39, 49, 39, 63, 62>>                \* <?xml v='1'?>
Pieces == { <<60, 97>>, <<60, 98>>, <<32, 120, 61, 39>>, <<39>>, <<62>>, <<47, 62>>, <<60, 47, 97, 62>>, <<60, 47, 98, 62>>,     \* <a <b x=' ' > /> </a> </b>
            <<34, 13>>, <<38, 108, 116, 59>>, <<60, 33, 45, 45, 97, 45, 45, 62>>, <<60, 33, 91, 67, 68, 65, 84, 65, 91, 60, 93, 93, 62>>, <<8364>> }     \* " CR  &lt;  <!--a-->  <![CDATA[<]]>  euro

RECURSIVE Items(_, _, _, _)
Items(d, st, p, acc) ==
  IF Sc!Final(st) THEN acc
  ELSE LET r == Sc!Step(st, p, Sc!At(d, p), <<>>)
       IN Items(d, r.s, p + r.use, IF r.em = <<>> THEN acc ELSE Append(acc, <<r.em[1].t, IF r.em[1].mk THEN <<>> ELSE r.em[1].c>>))
ItemsOf(d) == Items(d, Sc!Init0, 0, <<>>)

(* copy: [ok (all accepted), w (characters written)] *)
RECURSIVE Copy(_, _, _, _)
Copy(l0, k, pr, acc) ==
  IF k > Len(l0) THEN acc
  ELSE LET c == K!CallOf(l0[k][1], l0[k][2])
       IN IF c = <<>> THEN Copy(l0, k + 1, pr, acc)
          ELSE LET x == R!Call(pr, c[1], c[2]) IN Copy(l0, k + 1, x.s, [ok |-> acc.ok /\ x.ok, w |-> acc.w \o x.w])
CopyOf(l0, sub) == Copy(l0, 1, R!NewPrinter(sub), [ok |-> TRUE, w |-> <<>>])

(* well formed: one root element, properly nested, names of name characters, text only inside of it, no error *)
Named(t) == K!IsName("UTF8", t)
RECURSIVE Nested(_, _, _, _)
Nested(l0, k, stk, root) ==
  IF k > Len(l0) THEN stk = <<>> /\ root
  ELSE LET t == l0[k][1] IN
       CASE t = "TagAttribName" /\ ~Named(l0[k][2]) -> FALSE
         [] t = "OpenTag" -> Named(l0[k][2]) /\ (stk # <<>> \/ ~root) /\ Nested(l0, k + 1, Append(stk, l0[k][2]), TRUE)
         [] t = "CloseTag" -> stk # <<>> /\ stk[Len(stk)] = l0[k][2] /\ Nested(l0, k + 1, SubSeq(stk, 1, Len(stk) - 1), root)
         [] t = "CloseTagIm" -> Nested(l0, k + 1, SubSeq(stk, 1, Len(stk) - 1), root)
         [] t = "Content" -> stk # <<>> /\ Nested(l0, k + 1, stk, root)
         [] t = "ErrorOccurred" -> FALSE
         [] OTHER -> Nested(l0, k + 1, stk, root)

(* the content of a document *)
Body(l0) == SelectSeq(l0, LAMBDA x : x[1] \in {"OpenTag", "TagAttribName", "TagAttribValue", "Content", "CloseTag", "CloseTagIm"} /\ ~(x[1] = "Content" /\ x[2] = <<>>))
RECURSIVE Norm(_, _)
Norm(l0, acc) ==
  IF l0 = <<>> THEN acc
  ELSE LET x == Head(l0)
           last == IF acc = <<>> THEN "" ELSE acc[Len(acc)][1]
       IN Norm(Tail(l0),
               IF x[1] = "Content" /\ last = "Content" THEN [acc EXCEPT ![Len(acc)] = <<"Content", @[2] \o x[2]>>]
               ELSE IF x[1] = "CloseTag" /\ last \in {"OpenTag", "TagAttribValue"} THEN Append(acc, <<"CloseTagIm", <<>>>>)
               ELSE Append(acc, x))

(* the scanner has broken off inside of the document: what follows does not matter anymore *)
RECURSIVE Broken(_, _, _)
Broken(d, st, p) == IF Sc!Final(st) THEN p < Len(d)
                    ELSE LET r == Sc!Step(st, p, Sc!At(d, p), <<>>) IN Broken(d, r.s, p + r.use)

IsSub(d) == d = <<>> \/ d[2] # 63
Cut(l0) == LET l == SelectSeq(l0, LAMBDA x : x[1] \notin {"ErrorOccurred", "Exit"})
            IN IF l = <<>> THEN l ELSE SubSeq(l, 1, Len(l) - 1)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Init == n = 0 /\ doc \in {<<>>, Decl} /\ its = ItemsOf(doc) /\ grows = TRUE
Next == /\ n < MaxLen /\ n' = n + 1
        /\ ~Broken(doc, Sc!Init0, 0)
        /\ \E p \in Pieces : doc' = doc \o p
        /\ its' = ItemsOf(doc')
        /\ grows' = IsPrefixOf(CopyOf(Cut(its), IsSub(doc)).w, CopyOf(its', IsSub(doc')).w)
Spec == Init /\ [][Next]_<<doc, n, its, grows>>

Preserved ==
  Nested(its, 1, <<>>, FALSE) =>
    LET c == CopyOf(its, IsSub(doc))
        again == ItemsOf(c.w)
    IN /\ c.ok
       /\ again[Len(again)][1] = "Exit"
       /\ Norm(Body(again), <<>>) = Append(Norm(Body(its), <<>>), <<"Content", <<10>>>>)
(* what was copied before stays when the document goes on: all but the last item, which may be cut *)
Grows == grows
(* the well formed documents, copied by the code *)
Emit == Nested(its, 1, <<>>, FALSE) => PrintT("DOC" \o ToJson(doc))
=============================================================================
