------------------------------- MODULE Copier --------------------------------
(***************************************************************************)
(* A document copied: every item the scanner returns is printed by the     *)
(* corresponding call of the printer.  What is printed by every call is    *)
(* determined by the two machines, and scanning what was printed gives the *)
(* items of the document again, as far as the printer took them.           *)
(*                                                                         *)
(* p: doc, ents  as in Pipeline                                            *)
(*    app  encoding of the scanner output and the printer input            *)
(*    io   encoding of the printer output,  sub  print a sub document      *)
(* operations: next  the next item and what was printed for it: <<type,    *)
(*                   accepted (2: no call), bytes>>                        *)
(*             scan  the items of what was printed so far, in UTF-8        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
S == INSTANCE Scanner
R == INSTANCE PrinterOps
L == INSTANCE Pipeline

NewCopier(p) == [s |-> S!Init0, pos |-> 0, fin |-> FALSE, pr |-> R!NewPrinter(p.sub), its |-> <<>>, plain |-> TRUE]

\* the call for an item: <<operation, arguments>>
CallOf(t, text) ==
  CASE t = "HeaderEnd" -> <<"hdr", <<R!Null, R!Null>>>>
    [] t = "OpenTag" -> <<"opn", <<text>>>>
    [] t \in {"CloseTag", "CloseTagIm"} -> <<"cls", <<>>>>
    [] t = "TagAttribName" -> <<"atr", <<text>>>>
    [] t \in {"TagAttribValue", "Content"} -> <<"val", <<text>>>>
    [] OTHER -> <<>>

\* a text is printed up to its first null character
RECURSIVE UpToNull(_, _)
UpToNull(t, k) == IF k > Len(t) \/ t[k] = 0 THEN SubSeq(t, 1, k - 1) ELSE UpToNull(t, k + 1)

\* What is printed reads back: names with characters of names only that exist in the output, texts with elements around them.
IsName(io, t) == t # <<>> /\ \A k \in 1..Len(t) : S!Cls(t[k]) \in S!TagSet /\ R!Rep(io, t[k])
Readable(t) == \A k \in 1..Len(t) : t[k] > 0 /\ t[k] < 2147483647
NameFits(p, t, text) == t \in {"OpenTag", "TagAttribName"} => IsName(p.io, text)
First(p, s, t) == t = "Content" /\ \A k \in 1..Len(s.its) : s.its[k][1] # "OpenTag"        \* text before the first element

RECURSIVE Items(_)
Items(b) == IF b = <<>> THEN <<>>
            ELSE LET n == b[2] * 16777216 + b[3] * 65536 + b[4] * 256 + b[5]
                 IN << <<L!Types[b[1] + 1], SubSeq(b, 6, 5 + n)>> >> \o Items(SubSeq(b, 6 + n, Len(b)))
NoText == {"HeaderEnd", "DocAttribEnd", "CloseTagIm", "Exit", "ErrorOccurred"}
SameItem(r, x) == r[1] = x[1] /\ (r[1] \in NoText \/ r[2] = R!EncAll("UTF8", x[2]))

DoCopier(p, s, op, a, r) ==
  CASE op = "next" /\ s.fin -> [s |-> s, ok |-> r = <<"end", <<>>>>]
    [] op = "next" ->
       LET q == L!NextItem(p.doc, L!Entities(p), s.s, s.pos)
           t == q.it.t
           text == R!SeenAll(p.app, q.it.c)
           arg == UpToNull(text, 1)
           n == [s EXCEPT !.s = q.s, !.pos = q.pos, !.fin = t \in {"ErrorOccurred", "Exit"}]
           c == CallOf(t, arg)
       IN IF c = <<>> THEN [s |-> n, ok |-> r = <<"", <<L!TypeNo(t), 2>>>>]
          ELSE LET x == R!Call(s.pr, c[1], c[2])
               IN [s |-> [n EXCEPT !.pr = x.s,
                                   !.its = IF x.ok THEN R!AddItems(s.pr, @, c[1], c[2]) ELSE @,
                                   !.plain = @ /\ NameFits(p, t, arg) /\ arg = text /\ Readable(text) /\ ~(x.ok /\ First(p, s, t))],
                   ok |-> r = <<"", <<L!TypeNo(t), IF x.ok THEN 1 ELSE 0>> \o R!PrintAll(p.io, x.w)>>]
    [] op = "scan" ->
       [s |-> s,
        ok |-> IF ~s.plain \/ s.pr.stk # <<>> \/ s.pr.st # "content" THEN r[1] = ""
               ELSE LET its == Items(r[2])
                        all == Append(s.its, <<"Exit", <<>>>>)
                    IN Len(its) = Len(all) /\ \A k \in 1..Len(all) : SameItem(its[k], all[k])]
=============================================================================
