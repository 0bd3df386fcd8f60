------------------------------ MODULE Printer -------------------------------
(***************************************************************************)
(* The XML printer: which calls are accepted in which context, the markup  *)
(* every call writes, and the items a document printed consists of.        *)
(* All texts are sequences of characters here (PrinterTrace decodes and    *)
(* encodes them).  Calls: <<name, arguments>>, an argument is a text, or   *)
(* <<-1>> for a null pointer.                                              *)
(*   hdr enc standalone | doc root public system | opn name | atr name |   *)
(*   val text | cls | ext (leave the tag context) | rst sub | sta          *)
(* and the functions that print texts whatever the context is:             *)
(*   raw text | pav text (attribute value) | pct text (content) |          *)
(*   pch character | pst text (null terminated) | sub text (own table)     *)
(* state: st   "init" "content" "attribute" "element"                      *)
(*        stk  names of the open elements                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

NewPrinter(sub) == [st |-> IF sub THEN "content" ELSE "init", stk |-> <<>>]
Null == <<-1>>

(* ------------------------------ texts ---------------------------------- *)
XmlTag == <<63,120,109,108>>
Xml1   == <<60,63,120,109,108,32,118,101,114,115,105,111,110,61,34,49,46,48,34,32,101,110,99,111,100,105,110,103,61,34>>  \* <?xml version="1.0" encoding="
Standalone == <<34,32,115,116,97,110,100,97,108,111,110,101,61,34>>    \* " standalone="
Xml2   == <<34,63,62,10>>                                              \* "?>\n
Utf8Name == <<85,84,70,45,56>>
Doctype == <<60,33,68,79,67,84,89,80,69,32>>                           \* <!DOCTYPE
Public == <<32,80,85,66,76,73,67,32,34>>                               \*  PUBLIC "
System == <<32,83,89,83,84,69,77,32,34>>                               \*  SYSTEM "
EscRef(c) ==        \* the reference a character is replaced by, <<>> if none
  CASE c = 60 -> <<38,108,116,59>> [] c = 62 -> <<38,103,116,59>> [] c = 38 -> <<38,97,109,112,59>>
    [] c = 39 -> <<38,97,112,111,115,59>> [] c = 34 -> <<38,113,117,111,116,59>>
    [] c = 8 -> <<38,35,56,59>> [] c = 9 -> <<38,35,57,59>> [] c = 10 -> <<38,35,49,48,59>> [] c = 13 -> <<38,35,49,51,59>>
InAttr == {60, 62, 38, 39, 34, 8, 9, 10, 13}
InContent == {60, 62, 38, 8, 13}
RECURSIVE EscAll(_, _, _)
EscAll(t, k, set) == IF k > Len(t) THEN <<>> ELSE (IF t[k] \in set THEN EscRef(t[k]) ELSE <<t[k]>>) \o EscAll(t, k + 1, set)
Esc(t, set) == IF \A k \in 1..Len(t) : t[k] \notin set THEN t ELSE EscAll(t, 1, set)

(* a table of substitutions of the application's own *)
OwnRef(c) == CASE c = 97 -> <<60,120,62>> [] c = 98 -> <<>> [] c = 10 -> <<45>> [] c = 127 -> <<38,38>> [] OTHER -> <<c>>
RECURSIVE Own(_)
Own(t) == IF t = <<>> THEN <<>> ELSE OwnRef(t[1]) \o Own(Tail(t))

(* one call: next state, accepted, characters written *)
Call(s, op, a) ==
  LET No == [s |-> s, ok |-> FALSE, w |-> <<>>]
      Yes(t, w) == [s |-> t, ok |-> TRUE, w |-> w]
      inTag == s.st = "element"
      leave == IF inTag THEN <<62>> ELSE <<>>
  IN CASE op = "hdr" -> IF s.st # "init" THEN No
                        ELSE Yes([s EXCEPT !.st = "content"],
                                 Xml1 \o (IF a[1] = Null THEN Utf8Name ELSE a[1]) \o (IF a[2] = Null THEN <<>> ELSE Standalone \o a[2]) \o Xml2)
       [] op = "doc" -> IF s.st \in {"attribute", "element"} \/ (a[1] # Null /\ (s.st = "init" \/ (a[2] # Null /\ a[3] = Null))) THEN No
                        ELSE IF a[1] = Null THEN Yes(s, <<>>)
                        ELSE Yes(s, Doctype \o a[1] \o (CASE a[2] # Null -> Public \o a[2] \o <<34, 32, 34>> \o a[3] \o <<34>>
                                                          [] a[3] # Null -> System \o a[3] \o <<34>>
                                                          [] OTHER -> <<>>) \o <<62>>)
       [] op = "ext" -> IF s.st \in {"init", "attribute"} THEN No ELSE Yes([s EXCEPT !.st = "content"], leave)
       [] op = "opn" -> IF s.st \in {"init", "attribute"} THEN No
                        ELSE Yes([st |-> "element", stk |-> Append(s.stk, a[1])], leave \o <<60>> \o a[1])
       [] op = "atr" -> IF ~inTag THEN No ELSE Yes([s EXCEPT !.st = "attribute"], <<32>> \o a[1] \o <<61>>)
       [] op = "val" -> CASE s.st = "attribute" -> Yes([s EXCEPT !.st = "element"], <<34>> \o Esc(a[1], InAttr) \o <<34>>)
                          [] s.st = "init" -> No
                          [] OTHER -> Yes([s EXCEPT !.st = "content"], leave \o Esc(a[1], InContent))
       [] op = "cls" -> IF s.st \in {"init", "attribute"} \/ s.stk = <<>> \/ (s.stk # <<>> /\ s.stk[Len(s.stk)] = <<>>) THEN No
                        ELSE LET up == SubSeq(s.stk, 1, Len(s.stk) - 1)
                                 nl == IF up = <<>> THEN <<10>> ELSE <<>>
                             IN Yes([st |-> "content", stk |-> up], (IF inTag THEN <<47, 62>> ELSE <<60, 47>> \o s.stk[Len(s.stk)] \o <<62>>) \o nl)
       [] op = "rst" -> Yes(NewPrinter(a[1] # <<>>), <<>>)
       [] op \in {"raw", "pch", "pst"} -> Yes(s, a[1])
       [] op = "pav" -> Yes(s, <<34>> \o Esc(a[1], InAttr) \o <<34>>)
       [] op = "pct" -> Yes(s, Esc(a[1], InContent))
       [] op = "sub" -> Yes(s, Own(a[1]))

StateNo(s) == CASE s.st = "init" -> 0 [] s.st = "content" -> 1 [] s.st = "attribute" -> 2 [] s.st = "element" -> 3

(***************************************************************************)
(* The items of the document written by accepted calls, in order:          *)
(* subsequent contents are one item, empty ones none, a close of an        *)
(* element without content is an immediate close tag, the line feed behind *)
(* the root element belongs to the content behind it.                      *)
(***************************************************************************)
ItHdr(a) == << <<"HeaderStart", XmlTag>>, <<"HeaderAttribName", <<118,101,114,115,105,111,110>>>>, <<"HeaderAttribValue", <<49,46,48>>>>,
               <<"HeaderAttribName", <<101,110,99,111,100,105,110,103>>>>, <<"HeaderAttribValue", IF a[1] = Null THEN Utf8Name ELSE a[1]>> >>
            \o (IF a[2] = Null THEN <<>> ELSE << <<"HeaderAttribName", <<115,116,97,110,100,97,108,111,110,101>>>>, <<"HeaderAttribValue", a[2]>> >>)
            \o << <<"HeaderEnd", <<>>>> >>
ItDoc(a) == IF a[1] = Null THEN <<>>
            ELSE LET V(t) == <<"DocAttribValue", t>>
                     kw(t) == <<"DocAttribValue", SubSeq(t, 2, 7)>>
                 IN <<V(SubSeq(Doctype, 3, 9)), V(a[1])>> \o (CASE a[2] # Null -> <<kw(Public), V(a[2]), V(a[3])>> [] a[3] # Null -> <<kw(System), V(a[3])>> [] OTHER -> <<>>)
                    \o << <<"DocAttribEnd", <<>>>> >>
(* append a content to the items, merging *)
AddText(its, t) == IF t = <<>> THEN its
                   ELSE IF its # <<>> /\ its[Len(its)][1] = "Content" THEN [its EXCEPT ![Len(its)] = <<"Content", its[Len(its)][2] \o t>>]
                   ELSE Append(its, <<"Content", t>>)
(* items after an accepted call *)
AddItems(s, its, op, a) ==
  CASE op = "hdr" -> its \o ItHdr(a)
    [] op = "doc" -> its \o ItDoc(a)
    [] op = "opn" -> Append(its, <<"OpenTag", a[1]>>)
    [] op = "atr" -> Append(its, <<"TagAttribName", a[1]>>)
    [] op = "val" -> IF s.st = "attribute" THEN Append(its, <<"TagAttribValue", a[1]>>) ELSE AddText(its, a[1])
    [] op = "cls" -> LET i2 == IF s.st = "element" THEN Append(its, <<"CloseTagIm", <<>>>>) ELSE Append(its, <<"CloseTag", s.stk[Len(s.stk)]>>)
                     IN IF Len(s.stk) = 1 THEN AddText(i2, <<10>>) ELSE i2
    [] op = "rst" -> <<>>
    [] OTHER -> its
=============================================================================
