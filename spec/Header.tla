------------------------------- MODULE Header -------------------------------
(***************************************************************************)
(* The parser of the XML header: finds the encoding declared in the XML    *)
(* declaration without knowing the encoding of the document, by ignoring   *)
(* null bytes (up to three in a row).                                      *)
(* state: st    control state                                              *)
(*        src   all bytes put,  i  bytes consumed                          *)
(*        item  name or value collected,  attr  attribute of the value     *)
(*        enc   encoding found,  z null bytes in a row,  cnt  number of    *)
(*        characters (no null bytes, no white space) consumed              *)
(*        fin   "" in progress, "true", "error", "exc", "any" (used after  *)
(*              the final result: nothing is promised but the input put)   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

NewHdr(p) == [st |-> "init", src |-> <<>>, i |-> 0, item |-> <<>>, attr |-> "", enc |-> <<>>, z |-> 0, cnt |-> 0, fin |-> ""]

Xml == <<120, 109, 108>>
AttrNames == << <<101, 110, 99, 111, 100, 105, 110, 103>>,
                <<118, 101, 114, 115, 105, 111, 110>>,
                <<115, 116, 97, 110, 100, 97, 108, 111, 110, 101>> >>
AttrOf(n) == IF n = AttrNames[1] THEN "encoding" ELSE IF n = AttrNames[2] THEN "version" ELSE IF n = AttrNames[3] THEN "standalone" ELSE ""
HLetter(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95

(* one character; returns the next state with fin set if it decides *)
HdrChar(s, c) ==
  LET To(x) == [s EXCEPT !.st = x]
      Fail == [s EXCEPT !.fin = "error"]
      Good == [s EXCEPT !.fin = "true"]
      Collect(x) == [s EXCEPT !.st = x, !.item = Append(s.item, c)]
      EndName(x) == IF AttrOf(s.item) = "" THEN Fail ELSE [s EXCEPT !.attr = AttrOf(s.item), !.item = <<>>, !.st = x]
      Value(q) == IF c = q THEN [s EXCEPT !.enc = IF s.attr = "encoding" THEN s.item ELSE s.enc, !.item = <<>>, !.st = "find"] ELSE Collect(s.st)
      space == c <= 32
  IN CASE s.st = "init" -> IF c = 60 THEN To("open") ELSE IF space THEN s ELSE Fail
       [] s.st = "open" -> IF c = 63 THEN To("decl") ELSE IF space THEN s ELSE IF HLetter(c) THEN Good ELSE Fail
       [] s.st = "decl" -> IF space \/ c = 63
                           THEN IF s.item # Xml THEN Fail
                                ELSE IF c = 63 THEN [Good EXCEPT !.item = <<>>] ELSE [s EXCEPT !.item = <<>>, !.st = "find"]
                           ELSE IF HLetter(c) THEN Collect("decl") ELSE Fail
       [] s.st = "find" -> IF space THEN s ELSE IF c = 63 THEN Good ELSE IF HLetter(c) THEN Collect("name") ELSE Fail
       [] s.st = "name" -> IF c = 61 THEN EndName("value") ELSE IF space THEN EndName("assign") ELSE IF HLetter(c) THEN Collect("name") ELSE Fail
       [] s.st = "assign" -> IF c = 61 THEN To("value") ELSE IF space THEN s ELSE Fail
       [] s.st = "value" -> IF c = 34 THEN To("dq") ELSE IF c = 39 THEN To("sq") ELSE IF space THEN s ELSE Fail
       [] s.st = "dq" -> Value(34)
       [] s.st = "sq" -> Value(39)

RECURSIVE Parse(_)
Parse(s) ==
  IF s.fin # "" THEN s
  ELSE IF s.z = 4 THEN [s EXCEPT !.fin = "exc"]
  ELSE IF s.i >= Len(s.src) THEN s
  ELSE LET c == s.src[s.i + 1]
           t == [s EXCEPT !.i = s.i + 1]
       IN IF c = 0 THEN Parse([t EXCEPT !.z = s.z + 1])
          ELSE Parse(HdrChar([t EXCEPT !.z = 0, !.cnt = s.cnt + (IF c > 32 THEN 1 ELSE 0)], c))

HOk == <<"ok", <<>>>>
HNum(v) == <<"", <<v>>>>
DoHdr(p, s, op, a, r) ==
  LET Is(x) == [s |-> s, ok |-> s.fin = "any" \/ r = x]
  IN CASE op = "put" -> [s |-> [s EXCEPT !.src = s.src \o (IF Len(a) = 0 THEN <<>> ELSE a[1])], ok |-> r = HOk]
       [] op = "clr" -> [s |-> NewHdr(p), ok |-> r = HOk]
       [] op = "src" -> [s |-> s, ok |-> r = <<"", s.src>>]
       [] op = "prs" -> IF s.fin = "exc" THEN [s |-> s, ok |-> r[1] = "EXC/IllegalXmlHeader/IllegalXmlHeader"]
                        ELSE IF s.fin # "" THEN [s |-> [s EXCEPT !.fin = "any"], ok |-> TRUE]
                        ELSE LET t == Parse(s) IN
                             [s |-> t, ok |-> r = CASE t.fin = "true" -> HNum(1)
                                                    [] t.fin = "exc" -> <<"EXC/IllegalXmlHeader/IllegalXmlHeader", <<>>>>
                                                    [] OTHER -> HNum(0)]
       [] op = "enc" -> Is(IF s.enc = <<>> THEN <<"none", <<>>>> ELSE <<"", s.enc>>)
       [] op = "err" -> [s |-> s, ok |-> s.fin = "any" \/ ((r[1] = "none") <=> (s.fin # "error"))]
       [] op = "cnt" -> Is(HNum(s.cnt))
=============================================================================
