------------------------------ MODULE Scanner ------------------------------
(***************************************************************************)
(* The XML scanner of textwolf as a labelled transition machine.           *)
(*                                                                         *)
(* The machine consumes a document (a sequence of Unicode code points) one *)
(* character per step and emits items.  It is written as a function        *)
(*     Step(s, pos, c, ents)                                               *)
(* from a control state s, the number pos of characters consumed so far    *)
(* and the character c found at pos (0 = end of text) to                   *)
(*     [s |-> next state, use |-> 0 or 1 (characters consumed),            *)
(*      em |-> << >> or << item >>]                                        *)
(* so that all other modules (trace validation, exhaustive exploration,    *)
(* chunked feeding, printer/scanner round trip) share one definition.      *)
(*                                                                         *)
(* Every step looks at exactly one character or at none; this is the grain *)
(* at which the implementation can be suspended waiting for more input.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

(* -------------------------- character classes -------------------------- *)
Cls(c) ==
  CASE c = 0 -> "EndOfText"
    [] c = 10 -> "EndOfLine"
    [] c \in {9, 13, 32} -> "Space"
    [] c = 5 -> "Undef"
    [] c < 32 -> "Cntrl"
    [] c = 38 -> "Amp"
    [] c = 60 -> "Lt"
    [] c = 61 -> "Equal"
    [] c = 62 -> "Gt"
    [] c = 47 -> "Slash"
    [] c = 45 -> "Dash"
    [] c = 33 -> "Exclam"
    [] c = 63 -> "Questm"
    [] c = 39 -> "Sq"
    [] c = 34 -> "Dq"
    [] c = 91 -> "Osb"
    [] c = 93 -> "Csb"
    [] c > 127 -> "Undef"
    [] OTHER -> "Any"

Classes == {"Undef","EndOfText","EndOfLine","Cntrl","Space","Amp","Lt","Equal","Gt","Slash",
            "Dash","Exclam","Questm","Sq","Dq","Osb","Csb","Any"}
Blank == {"EndOfLine","Cntrl","Space"}

(* ------------------------------ token sets ----------------------------- *)
TagSet     == {"Undef","Any","Dash"}
ContentSet == Classes \ {"EndOfText","Amp","Lt"}
SqSet      == ContentSet \ {"Sq"}
DqSet      == ContentSet \ {"Dq"}
Sets == [tag |-> TagSet, content |-> ContentSet, sq |-> SqSet, dq |-> DqSet]

(* the messages of the errors *)
Message == [
  ErrIllegalDocumentAttributeDef |-> "illegal_document_attribute_definition",
  ErrExpectedOpenTag |-> "expected_open_tag",
  ErrExpectedXMLTag |-> "expected_XML_tag",
  ErrUnexpectedEndOfText |-> "unexpected_end_of_text",
  ErrSyntaxToken |-> "syntax_token",
  ErrStringNotTerminated |-> "string_not_terminated",
  ErrUndefinedCharacterEntity |-> "undefined_character_entity",
  ErrExpectedTagEnd |-> "expected_tag_end",
  ErrExpectedEqual |-> "expected_equal",
  ErrExpectedTagAttribute |-> "expected_tag_attribute",
  ErrExpectedCDATATag |-> "expected_CDATA_tag",
  ErrInternal |-> "internal_(illegal_state)",
  ErrUnexpectedEndOfInput |-> "unexpected_end_of_input",
  ErrExpectedEndOfLine |-> "expected_end_of_line",
  ErrExpectedDash2 |-> "expected_2nd_'-'_to_complete_marker_for_start_of_comment_'<!--'" ]

(* ------------------------------ state table ---------------------------- *)
(* to:   partial function from classes to states                           *)
(* fb:   state taken without consuming the character if to has no entry    *)
(* miss: error if there is no entry and no fallback                        *)
(* act:  "" none | "ret" return the item typ | "tok" parse a token of the  *)
(*       set tset as item typ | "key" expect the string key                *)
NoTo == [x \in {} |-> ""]
On(cs, t) == [x \in cs |-> t]
E(to, fb, miss) == [act |-> "", typ |-> "", tset |-> "", key |-> <<>>, to |-> to, fb |-> fb, miss |-> miss]
Tok(typ, tset, to, fb, miss) == [act |-> "tok", typ |-> typ, tset |-> tset, key |-> <<>>, to |-> to, fb |-> fb, miss |-> miss]
Ret(typ, to, fb, miss) == [act |-> "ret", typ |-> typ, tset |-> "", key |-> <<>>, to |-> to, fb |-> fb, miss |-> miss]
Key(typ, k, to, miss) == [act |-> "key", typ |-> typ, tset |-> "", key |-> k, to |-> to, fb |-> "", miss |-> miss]
Other(cs, t) == [x \in (Classes \ ({"EndOfText"} \cup cs)) |-> t]

Tab == [
  START    |-> E(On({"EndOfText"},"EXIT") @@ On(Blank,"START") @@ On({"Lt"},"STARTTAG"), "", "ErrExpectedOpenTag"),
  STARTTAG |-> E(On(Blank,"STARTTAG") @@ On({"Questm"},"XTAG") @@ On({"Exclam"},"ENTITYSL"), "OPENTAG", ""),
  XTAG     |-> Key("HeaderStart", <<120,109,108>>, On(Blank,"XTAGAISK") @@ On({"Questm"},"XTAGEND"), "ErrExpectedXMLTag"),
  PITAG    |-> E(On({"Questm"},"PITAGEND") @@ Other({"Questm"},"PITAG"), "", ""),
  PITAGEND |-> E(On({"Gt"},"CONTENT") @@ On({"Questm"},"PITAGEND") @@ Other({"Gt","Questm"},"PITAG"), "", ""),
  XTAGEND  |-> E(On({"Gt"},"XTAGDONE") @@ On(Blank,"XTAGEND"), "", "ErrExpectedTagEnd"),
  XTAGDONE |-> Ret("HeaderEnd", NoTo, "DOCSTART", ""),
  XTAGAISK |-> E(On(Blank,"XTAGAISK") @@ On({"Questm"},"XTAGEND"), "XTAGANAM", ""),
  XTAGANAM |-> Tok("HeaderAttribName", "tag", On(Blank,"XTAGAESK") @@ On({"Equal"},"XTAGAVSK"), "", "ErrExpectedEqual"),
  XTAGAESK |-> E(On(Blank,"XTAGAESK") @@ On({"Equal"},"XTAGAVSK"), "", "ErrExpectedEqual"),
  XTAGAVSK |-> E(On(Blank,"XTAGAVSK") @@ On({"Sq"},"XTAGAVSQ") @@ On({"Dq"},"XTAGAVDQ"), "XTAGAVID", ""),
  XTAGAVID |-> Tok("HeaderAttribValue", "tag", On(Blank,"XTAGAISK") @@ On({"Questm"},"XTAGEND"), "", "ErrExpectedTagAttribute"),
  XTAGAVSQ |-> Tok("HeaderAttribValue", "sq", On({"Sq"},"XTAGAVQE"), "", "ErrStringNotTerminated"),
  XTAGAVDQ |-> Tok("HeaderAttribValue", "dq", On({"Dq"},"XTAGAVQE"), "", "ErrStringNotTerminated"),
  XTAGAVQE |-> E(On(Blank,"XTAGAISK") @@ On({"Questm"},"XTAGEND"), "", "ErrExpectedTagAttribute"),
  DOCSTART |-> E(On({"EndOfText"},"EXIT") @@ On(Blank,"DOCSTART") @@ On({"Lt"},"XMLTAG"), "TOKEN", ""),
  CONTENT  |-> E(On({"EndOfText"},"EXIT") @@ On({"Lt"},"XMLTAG"), "TOKEN", ""),
  TOKEN    |-> Tok("Content", "content", On({"EndOfText"},"EXIT") @@ On(Blank,"CONTENT") @@ On({"Lt"},"XMLTAG"), "CONTENT", ""),
  SEEKTOK  |-> E(On({"EndOfText"},"EXIT") @@ On(Blank,"SEEKTOK") @@ On({"Lt"},"XMLTAG"), "TOKEN", ""),
  XMLTAG   |-> E(On(Blank,"XMLTAG") @@ On({"Questm"},"PITAG") @@ On({"Exclam"},"ENTITYSL") @@ On({"Slash"},"CLOSETAG"), "OPENTAG", ""),
  OPENTAG  |-> Tok("OpenTag", "tag", On(Blank,"TAGAISK") @@ On({"Slash"},"TAGCLIM") @@ On({"Gt"},"CONTENT"), "", "ErrExpectedTagAttribute"),
  CLOSETAG |-> Tok("CloseTag", "tag", On(Blank,"TAGCLSK") @@ On({"Gt"},"CONTENT"), "", "ErrExpectedTagEnd"),
  TAGCLSK  |-> E(On(Blank,"TAGCLSK") @@ On({"Gt"},"CONTENT"), "", "ErrExpectedTagEnd"),
  TAGAISK  |-> E(On(Blank,"TAGAISK") @@ On({"Gt"},"CONTENT") @@ On({"Slash"},"TAGCLIM"), "TAGANAM", ""),
  TAGANAM  |-> Tok("TagAttribName", "tag", On(Blank,"TAGAESK") @@ On({"Equal"},"TAGAVSK"), "", "ErrExpectedEqual"),
  TAGAESK  |-> E(On(Blank,"TAGAESK") @@ On({"Equal"},"TAGAVSK"), "", "ErrExpectedEqual"),
  TAGAVSK  |-> E(On(Blank,"TAGAVSK") @@ On({"Sq"},"TAGAVSQ") @@ On({"Dq"},"TAGAVDQ"), "TAGAVID", ""),
  TAGAVID  |-> Tok("TagAttribValue", "tag", On(Blank,"TAGAISK") @@ On({"Slash"},"TAGCLIM") @@ On({"Gt"},"CONTENT"), "", "ErrExpectedTagAttribute"),
  TAGAVSQ  |-> Tok("TagAttribValue", "sq", On({"Sq"},"TAGAVQE"), "", "ErrStringNotTerminated"),
  TAGAVDQ  |-> Tok("TagAttribValue", "dq", On({"Dq"},"TAGAVQE"), "", "ErrStringNotTerminated"),
  TAGAVQE  |-> E(On(Blank,"TAGAISK") @@ On({"Slash"},"TAGCLIM") @@ On({"Gt"},"CONTENT"), "", "ErrExpectedTagAttribute"),
  TAGCLIM  |-> Ret("CloseTagIm", On(Blank,"TAGCLSK") @@ On({"Gt"},"CONTENT"), "", "ErrExpectedTagEnd"),
  ENTITYSL |-> E(On({"Osb"},"CDATA") @@ On({"Dash"},"COMDASH2"), "ENTITY", ""),
  ENTITY   |-> E(On({"Gt"},"ENTITYE") @@ On(Blank,"ENTITY") @@ On({"Dq"},"ENTITYDQ") @@ On({"Sq"},"ENTITYSQ") @@ On({"Osb"},"ENTITYLC"), "ENTITYID", ""),
  ENTITYE  |-> Ret("DocAttribEnd", NoTo, "SEEKTOK", ""),
  ENTITYID |-> Tok("DocAttribValue", "tag", On(Blank,"ENTITY") @@ On({"Gt"},"ENTITYE"), "", "ErrIllegalDocumentAttributeDef"),
  ENTITYSQ |-> Tok("DocAttribValue", "sq", On({"Sq"},"ENTITY"), "", "ErrStringNotTerminated"),
  ENTITYDQ |-> Tok("DocAttribValue", "dq", On({"Dq"},"ENTITY"), "", "ErrStringNotTerminated"),
  ENTITYLC |-> E(On({"Csb"},"ENTITY") @@ Other({"Csb"},"ENTITYLC"), "", ""),
  COMDASH2 |-> E(On({"Dash"},"COMSEEKE"), "", "ErrExpectedDash2"),
  COMSEEKE |-> E(On({"Dash"},"COMENDD2") @@ Other({"Dash"},"COMSEEKE"), "", ""),
  COMENDD2 |-> E(On({"Dash"},"COMENDCL") @@ Other({"Dash"},"COMSEEKE"), "", ""),
  COMENDCL |-> E(On({"Gt"},"SEEKTOK") @@ On({"Dash"},"COMENDD2") @@ Other({"Gt","Dash"},"COMSEEKE"), "", ""),
  CDATA    |-> Key("", <<67,68,65,84,65>>, On({"Osb"},"CDATA1"), "ErrExpectedCDATATag"),
  CDATA1   |-> E(On({"Csb"},"CDATA2") @@ Other({"Csb"},"CDATA1"), "", ""),
  CDATA2   |-> E(On({"Csb"},"CDATA3") @@ Other({"Csb"},"CDATA1"), "", ""),
  CDATA3   |-> E(On({"Gt"},"CONTENT") @@ On({"Csb"},"CDATA3") @@ Other({"Gt","Csb"},"CDATA1"), "", ""),
  EXIT     |-> Ret("Exit", NoTo, "", "")
]
States == DOMAIN Tab

(* ------------------------------- entities ------------------------------ *)
Predef == << [n |-> <<113,117,111,116>>, v |-> 34],  [n |-> <<97,109,112>>, v |-> 38],
             [n |-> <<97,112,111,115>>, v |-> 39],   [n |-> <<108,116>>, v |-> 60],
             [n |-> <<103,116>>, v |-> 62],          [n |-> <<110,98,115,112>>, v |-> 32] >>
(* ents: user table, sequence of [n |-> name, v |-> code point] *)
Lookup(name, ents) ==
  LET P == {k \in 1..Len(Predef) : Predef[k].n = name}
      U == {k \in 1..Len(ents) : ents[k].n = name}
  IN IF P # {} THEN <<Predef[CHOOSE k \in P : TRUE].v>>
     ELSE IF U # {} THEN <<ents[CHOOSE k \in U : TRUE].v>> ELSE <<>>

Hex(c) == CASE c \in 48..57 -> c - 48
            [] c \in 65..70 -> c - 55
            [] c \in 97..102 -> c - 87
            [] OTHER -> 255
(* Numeric values are pairs (hi,lo) of 16 bit words; hi = 65536 means "at least 2^32" *)
NumAdd(v, base, d) ==
  LET lo == v[2] * base + d
      hi == v[1] * base + (lo \div 65536)
  IN IF v[1] >= 65536 \/ hi >= 65536 THEN <<65536, 0>> ELSE <<hi, lo % 65536>>
NumBig(v)  == v[1] >= 65536
NumChar(v) == IF v[1] >= 32768 THEN -1 ELSE v[1] * 65536 + v[2]   \* -1: beyond the specified range

(* -------------------------------- machine ------------------------------ *)
(* ph: act  enter the state                 trn  take the transition       *)
(*     tok  inside a token                  key  inside an expected string *)
(*     ent/num/dig/nam  behind "&", "&#", in digits, in a name             *)
(*     err  error reported                  end  end of document reported  *)
Init0 == [st |-> "START", ph |-> "act", rt |-> "", out |-> <<>>, tokpos |-> 0, cr |-> FALSE,
          eb |-> <<>>, ebase |-> 0, ev |-> <<0,0>>, k |-> 0,
          msk |-> {}, mk |-> FALSE]
(* msk: types whose text the current call does not want; mk: the current   *)
(* token is one of them.  A token masked out is consumed the same way, but *)
(* nothing is printed, no token position is recorded and references are    *)
(* not looked at.                                                          *)

Item(t, c, p, tp) == [t |-> t, c |-> c, p |-> p, tp |-> tp, e |-> "", mk |-> FALSE]
Err(s, e) == [s |-> [s EXCEPT !.ph = "err", !.out = <<>>], use |-> 0,
              em |-> <<[t |-> "ErrorOccurred", c |-> <<>>, p |-> -1, tp |-> -1, e |-> e, mk |-> FALSE]>>]
R(s, use) == [s |-> s, use |-> use, em |-> <<>>]

ClrEnt(s) == [s EXCEPT !.eb = <<>>, !.ebase = 0, !.ev = <<0,0>>]
BackToTok(s, txt) == ClrEnt([s EXCEPT !.ph = "tok", !.out = @ \o txt, !.cr = FALSE])
Fallback(s) ==
  CASE s.ph = "dig" -> R(BackToTok(s, <<38,35>> \o (IF s.ebase = 16 THEN <<120>> ELSE <<>>) \o s.eb), 0)
    [] s.ph = "nam" -> R(BackToTok(s, <<38>> \o s.eb), 0)

(* entering a state *)
StepAct(s, pos) ==
  LET d == Tab[s.st] IN
  CASE d.act = "" -> R([s EXCEPT !.ph = "trn", !.rt = ""], 0)
    [] d.act = "tok" -> R([s EXCEPT !.ph = "tok", !.rt = d.typ, !.out = <<>>, !.tokpos = pos, !.cr = FALSE, !.mk = (d.typ \in s.msk)], 0)
    [] d.act = "key" -> R([s EXCEPT !.ph = "key", !.rt = d.typ, !.k = 0,
                                    !.out = IF d.typ = "HeaderStart" THEN <<63>> \o d.key ELSE <<>>], 0)
    [] d.act = "ret" ->
         IF DOMAIN d.to = {}
         THEN [s |-> [s EXCEPT !.ph = IF d.fb = "" THEN "end" ELSE "act", !.rt = "", !.out = <<>>,
                               !.tokpos = pos, !.st = IF d.fb = "" THEN s.st ELSE d.fb],
               use |-> 0, em |-> <<Item(d.typ, <<>>, pos, -1)>>]
         ELSE R([s EXCEPT !.ph = "trn", !.rt = d.typ, !.out = <<>>, !.tokpos = pos], 0)

(* inside an expected keyword *)
StepKey(s, c) ==
  LET key == Tab[s.st].key IN
  IF s.k = Len(key) THEN R([s EXCEPT !.ph = "trn"], 0)
  ELSE IF c = key[s.k + 1] THEN R([s EXCEPT !.k = @ + 1], 1)
  ELSE IF c = 0 THEN Err(s, "ErrUnexpectedEndOfText") ELSE Err(s, "ErrSyntaxToken")

(* inside a token *)
StepTok(s, c) ==
  IF s.mk
  THEN IF Cls(c) \in Sets[Tab[s.st].tset] \cup {"Amp"} THEN R(s, 1) ELSE R([s EXCEPT !.ph = "trn"], 0)
  ELSE IF Cls(c) \in Sets[Tab[s.st].tset]
  THEN CASE c = 13 -> R([s EXCEPT !.out = Append(@, 10), !.cr = TRUE], 1)
         [] c = 10 -> R([s EXCEPT !.out = IF s.cr THEN @ ELSE Append(@, 10), !.cr = FALSE], 1)
         [] OTHER  -> R([s EXCEPT !.out = Append(@, c), !.cr = FALSE], 1)
  ELSE IF c = 38 THEN R(ClrEnt([s EXCEPT !.ph = "ent"]), 1)
  ELSE R([s EXCEPT !.ph = "trn", !.cr = FALSE], 0)

StepEnt(s, c) == IF c = 35 THEN R([s EXCEPT !.ph = "num"], 1) ELSE R([s EXCEPT !.ph = "nam"], 0)
StepNum(s, c) == IF c = 120 THEN R([s EXCEPT !.ph = "dig", !.ebase = 16], 1)
                            ELSE R([s EXCEPT !.ph = "dig", !.ebase = 10], 0)
MaxDigits == 16
StepDig(s, c) ==
  IF Len(s.eb) >= MaxDigits THEN Fallback(s)
  ELSE IF c = 59
       THEN IF s.eb = <<>> \/ NumBig(s.ev) THEN Fallback(s) ELSE R(BackToTok(s, <<NumChar(s.ev)>>), 1)
  ELSE IF c < 128 /\ Hex(c) < s.ebase
       THEN R([s EXCEPT !.eb = Append(@, c), !.ev = NumAdd(@, s.ebase, Hex(c))], 1)
  ELSE Fallback(s)

MaxName == 15
StepNam(s, c, ents) ==
  IF c = 59
  THEN LET v == Lookup(s.eb, ents) IN
       IF v = <<>> THEN Err(s, "ErrUndefinedCharacterEntity") ELSE R(BackToTok(s, v), 1)
  ELSE IF Cls(c) = "Any" /\ Len(s.eb) < MaxName THEN R([s EXCEPT !.eb = Append(@, c)], 1)
  ELSE Fallback(s)

(* leaving a state: the item of the state is delivered with the transition *)
StepTrn(s, pos, c) ==
  LET d == Tab[s.st]
      cl == Cls(c)
      go(t, use) == [s |-> [s EXCEPT !.st = t, !.ph = "act", !.rt = ""], use |-> use,
                     em |-> IF s.rt = "" THEN <<>>
                            ELSE <<[Item(s.rt, s.out, pos + use, IF d.act = "tok" /\ ~s.mk THEN s.tokpos ELSE -1)
                                  EXCEPT !.mk = (s.mk /\ d.act = "tok")]>>]
  IN IF cl \in DOMAIN d.to THEN go(d.to[cl], 1)
     ELSE IF d.fb # "" THEN go(d.fb, 0)
     ELSE IF d.miss # "" THEN Err(s, d.miss)
     ELSE IF c = 0 THEN Err(s, "ErrUnexpectedEndOfText")
     ELSE Err(s, "ErrInternal")

Final(s) == s.ph \in {"err", "end"}

Step(s, pos, c, ents) ==
  CASE s.ph = "act" -> StepAct(s, pos)
    [] s.ph = "trn" -> StepTrn(s, pos, c)
    [] s.ph = "tok" -> StepTok(s, c)
    [] s.ph = "key" -> StepKey(s, c)
    [] s.ph = "ent" -> StepEnt(s, c)
    [] s.ph = "num" -> StepNum(s, c)
    [] s.ph = "dig" -> StepDig(s, c)
    [] s.ph = "nam" -> StepNam(s, c, ents)

(* steps that look at the next character (where the scanner can starve) *)
Looks(s) == s.ph \notin {"act"} /\ ~ (s.ph = "key" /\ s.k = Len(Tab[s.st].key))

(* ------------------------------ whole runs ----------------------------- *)
At(doc, pos) == IF pos < Len(doc) THEN doc[pos + 1] ELSE 0
RECURSIVE RunFrom(_, _, _, _, _)
RunFrom(doc, ents, s, pos, items) ==
  IF Final(s) THEN items
  ELSE LET r == Step(s, pos, At(doc, pos), ents)
       IN RunFrom(doc, ents, r.s, pos + r.use, items \o r.em)
Run(doc, ents) == RunFrom(doc, ents, Init0, 0, <<>>)

(* -------------------- item protocol (property S10) --------------------- *)
(* a monitor over the item types *)
ProtoInit == "start"
ProtoNext(m, t) ==
  CASE t = "ErrorOccurred" -> "stop"
    [] t = "Exit" -> IF m \in {"start", "body", "tag"} THEN "stop" ELSE "bad"
    [] t = "HeaderStart" -> IF m = "start" THEN "hdr" ELSE "bad"
    [] t = "HeaderAttribName" -> IF m = "hdr" THEN "hname" ELSE "bad"
    [] t = "HeaderAttribValue" -> IF m = "hname" THEN "hdr" ELSE "bad"
    [] t = "HeaderEnd" -> IF m = "hdr" THEN "body" ELSE "bad"
    [] t = "DocAttribValue" -> IF m \in {"start", "body", "tag", "doc"} THEN "doc" ELSE "bad"
    [] t = "DocAttribEnd" -> IF m \in {"start", "body", "tag", "doc"} THEN "body" ELSE "bad"
    [] t = "OpenTag" -> IF m \in {"start", "body", "tag"} THEN "tag" ELSE "bad"
    [] t = "TagAttribName" -> IF m = "tag" THEN "name" ELSE "bad"
    [] t = "TagAttribValue" -> IF m = "name" THEN "tag" ELSE "bad"
    [] t = "CloseTagIm" -> IF m = "tag" THEN "body" ELSE "bad"
    [] t = "CloseTag" -> IF m \in {"start", "body", "tag"} THEN "body" ELSE "bad"
    [] t = "Content" -> IF m \in {"start", "body", "tag"} THEN "body" ELSE "bad"
    [] OTHER -> "bad"
=============================================================================
