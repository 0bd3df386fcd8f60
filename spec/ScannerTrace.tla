---------------------------- MODULE ScannerTrace ----------------------------
(***************************************************************************)
(* Trace validation: every recorded run of the real scanner (document plus *)
(* the items it returned) must be a behaviour of the machine of Scanner.   *)
(* One initial state per recorded run; Next is the machine; an item that   *)
(* differs from the recorded one makes ok false.                           *)
(*                                                                         *)
(* Run: doc    the characters of the document                              *)
(*      ents   the user defined entity table was passed                    *)
(*      masks  the types masked out, call by call (round robin)            *)
(*      view   how texts are recorded: "full" the characters; an encoding  *)
(*             name: characters it cannot represent are references;        *)
(*             "cut": UTF-8 bytes cut to cap bytes (static output buffer)  *)
(*      items  <<type, text, position, token position, error, info>>       *)
(*             text = <<-1>> not observed, position -1 not observed, info: *)
(*             error message, or "ovf"/"fit" for cut texts, "*" anything   *)
(*      tail   the types returned by further calls after the end           *)
(*      wf     the document is well formed (generated by a grammar)        *)
(*      k1,k2  reading the input fails: the failure may be noticed when    *)
(*             the character number k1 is looked at and has to be noticed  *)
(*             when number k2 is looked at (-1: no failure).  The failure  *)
(*             is recorded as an item "EXC" with the cause of the          *)
(*             exception as error and its name as info                     *)
(***************************************************************************)
EXTENDS Scanner, Charset, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
Ents == [k \in 1..Len(Traces.ents) |-> [n |-> Traces.ents[k][1], v |-> Traces.ents[k][2]]]

VARIABLES i, s, pos, n, proto, nest, ok
vars == <<i, s, pos, n, proto, nest, ok>>

T == Traces.runs[i]
Doc == T.doc
U == IF T.ents THEN Ents ELSE <<>>
ToSet(q) == {q[k] : k \in 1..Len(q)}
MaskOf(j, m) == ToSet(Traces.runs[j].masks[(m % Len(Traces.runs[j].masks)) + 1])

Clamp(p) == IF p > Len(Doc) THEN Len(Doc) ELSE p
CutTo(q, m) == IF Len(q) > m THEN SubSeq(q, 1, m) ELSE q
Text(c) == CASE T.view = "full" -> c
             [] T.view = "cut" -> CutTo(EncAll("UTF8", c), T.cap)
             [] OTHER -> SeenAll(T.view, c)
Same(rec, it) ==
  /\ rec[1] = it.t
  /\ rec[2] = <<-1>> \/ it.mk \/ rec[2] = Text(it.c)
  /\ rec[3] = -1 \/ it.p = -1 \/ rec[3] = Clamp(it.p)
  /\ rec[4] = -1 \/ it.tp = -1 \/ rec[4] = Clamp(it.tp)
  /\ rec[5] = it.e
  /\ CASE rec[6] = "*" -> TRUE
       [] it.e # "" -> rec[6] = Message[it.e]
       [] T.view = "cut" -> it.mk \/ rec[6] = IF Len(EncAll("UTF8", it.c)) > T.cap THEN "ovf" ELSE "fit"
       [] OTHER -> rec[6] = ""

Init == /\ i \in 1..Len(Traces.runs)
        /\ s = [Init0 EXCEPT !.msk = MaskOf(i, 0)]
        /\ pos = 0 /\ n = 0 /\ ok = TRUE
        /\ proto = ProtoInit /\ nest = <<>>

NextIs(t) == n < Len(T.items) /\ T.items[n + 1][1] = t
ReadFails == T.k1 >= 0 /\ Looks(s) /\ pos >= T.k1 /\ (NextIs("EXC") \/ pos >= T.k2)
Fail == /\ ~Final(s) /\ ok /\ ReadFails
        /\ ok' = /\ NextIs("EXC") /\ n + 1 = Len(T.items)
                 /\ T.items[n + 1][5] = "FileReadError" /\ T.items[n + 1][6] = "FileReadError"
        /\ s' = [s EXCEPT !.ph = "end"]
        /\ n' = n + 1
        /\ UNCHANGED <<i, pos, proto, nest>>

(* open and close items of well formed documents *)
NestNext(it) ==
  CASE ~T.wf -> nest
    [] it.t = "OpenTag" -> Append(nest, it.c)
    [] it.t = "CloseTag" -> IF nest # <<>> /\ nest[Len(nest)] = it.c THEN SubSeq(nest, 1, Len(nest) - 1) ELSE <<<<-1>>>>
    [] it.t = "CloseTagIm" -> IF nest # <<>> THEN SubSeq(nest, 1, Len(nest) - 1) ELSE <<<<-1>>>>
    [] it.t = "Exit" -> IF nest = <<>> THEN <<>> ELSE <<<<-1>>>>
    [] it.t = "ErrorOccurred" -> <<<<-1>>>>
    [] OTHER -> nest

Advance ==
  /\ ~Final(s) /\ ok /\ ~ReadFails
  /\ LET r == Step(s, pos, At(Doc, pos), U) IN
     /\ pos' = pos + r.use
     /\ IF r.em = <<>>
        THEN s' = r.s /\ UNCHANGED <<n, ok, proto, nest>>
        ELSE /\ n' = n + 1
             /\ s' = [r.s EXCEPT !.msk = MaskOf(i, n + 1)]
             /\ proto' = ProtoNext(proto, r.em[1].t)
             /\ nest' = NestNext(r.em[1])
             /\ ok' = /\ n < Len(T.items)
                      /\ Same(T.items[n + 1], r.em[1])
                      /\ Final(r.s) => /\ n + 1 = Len(T.items)
                                       /\ ToSet(T.tail) \subseteq {"Exit"}
  /\ UNCHANGED i

Done == (Final(s) \/ ~ok) /\ UNCHANGED vars
Next == Advance \/ Fail \/ Done
Spec == Init /\ [][Next]_vars

Conforms == ok
Protocol == proto # "bad"
Nested   == nest # <<<<-1>>>>
Bounded  == pos <= Len(Doc) + 1
=============================================================================
