---------------------------- MODULE ScannerTour ----------------------------
(***************************************************************************)
(* A transition tour of the scanner machine: one document for every        *)
(* reachable pair of control state and next character (of a set of         *)
(* characters that has all classes and all characters the machine treats   *)
(* differently).  The documents are printed and replayed in the code.      *)
(* On the way the control invariants of the machine are checked.           *)
(***************************************************************************)
EXTENDS Scanner, Json
CONSTANT MaxLen

Chars == {9, 10, 13, 32, 5, 1, 38, 60, 61, 62, 47, 45, 33, 63, 39, 34, 91, 93, 35, 59, 120, 109, 108,
          97, 48, 57, 68, 65, 84, 67, 233, 8364}
VARIABLES doc, s, pos, last, errs
vars == <<doc, s, pos, last, errs>>

(* run until the machine needs a character behind the document *)
RECURSIVE Settle(_, _, _)
Settle(st, p, d) ==
  IF Final(st) \/ (Looks(st) /\ p = Len(d)) THEN [s |-> st, p |-> p]
  ELSE LET r == Step(st, p, At(d, p), <<>>) IN Settle(r.s, p + r.use, d)

Init == doc = <<>> /\ s = Settle(Init0, 0, <<>>).s /\ pos = 0 /\ last = 0 /\ errs = FALSE
Put(c) == /\ ~Final(s) /\ Len(doc) < MaxLen
          /\ doc' = Append(doc, c)
          /\ LET r == Settle(s, pos, doc') IN s' = r.s /\ pos' = r.p
          /\ last' = c
          /\ errs' = (s'.ph = "err")
Next == \E c \in Chars : Put(c)
Spec == Init /\ [][Next]_vars

Min(a, b) == IF a < b THEN a ELSE b
Class3(c) == IF c \in {13, 10, 120, 109, 108, 35, 59, 48, 97} THEN <<Cls(c), c>> ELSE <<Cls(c), 0>>
View == <<s.st, s.ph, s.k, s.cr, s.ebase, IF s.eb = <<>> THEN 0 ELSE IF Len(s.eb) < 2 THEN 1 ELSE 2,
          IF Len(s.out) = 0 THEN 0 ELSE 1, Class3(last)>>
Emit == PrintT("DOC" \o ToJson(doc))

(* control invariants: no state without exit, nothing but the final state  *)
(* is stuck at the end of the document, and the end of the document always *)
(* ends the scanning                                                       *)
RECURSIVE AtEnd(_, _, _)
AtEnd(st, p, fuel) ==
  IF Final(st) THEN TRUE
  ELSE IF fuel = 0 THEN FALSE
  ELSE LET r == Step(st, p, At(doc, p), <<>>) IN AtEnd(r.s, p + r.use, fuel - 1)
Terminates == AtEnd(s, pos, 40)
NoInternal == s.st \in States
=============================================================================
