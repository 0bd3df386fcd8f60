---------------------------- MODULE EncodeTrace ----------------------------
(***************************************************************************)
(* Printing recorded: for every run the characters from..to (step) of an   *)
(* encoding were printed; out is the concatenation of the printed bytes of *)
(* each character preceded by their number.  dec: the characters a text    *)
(* scanner returned for the bytes of all representable characters of the   *)
(* run (<<>> if not recorded).                                             *)
(***************************************************************************)
EXTENDS Charset, Json, IOUtils, TLC
VARIABLE i
Traces == JsonDeserialize(IOEnv.TRACE)
R == Traces.runs[i]
Count == ((R.to - R.from) \div R.step) + 1
Want == Flat([k \in 1..Count |-> LET q == Print(R.enc, R.from + (k - 1) * R.step) IN <<Len(q)>> \o q])
Init == i \in 1..Len(Traces.runs)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Encoded == R.out = Want
Decoded == R.decode => R.dec = SelectSeq([k \in 1..Count |-> R.from + (k - 1) * R.step], LAMBDA c : Rep(R.enc, c))
=============================================================================
