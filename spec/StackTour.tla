----------------------------- MODULE StackTour ------------------------------
(***************************************************************************)
(* Design model of the tag stack and a tour through all its transitions.   *)
(* Names of lengths around the machine word and the initial size of the    *)
(* memory of the implementation.                                           *)
(***************************************************************************)
EXTENDS TagStack, TLC, Json
CONSTANT Depth
VARIABLES s, hist
vars == <<s, hist>>

Name(k) == [j \in 1..k |-> (k + j * 7) % 256]
Ops == {<<"psh", Name(k)>> : k \in {0, 1, 7, 8, 9, 120, 256}} \cup {<<"pop">>, <<"clr">>, <<"emp">>, <<"top">>}
Init == s = <<>> /\ hist = <<>>
Do(o) == LET x == ApplyStack(s, o[1], Tail(o))
         IN /\ Len(x.s) <= Depth /\ s' = x.s /\ hist' = Append(hist, o)
            /\ PrintT("HIST" \o ToJson([p |-> [x |-> 0], h |-> hist']))
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
View == s
LastIn == hist # <<>> /\ hist[Len(hist)][1] = "psh" => ApplyStack(s, "top", <<>>).r = <<"", hist[Len(hist)][2]>>
EmptyTells == (ApplyStack(s, "emp", <<>>).r = <<"", <<1>>>>) <=> (ApplyStack(s, "top", <<>>).r[1] = "none")
=============================================================================
