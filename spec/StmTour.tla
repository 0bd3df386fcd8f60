------------------------------ MODULE StmTour -------------------------------
(***************************************************************************)
(* Design model of the definition of state machines with few classes and   *)
(* targets, and a tour through all its transitions.                        *)
(***************************************************************************)
EXTENDS Stm, TLC, Json
CONSTANT Depth
VARIABLES s, hist
vars == <<s, hist>>

Classes == {0, EndOfText, 17}
Ops == {<<"sta", k>> : k \in 0..Depth + 1} \cup {<<"tra", t, c>> : t \in {-1, 0, 63, 64}, c \in Classes \cup {18}}
       \cup {<<"tra", 1, 0, 17>>, <<"tra", 0, 17, 5, 0>>} \cup {<<"slf", c>> : c \in {0, 18}} \cup {<<"oth", t>> : t \in {-1, 0, 63, 64}}
       \cup {<<"act", 3>>, <<"act", 1, 7>>, <<"mis", 4>>} \cup {<<"fal", t>> : t \in {-1, 0, 63, 64}} \cup {<<"get", k>> : k \in {-1, 0, 1, 2}}
Init == s = <<>> /\ hist = <<>>
Do(o) == LET x == ApplyStm(s, o[1], Tail(o))
         IN /\ Len(x.s) <= Depth /\ s' = x.s /\ hist' = Append(hist, o)
            /\ PrintT("HIST" \o ToJson([p |-> [map |-> 0, null |-> 0], h |-> hist']))
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
View == s
\* what was defined once is never changed by a later operation
Kept == [][/\ Len(s') \in {Len(s), Len(s) + 1}
           /\ \A k \in 1..Len(s) : /\ s[k].fall # -1 => s'[k].fall = s[k].fall
                                   /\ s[k].miss # -1 => s'[k].miss = s[k].miss
                                   /\ s[k].op # -1 => s'[k].op = s[k].op /\ s'[k].arg = s[k].arg
                                   /\ \A c \in 0..NofClasses - 1 : s[k].next[c] # -1 => s'[k].next[c] = s[k].next[c]
                                   /\ k < Len(s) => s'[k] = s[k]]_vars
\* the end of text leads only where this was said explicitly
EndExplicit == \A k \in 1..Len(s) : s[k].next[EndOfText] # -1 => \E j \in 1..Len(hist) : hist[j][1] \in {"tra", "slf"}
InRange == \A k \in 1..Len(s) : \A c \in 0..NofClasses - 1 : s[k].next[c] \in -1..MaxStates - 1
=============================================================================
