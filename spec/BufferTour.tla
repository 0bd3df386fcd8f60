----------------------------- MODULE BufferTour -----------------------------
(***************************************************************************)
(* Design model of the buffer and a tour through all its transitions: for  *)
(* every reachable state and operation one history is printed, which is    *)
(* replayed in the code.                                                   *)
(***************************************************************************)
EXTENDS Buffer, TLC, Json
VARIABLES p, s, hist, dropped
vars == <<p, s, hist, dropped>>

Ops == {<<"psh", <<255>>>>, <<"clr">>, <<"app", <<>>>>, <<"app", <<66>>>>, <<"app", <<66, 0>>>>, <<"app", <<66, 67, 68, 69>>>>}
       \cup {<<"rsz", <<n>>, <<c>>>> : n \in 0..4, c \in {90}} \cup {<<"wr", <<k>>, <<64>>>> : k \in 0..1}
       \cup {<<o, <<k>>>> : o \in {"idx", "at"}, k \in 0..3} \cup {<<"ovf">>, <<"all">>}
Init == /\ p \in [size : 0..3, fill : 0..2] /\ p.fill <= p.size
        /\ s = NewBuf(p) /\ hist = <<>> /\ dropped = 0
Do(o) == LET x == ApplyBuf(s, o[1], Tail(o))
             in == CASE o[1] = "psh" -> 1 [] o[1] = "app" -> Len(o[2]) [] OTHER -> 0
         IN /\ s' = x.s /\ hist' = Append(hist, o) /\ UNCHANGED p
            /\ dropped' = IF o[1] = "clr" THEN 0 ELSE dropped + in - (IF in > 0 THEN Len(x.s.c) - Len(s.c) ELSE 0)
            /\ PrintT("HIST" \o ToJson([p |-> p, h |-> hist']))
Next == Len(hist) < 14 /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
View == <<p, s>>
Fits == Len(s.c) <= s.size
FlagTells == s.ovf <=> dropped > 0
=============================================================================
