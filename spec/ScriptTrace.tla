---------------------------- MODULE ScriptTrace ----------------------------
(***************************************************************************)
(* Trace validation of scripts of operations on the objects of one         *)
(* component: objects live in slots, are created, copied, assigned and     *)
(* destroyed; every other operation is a transition of the component.      *)
(* In the specification a copy is a copy of the state, so independence of  *)
(* originals and copies and their equal behaviour are what is checked.     *)
(*                                                                         *)
(* Run: p    the parameters of the objects                                 *)
(*      ops  <<operation, slot, arguments, result>>; arguments: sequence   *)
(*           of sequences of numbers; result: <<word, numbers>>            *)
(* A component defines                                                     *)
(*   NewState(p)           state of a new object                           *)
(*   Do(p, s, op, a, r)    [s |-> next state, ok |-> result r is allowed]  *)
(*   DifOk(p, s, t, r)     the result of s - t is allowed                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
CONSTANTS Runs, NewState(_), Do(_,_,_,_,_), DifOk(_,_,_,_)
VARIABLES i, n, slots, ok
vars == <<i, n, slots, ok>>

Slots == 1..8
Done(r) == r[1] = "ok"
Init == i \in 1..Len(Runs) /\ n = 0 /\ ok = TRUE /\ slots = [k \in Slots |-> <<>>]

Step ==
  LET P == Runs[i].p
      o == Runs[i].ops[n + 1]
      k == o[2] + 1
      r == o[4]
      src == o[3][1][1] + 1
  IN CASE o[1] = "new" -> slots' = [slots EXCEPT ![k] = <<NewState(P)>>] /\ ok' = Done(r)
       [] o[1] \in {"cp", "as"} -> slots' = [slots EXCEPT ![k] = slots[src]] /\ ok' = Done(r)
       [] o[1] = "rm" -> slots' = [slots EXCEPT ![k] = <<>>] /\ ok' = Done(r)
       [] o[1] = "dif" -> UNCHANGED slots /\ ok' = DifOk(P, slots[k][1], slots[src][1], r)
       [] OTHER -> LET d == Do(P, slots[k][1], o[1], o[3], r)
                   IN slots' = [slots EXCEPT ![k] = <<d.s>>] /\ ok' = d.ok
Next == \/ /\ ok /\ n < Len(Runs[i].ops)
           /\ Step /\ n' = n + 1 /\ UNCHANGED i
        \/ (~ok \/ n = Len(Runs[i].ops)) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
