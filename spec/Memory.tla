------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Running out of memory.  Any operation that allocates memory may fail    *)
(* while the environment refuses it; how many allocations an operation     *)
(* makes is not specified, so the failure is a nondeterministic choice of  *)
(* the environment, taken from the trace.                                  *)
(*   - An operation that fails says so (std::bad_alloc or the exception    *)
(*     OutOfMem), it does not give any other result and never fails when   *)
(*     memory is not refused.                                              *)
(*   - An operation with no allocation refused has its normal result.      *)
(*   - A failed operation leaves the object unchanged if it is one of      *)
(*     Keeps.  Otherwise the state of this object is unknown: it may still *)
(*     be used (whatever it answers), destroyed, and after assigning       *)
(*     another object to it its state is known again.                      *)
(*   - Other objects are not affected (also not the one copied from).      *)
(*   - When all objects are destroyed all memory has been given back.      *)
(*                                                                         *)
(* Run: p parameters of the objects, ops as in ScriptTrace with            *)
(*      arm [n] / [n, all]  memory is refused from the n-th allocation on  *)
(*                          once / always;  n = 0: not any more            *)
(*      end                 all objects destroyed: blocks still allocated  *)
(***************************************************************************)
EXTENDS Components
CONSTANTS Runs
VARIABLES i, n, slots, armed, ok
vars == <<i, n, slots, armed, ok>>

Keeps(k, op) == k \in {"src", "buf", "stack"} \/ (k = "hdr" /\ op = "put") \/ (k \in {"path", "pipe"} /\ op = "def")
Known(s) == [known |-> TRUE, s |-> s]
Unknown == [known |-> FALSE, s |-> <<>>]
Oom(r) == r[1] = "OOM"

Slots == 1..8
Init == /\ i \in 1..Len(Runs) /\ n = 0 /\ ok = TRUE /\ armed = "no"
        /\ slots = [k \in Slots |-> <<>>]
Step ==
  LET P == Runs[i].p
      o == Runs[i].ops[n + 1]
      k == o[2] + 1
      r == o[4]
      src == o[3][1][1] + 1
      Gone(x) == slots' = [slots EXCEPT ![k] = x]
      Fails == Oom(r) /\ armed # "no"
      Ready == r = <<"ok", <<>>>>
      fired == IF Oom(r) /\ armed = "once" THEN "no" ELSE armed
  IN CASE o[1] = "arm" -> /\ armed' = (IF o[3][1][1] = 0 THEN "no" ELSE IF Len(o[3]) = 2 THEN "all" ELSE "once")
                          /\ UNCHANGED slots /\ ok' = TRUE
       [] o[1] = "end" -> UNCHANGED <<slots, armed>> /\ ok' = (r = <<"", <<0>>>>)
       [] o[1] = "rm" -> UNCHANGED armed /\ Gone(<<>>) /\ ok' = Ready
       [] o[1] = "new" -> armed' = fired /\ Gone(IF Oom(r) THEN <<>> ELSE <<Known(NewC(P))>>) /\ ok' = (Ready \/ Fails)
       [] o[1] = "cp" /\ slots[src] = <<>> -> UNCHANGED <<slots, armed>> /\ ok' = (r[1] = "none")
       [] o[1] = "cp" -> armed' = fired /\ Gone(IF Ready THEN slots[src] ELSE slots[k]) /\ ok' = (Ready \/ Fails \/ ~slots[src][1].known)
       [] slots[k] = <<>> \/ (o[1] = "as" /\ slots[src] = <<>>) -> UNCHANGED <<slots, armed>> /\ ok' = (r[1] = "none")
       [] o[1] = "as" -> armed' = fired /\ Gone(IF Ready THEN slots[src] ELSE <<Unknown>>) /\ ok' = (Ready \/ Fails \/ ~slots[src][1].known)
       [] Oom(r) -> armed' = fired /\ Gone(IF Keeps(P.k, o[1]) THEN slots[k] ELSE <<Unknown>>) /\ ok' = Fails
       [] ~slots[k][1].known -> UNCHANGED <<slots, armed>> /\ ok' = TRUE
       [] OTHER -> LET d == DoC(P, slots[k][1].s, o[1], o[3], r)
                   IN UNCHANGED armed /\ Gone(<<Known(d.s)>>) /\ ok' = d.ok
Next == \/ /\ ok /\ n < Len(Runs[i].ops)
           /\ Step /\ n' = n + 1 /\ UNCHANGED i
        \/ (~ok \/ n = Len(Runs[i].ops)) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
