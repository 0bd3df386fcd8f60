----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Several threads of control, each working on objects of its own: any     *)
(* interleaving of the operations of all of them.  The state of the system *)
(* is the product of the states of the objects, and an operation changes   *)
(* the object it is called on and nothing else: objects share no state.    *)
(*                                                                         *)
(* Run: p    for every thread the kind and parameters of its objects       *)
(*      ops  <<thread, operation, slot, arguments, result>> in the order   *)
(*           they were executed (any order that respects the order of each *)
(*           thread if the threads ran freely: operations of different     *)
(*           threads commute)                                             *)
(***************************************************************************)
EXTENDS Components
CONSTANTS Runs
VARIABLES i, n, objs, ok
vars == <<i, n, objs, ok>>

Objs == (1..8) \X (1..8)        \* thread, slot
Init == i \in 1..Len(Runs) /\ n = 0 /\ ok = TRUE /\ objs = [k \in Objs |-> <<>>]
Ready(r) == r[1] = "ok"
Step ==
  LET o == Runs[i].ops[n + 1]
      t == o[1] + 1
      P == Runs[i].p[t]
      k == <<t, o[3] + 1>>
      r == o[5]
      src == <<t, o[4][1][1] + 1>>
  IN CASE o[2] = "new" -> objs' = [objs EXCEPT ![k] = <<NewC(P)>>] /\ ok' = Ready(r)
       [] o[2] \in {"cp", "as"} -> objs' = [objs EXCEPT ![k] = objs[src]] /\ ok' = Ready(r)
       [] o[2] = "rm" -> objs' = [objs EXCEPT ![k] = <<>>] /\ ok' = Ready(r)
       [] OTHER -> LET d == DoC(P, objs[k][1], o[2], o[4], r)
                   IN objs' = [objs EXCEPT ![k] = <<d.s>>] /\ ok' = d.ok
Next == \/ /\ ok /\ n < Len(Runs[i].ops)
           /\ Step /\ n' = n + 1 /\ UNCHANGED i
        \/ (~ok \/ n = Len(Runs[i].ops)) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Conforms == ok
=============================================================================
