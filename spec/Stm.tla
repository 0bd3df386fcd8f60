-------------------------------- MODULE Stm ---------------------------------
(***************************************************************************)
(* The definition of a scanner state machine: a sequence of states, each   *)
(* with an action, an error, a fallback and a transition per class of      *)
(* control character, built by operations on the state defined last.       *)
(* A definition that is not consistent is rejected with the exception      *)
(* naming the reason and has no effect.                                    *)
(* The names of the constants of the library are their identifiers, and a  *)
(* map of bytes yields the value assigned last.                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

NofClasses == 18
EndOfText == 1
MaxStates == 64
NoState == [fall |-> -1, miss |-> -1, op |-> -1, arg |-> 0, next |-> [c \in 0..NofClasses - 1 |-> -1], out |-> FALSE]

NewStm(p) == IF p.map > 0 THEN [c \in 0..p.map - 1 |-> p.null] ELSE <<>>
Exc(c) == <<"EXC/" \o c \o "/" \o c, <<>>>>
StmOk == <<"ok", <<>>>>
Rej(s, c) == [s |-> s, r |-> Exc(c)]
Put(s, f(_)) == [s |-> [s EXCEPT ![Len(s)] = f(@)], r |-> StmOk]
Target(t) == t \in 0..MaxStates - 1
Self(s) == Len(s) - 1

Trans(s, c, t) ==
  IF s = <<>> THEN Rej(s, "InvalidState")
  ELSE IF c \notin 0..NofClasses - 1 THEN Rej(s, "InvalidParamChar")
  ELSE IF ~Target(t) THEN Rej(s, "InvalidParamState")
  ELSE IF s[Len(s)].next[c] # -1 THEN Rej(s, "DuplicateStateTransition")
  ELSE Put(s, LAMBDA e : [e EXCEPT !.next[c] = t, !.out = TRUE])

\* several classes at once: one after the other, the first one rejected ends the operation
RECURSIVE TransAll(_,_,_)
TransAll(s, cs, t) ==
  IF cs = <<>> THEN [s |-> s, r |-> StmOk]
  ELSE LET x == Trans(s, cs[1], t) IN IF x.r # StmOk THEN x ELSE TransAll(x.s, Tail(cs), t)

\* Dump of a state: fallback, error, action, argument, transitions (each plus one), has any transition
Dump(e) == LET D == <<e.fall, e.miss, e.op, e.arg>> \o [k \in 1..NofClasses |-> e.next[k - 1]] \o <<IF e.out THEN 1 ELSE 0>>
           IN [k \in 1..Len(D) |-> D[k] + 1]

\* a: sequence of arguments
ApplyStm(s, op, a) ==
  CASE op = "sta" -> IF a[1] # Len(s) THEN Rej(s, "StateNumbersNotAscending")
                     ELSE IF Len(s) >= MaxStates THEN Rej(s, "DimOutOfRange")
                     ELSE [s |-> Append(s, NoState), r |-> StmOk]
    [] op = "tra" -> TransAll(s, Tail(a), a[1])
    [] op = "slf" -> IF s = <<>> THEN Rej(s, "InvalidState") ELSE Trans(s, a[1], Self(s))
    [] op = "oth" -> IF s = <<>> THEN Rej(s, "InvalidState")
                     ELSE IF ~Target(a[1]) THEN Rej(s, "InvalidParamState")
                     ELSE Put(s, LAMBDA e : [e EXCEPT !.next = [c \in 0..NofClasses - 1 |-> IF c # EndOfText /\ @[c] = -1 THEN a[1] ELSE @[c]], !.out = TRUE])
    [] op = "act" -> IF s = <<>> THEN Rej(s, "InvalidState")
                     ELSE IF s[Len(s)].op # -1 THEN Rej(s, "InvalidState")
                     ELSE Put(s, LAMBDA e : [e EXCEPT !.op = a[1], !.arg = IF Len(a) > 1 THEN a[2] ELSE 0])
    [] op = "mis" -> IF s = <<>> THEN Rej(s, "InvalidState")
                     ELSE IF s[Len(s)].miss # -1 THEN Rej(s, "InvalidState")
                     ELSE Put(s, LAMBDA e : [e EXCEPT !.miss = a[1]])
    [] op = "fal" -> IF s = <<>> THEN Rej(s, "InvalidState")
                     ELSE IF s[Len(s)].fall # -1 THEN Rej(s, "InvalidState")
                     ELSE IF ~Target(a[1]) THEN Rej(s, "InvalidParamState")
                     ELSE Put(s, LAMBDA e : [e EXCEPT !.fall = a[1]])
    [] op = "get" -> IF a[1] \notin 0..Len(s) - 1 THEN Rej(s, "InvalidState") ELSE [s |-> s, r |-> <<"", Dump(s[a[1] + 1])>>]

\* where several reasons apply, the exception names one of them
Reasons(s, op, a) ==
  LET One(c, t) == (IF c \notin 0..NofClasses - 1 THEN {"InvalidParamChar"} ELSE IF s[Len(s)].next[c] # -1 THEN {"DuplicateStateTransition"} ELSE {})
                   \cup (IF ~Target(t) THEN {"InvalidParamState"} ELSE {})
  IN CASE op = "sta" -> (IF a[1] # Len(s) THEN {"StateNumbersNotAscending"} ELSE {}) \cup (IF Len(s) >= MaxStates THEN {"DimOutOfRange"} ELSE {})
       [] s = <<>> -> {"InvalidState"}
       [] op = "tra" -> UNION {One(a[k], a[1]) : k \in 2..Len(a)}
       [] op = "fal" -> (IF s[Len(s)].fall # -1 THEN {"InvalidState"} ELSE {}) \cup (IF ~Target(a[1]) THEN {"InvalidParamState"} ELSE {})
       [] OTHER -> {}
StmArgs(a) == [k \in 1..Len(a) |-> a[k][1]]
ApplyMap(s, op, a) ==
  CASE op = "one" -> [s |-> [s EXCEPT ![a[1]] = a[2]], r |-> StmOk]
    [] op = "two" -> [s |-> [s EXCEPT ![a[1]] = a[2], ![a[3]] = a[4]], r |-> StmOk]
    [] op = "rng" -> [s |-> [c \in DOMAIN s |-> IF c \in a[1]..a[2] THEN a[3] ELSE s[c]], r |-> StmOk]
    [] op = "get" -> [s |-> s, r |-> <<"", <<s[a[1]]>>>>]
DoStm(p, s, op, a, r) ==
  IF p.map > 0 THEN LET x == ApplyMap(s, op, StmArgs(a)) IN [s |-> x.s, ok |-> r = x.r]
  ELSE IF op = "nam" THEN [s |-> s, ok |-> r = <<"", a[2]>>]
  ELSE LET x == ApplyStm(s, op, StmArgs(a))
       IN [s |-> x.s, ok |-> r = x.r \/ (x.r[1] \notin {"ok", ""} /\ \E c \in Reasons(s, op, StmArgs(a)) : r = Exc(c))]
=============================================================================
