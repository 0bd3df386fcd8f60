----------------------------- MODULE Components -----------------------------
(***************************************************************************)
(* All components as one: objects of any kind, each with a state of its    *)
(* own and the operations of its component.                                *)
(* P: [k |-> kind of the object, p |-> parameters of its component]        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
Src == INSTANCE Source
Buf == INSTANCE Buffer
Stk == INSTANCE TagStack
Hdr == INSTANCE Header
Txt == INSTANCE Text
Prn == INSTANCE PrinterOps
Sel == INSTANCE PathOps
Pip == INSTANCE Pipeline

NewC(P) == CASE P.k = "src" -> Src!New(P.p)
             [] P.k = "buf" -> Buf!NewBuf(P.p)
             [] P.k = "stack" -> Stk!NewStack(P.p)
             [] P.k = "hdr" -> Hdr!NewHdr(P.p)
             [] P.k = "text" -> Txt!NewText(P.p)
             [] P.k = "prn" -> Prn!NewP(P.p)
             [] P.k = "path" -> Sel!NewSel(P.p)
             [] P.k = "pipe" -> Pip!NewPipe(P.p)
DoC(P, s, op, a, r) ==
  CASE P.k = "src" -> Src!DoSource(P.p, s, op, a, r)
    [] P.k = "buf" -> Buf!DoBuf(P.p, s, op, a, r)
    [] P.k = "stack" -> Stk!DoStack(P.p, s, op, a, r)
    [] P.k = "hdr" -> Hdr!DoHdr(P.p, s, op, a, r)
    [] P.k = "text" -> Txt!DoText(P.p, s, op, a, r)
    [] P.k = "prn" -> Prn!DoP(P.p, s, op, a, r)
    [] P.k = "path" -> Sel!DoSel(P.p, s, op, a, r)
    [] P.k = "pipe" -> Pip!DoPipe(P.p, s, op, a, r)
=============================================================================
