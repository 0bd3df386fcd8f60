------------------------------ MODULE Encoding ------------------------------
(***************************************************************************)
(* Objects of a character set encoding: for the IsoLatin family an object  *)
(* is bound to a code page, the others have no state.  Printing does not   *)
(* change an object; two objects are equal exactly if they assign the same *)
(* characters to the same bytes; a copy is bound to the page of its        *)
(* original at the time of copying; a page that is not supported is        *)
(* rejected.                                                               *)
(* p: cls   name of the class, names  the code pages by index              *)
(* state: the index of the code page (0: the class has none)               *)
(***************************************************************************)
EXTENDS Charset

NewEncoding(p) == IF p.cls = "IsoLatin" THEN (IF p.page = 0 THEN 1 ELSE p.page) ELSE 0
NameOf(p, s) == IF p.cls = "IsoLatin" THEN p.names[s] ELSE p.cls
Val(v) == <<"", <<v>>>>
Fine == <<"ok", <<>>>>
NotSupported == <<"EXC/CodePageIndexNotSupported/CodePageIndexNotSupported", <<>>>>
SamePage(s, t) == s = t \/ (s > 0 /\ t > 0 /\ Page(<<"ISO1","ISO2","ISO3","ISO4","ISO5","ISO6","ISO7","ISO8","ISO9">>[s])
                                          = Page(<<"ISO1","ISO2","ISO3","ISO4","ISO5","ISO6","ISO7","ISO8","ISO9">>[t]))
Bool(b) == Val(IF b THEN 1 ELSE 0)
Unit(n) == CASE Utf16(n) \/ Ucs2(n) -> 2 [] Ucs4(n) -> 4 [] OTHER -> 1

DoEncoding(p, s, op, a, r) ==
  LET x == IF Len(a) > 0 /\ Len(a[1]) > 0 THEN a[1][1] ELSE 0
      Is(v) == [s |-> s, ok |-> r = v]
  IN CASE op = "pg" -> IF x \in 1..9 THEN [s |-> IF p.cls = "IsoLatin" THEN x ELSE 0, ok |-> r = Fine] ELSE Is(NotSupported)
       [] op = "chr" -> Is(<<"", Print(NameOf(p, s), x)>>)
       [] op = "eq" -> Is(Bool(p.cls # "IsoLatin" \/ SamePage(s, x)))
       [] op = "unit" -> Is(Val(Unit(NameOf(p, s))))
       \* the character reference of x as null terminated string in a buffer of a[2] bytes
       [] op = "ref" -> IF Len(Ref(x)) < a[2][1] THEN Is(<<"", Ref(x)>>) ELSE Is(<<"short", <<>>>>)
DifEncoding(p, s, t, r) == r = Bool(p.cls # "IsoLatin" \/ SamePage(s, t))
=============================================================================
