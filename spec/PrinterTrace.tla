---- MODULE PrinterTrace ----
(***************************************************************************)
(* Recorded calls of the printer.  p: app, io names of the encodings, sub, *)
(* wide (null terminated arguments are ASCII).  Arguments are bytes: texts *)
(* in the application encoding up to the first null character, optional    *)
(* strings start with 0 (null pointer) or 1.  Result: accepted (0 or 1)    *)
(* followed by the bytes written.                                          *)
(***************************************************************************)
EXTENDS PrinterOps, Json, IOUtils
VARIABLES i, n, slots, ok
Traces == JsonDeserialize(IOEnv.TRACE)
NoDif(p, s, t, r) == TRUE
INSTANCE ScriptTrace WITH Runs <- Traces.runs, NewState <- NewP, Do <- DoP, DifOk <- NoDif
====
