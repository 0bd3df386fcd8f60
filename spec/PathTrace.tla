------------------------------ MODULE PathTrace ------------------------------
(* Recorded definitions, events and selections; p: src, atm encodings *)
EXTENDS PathOps, Json, IOUtils
VARIABLES i, n, slots, ok
Traces == JsonDeserialize(IOEnv.TRACE)
NoDif(p, s, t, r) == TRUE
INSTANCE ScriptTrace WITH Runs <- Traces.runs, NewState <- NewSel, Do <- DoSel, DifOk <- NoDif
=============================================================================
