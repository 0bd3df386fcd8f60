---- MODULE StreamTrace ----
EXTENDS Stream, Json, IOUtils
VARIABLES i, n, slots, ok
Traces == JsonDeserialize(IOEnv.TRACE)
NoDif(p, s, t, r) == TRUE
INSTANCE ScriptTrace WITH Runs <- Traces.runs, NewState <- NewStream, Do <- DoStream, DifOk <- NoDif
====
