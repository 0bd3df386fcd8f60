---- MODULE HeaderTrace ----
EXTENDS Header, Json, IOUtils
VARIABLES i, n, slots, ok
Traces == JsonDeserialize(IOEnv.TRACE)
NoDif(p, s, t, r) == TRUE
INSTANCE ScriptTrace WITH Runs <- Traces.runs, NewState <- NewHdr, Do <- DoHdr, DifOk <- NoDif
====
