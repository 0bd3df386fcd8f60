---- MODULE TagStackTrace ----
EXTENDS TagStack, Json, IOUtils
VARIABLES i, n, slots, ok
Traces == JsonDeserialize(IOEnv.TRACE)
NoDif(p, s, t, r) == TRUE
INSTANCE ScriptTrace WITH Runs <- Traces.runs, NewState <- NewStack, Do <- DoStack, DifOk <- NoDif
====
