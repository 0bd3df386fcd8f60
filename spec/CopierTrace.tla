---- MODULE CopierTrace ----
EXTENDS Copier, Json, IOUtils
VARIABLES i, n, slots, ok
Traces == JsonDeserialize(IOEnv.TRACE)
NoDif(p, s, t, r) == TRUE
INSTANCE ScriptTrace WITH Runs <- Traces.runs, NewState <- NewCopier, Do <- DoCopier, DifOk <- NoDif
====
