---- MODULE BufferTrace ----
EXTENDS Buffer, Json, IOUtils
VARIABLES i, n, slots, ok
Traces == JsonDeserialize(IOEnv.TRACE)
NoDif(p, s, t, r) == TRUE
INSTANCE ScriptTrace WITH Runs <- Traces.runs, NewState <- NewBuf, Do <- DoBuf, DifOk <- NoDif
====
