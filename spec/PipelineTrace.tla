---- MODULE PipelineTrace ----
EXTENDS Pipeline, Json, IOUtils
VARIABLES i, n, slots, ok
Traces == JsonDeserialize(IOEnv.TRACE)
NoDif(p, s, t, r) == TRUE
INSTANCE ScriptTrace WITH Runs <- Traces.runs, NewState <- NewPipe, Do <- DoPipe, DifOk <- NoDif
====
