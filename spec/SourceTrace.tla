---- MODULE SourceTrace ----
EXTENDS Source, Json, IOUtils
VARIABLES i, n, slots, ok
Traces == JsonDeserialize(IOEnv.TRACE)
INSTANCE ScriptTrace WITH Runs <- Traces.runs, NewState <- New, Do <- DoSource, DifOk <- DifSource
====
