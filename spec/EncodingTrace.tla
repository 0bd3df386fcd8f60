---- MODULE EncodingTrace ----
EXTENDS Encoding, Json, IOUtils
VARIABLES i, n, slots, ok
Traces == JsonDeserialize(IOEnv.TRACE)
INSTANCE ScriptTrace WITH Runs <- Traces.runs, NewState <- NewEncoding, Do <- DoEncoding, DifOk <- DifEncoding
====
