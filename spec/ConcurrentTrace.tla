---- MODULE ConcurrentTrace ----
EXTENDS Naturals, Integers, Sequences, Json, IOUtils
VARIABLES i, n, objs, ok
Traces == JsonDeserialize(IOEnv.TRACE)
INSTANCE Concurrent WITH Runs <- Traces.runs
====
