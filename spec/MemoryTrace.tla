---- MODULE MemoryTrace ----
EXTENDS Naturals, Integers, Sequences, Json, IOUtils
VARIABLES i, n, slots, armed, ok
Traces == JsonDeserialize(IOEnv.TRACE)
INSTANCE Memory WITH Runs <- Traces.runs
====
