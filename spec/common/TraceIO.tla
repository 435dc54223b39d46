------------------------------ MODULE TraceIO ------------------------------
(* A recorded run of the real code: one JSON object per event, a "start" event opens a scenario. *)
EXTENDS IOUtils, Json, Sequences, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Has(r, f) == f \in DOMAIN r
Get(r, f, default) == IF f \in DOMAIN r THEN r[f] ELSE default
=============================================================================
