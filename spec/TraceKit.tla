------------------------------ MODULE TraceKit ------------------------------
(* The recorded execution of the implementation: one JSON object per line. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECT_AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
