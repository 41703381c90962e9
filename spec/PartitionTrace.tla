--------------------------- MODULE PartitionTrace ---------------------------
EXTENDS Partition, TraceKit
VARIABLE i
E == Trace[i]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
Begin == Is("begin")
Part == Is("part") /\ E.ok = Splits(E.b, E.from, E.to) /\ (IF E.ok THEN PartOk(E.b, E.from, E.to, E.out[1]) ELSE E.out = << >>) = TRUE
Frames == Is("frames") /\ E.kept /\ FramesOk(E.b, E.pd, E.ok, E.outs) = TRUE
Const == Is("const") /\ E.c = OneLength(E.q)
Length == Is("len") /\ E.ok = (E.p \in 1..3) /\ (E.ok => E.pd = E.f) = TRUE
TraceSpec == i = 1 /\ [][Begin \/ Part \/ Frames \/ Const \/ Length]_i
TraceAccepted == Accepted
=============================================================================
