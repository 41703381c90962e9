----------------------------- MODULE LayersTrace -----------------------------
EXTENDS Layers, TraceKit
VARIABLES i
E == Trace[i]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
Expect == LET r == CASE E.t = "channels" -> OfChannels(E.ids, E.layers)
                     [] E.t = "mono" -> OfMono(E.ids, E.count, E.map)
                     [] E.t = "projection" -> OfProjection(E.ids, E.channels, E.count, E.pairs)
                     [] OTHER -> Bad
          IN IF E.codec THEN r ELSE Bad
Element == Is("element") /\ (LET r == TLCEval(Expect) IN
             E.ok = r.ok /\ (r.ok => E.subs = r.subs /\ ToSet(E.gains) = r.gains /\ Len(E.gains) = Cardinality(r.gains) /\ E.nums = r.nums)) = TRUE
TraceSpec == i = 1 /\ [][Element]_i
TraceAccepted == Accepted
=============================================================================
