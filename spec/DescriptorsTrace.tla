-------------------------- MODULE DescriptorsTrace --------------------------
EXTENDS Descriptors, TraceKit
VARIABLES i, obus
E == Trace[i]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
Set(s) == {s[j] : j \in 1..Len(s)}
Good(r) ==
  /\ E.st = r.st /\ E.more = (r.st = "more")
  /\ (r.st = "more" \/ r.back => E.pos = 0)
  /\ (r.st = "ok" => /\ E.pos = r.pos /\ <<E.h>> = r.d.h /\ E.mix = r.d.mix
                     /\ Set(E.cc) = Set(r.d.cc) /\ Len(E.cc) = Len(r.d.cc)
                     /\ Set(E.ae) = Set(r.d.ae) /\ Len(E.ae) = Len(r.d.ae))
Stream == Is("stream") /\ obus' = E.o
ParseIt == Is("parse") /\ UNCHANGED obus /\ LET r == TLCEval(Parse(obus, E.n, E.exact)) IN Good(r) = TRUE
TraceSpec == i = 1 /\ obus = << >> /\ [][Stream \/ ParseIt]_<<i, obus>>
TraceAccepted == Accepted
=============================================================================
