--------------------------- MODULE ProbeJsonTrace ---------------------------
EXTENDS ProbeJson, TraceKit
VARIABLE l
Write(ev) == ev.e = "json" /\ Says("Report", ev.report, Document(ev.text)) /\ ev.text[Len(ev.text)] = "x0a"
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Write(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
