----------------------------- MODULE ProbeTrace -----------------------------
EXTENDS Probe, TraceKit
VARIABLES i, tab, heads, seen
E == Trace[i]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
Begin == Is("begin") /\ UNCHANGED <<tab, heads, seen>>
Stream == Is("stream") /\ tab' = TLCEval(Cut(E.d)) /\ heads' = TLCEval(Heads(tab')) /\ seen' = << >>
RateOk(want, rate, total, secs) == IF rate = << >> THEN want = << >> /\ secs = << >> ELSE want = rate /\ Len(secs) = 1 /\ (~IsSmall(rate[1]) \/ SecondsOk(total, Small(rate[1]), secs[1]))
ScanOk(w, d) ==
  LET defs == Definitions(d) x == [owners |-> Owners(d), defs |-> defs, full |-> E.mode = 2, budget |-> E.budget, watch |-> E.watch, cancel |-> E.cancel]
      s == Scan(tab, E.n, w.pos, x) g == E.scan[1]
  IN \/ Vague(d, defs) = TRUE
     \/ /\ \A f \in {"tus", "frames", "blocks", "delims", "badf", "badb", "by", "list", "units", "end", "why"} : g[f] = s[f]
        /\ E.calls = s.calls
        /\ IF s.total = 0 THEN g.total = << >> /\ g.rate = << >> /\ g.secs = << >>
           ELSE g.total = <<Limb(s.total)>> /\ RateOk(g.rate, s.rate, <<s.total \div 65536, s.total % 65536>>, g.secs)
ReportOk(w) == LET y == Says(w.d, w.pos) g == E.rep[1] IN
  /\ \A f \in {"pp", "ppr", "ap", "apr", "end", "cc", "ae", "mix", "total"} : g[f] = y[f]
  /\ IF y.total = << >> THEN g.secs = << >> ELSE Len(g.secs) = 1 /\ SecondsOk(y.total[1], y.rate, g.secs[1])
ProbeOk(w) ==
  CASE w.st = "ok" -> /\ E.st = "ok"
                      /\ IF E.rep = << >> THEN seen # << >> ELSE ReportOk(w) = TRUE
                      /\ IF E.mode = 0 THEN E.scan = << >> /\ E.calls = << >> ELSE Len(E.scan) = 1 /\ ScanOk(w, w.d) = TRUE
    [] w.st = "bad" -> E.st = "bad" /\ E.scan = << >> /\ E.calls = << >>
    [] OTHER -> E.st = (IF E.file THEN "bad" ELSE "more") /\ E.scan = << >> /\ E.calls = << >>
Probe == Is("probe") /\ (LET w == Walk(heads, E.n) IN ProbeOk(w) /\ seen' = (IF w.st = "ok" THEN <<1>> ELSE seen)) /\ UNCHANGED <<tab, heads>>
TraceSpec == i = 1 /\ tab = << >> /\ heads = << >> /\ seen = << >> /\ [][Begin \/ Stream \/ Probe]_<<i, tab, heads, seen>>
TraceAccepted == Accepted
=============================================================================
