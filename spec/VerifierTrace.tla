--------------------------- MODULE VerifierTrace ---------------------------
EXTENDS Verifier, TraceKit
VARIABLE l
Ev == Trace[l]
IsEv(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
Empty == [mp4 |-> FALSE, missing |-> "none yet"]
TraceInit == l = 1 /\ w = Empty /\ called = {} /\ decoded = {} /\ verdict = "none"
ReportSays(v, r, p, f) ==
  IF v = "exception" THEN r = << >>
  ELSE /\ r = << (IF v = "success" THEN "PASS" ELSE "FAIL") >>
       /\ (v = "success" <=> f = 0)
       /\ (v = "success" => p >= Cardinality(Required \ {"gpac"}) + Cardinality(Wanted(w)))
TraceNext ==
  \/ IsEv("begin") /\ Start(Ev)
  \/ IsEv("gpac") /\ Gpac(Ev.file)
  \/ IsEv("cw") /\ Warden(Ev.file, Ev.spec)
  \/ IsEv("loudness") /\ Loudness(Ev.file1, Ev.file2, Ev.tolerance)
  \/ IsEv("opus") /\ Opus(Ev.file)
  \/ IsEv("decode") /\ Decode(Ev.file, Ev.mix, Ev.layout)
  \/ IsEv("verdict") /\ Verdict(Ev.code) /\ ReportSays(Ev.code, Ev.report, Ev.passes, Ev.fails)
TraceSpec == TraceInit /\ [][TraceNext]_<< vars, l >>
TraceAccepted == Accepted
=============================================================================
