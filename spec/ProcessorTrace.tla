--------------------------- MODULE ProcessorTrace ---------------------------
EXTENDS Processor, TraceKit
VARIABLES l, cfg, s
tv == <<l, cfg, s>>
NoCfg == [kind |-> "none", nch |-> 0, max |-> 0, delay |-> 0, bits |-> 16]
Step(st) == s' = st /\ UNCHANGED cfg
Begin(ev) == /\ ev.e = "begin"
             /\ cfg' = [kind |-> ev.kind, nch |-> ev.nch, max |-> ev.max, delay |-> ev.delay, bits |-> ev.bits]
             /\ s' = Start(cfg') /\ ev.ok = (ev.kind # "wav" \/ ev.bits \in {16, 24, 32}) /\ ev.channels = ev.nch
             /\ (~ev.ok => ~ev.exists)
OutOK(o, out) == IF o.any THEN Len(out) = cfg.nch ELSE out = o.v
\* an error of the implementation itself, whose state the contract leaves alone
\* -1: an implementation that does not count its calls
Reached(ev, r) == ev.reached \in {-1, IF r.reached THEN 1 ELSE 0}
PushE(ev) == /\ ev.e = "push"
             /\ IF ev.fails /\ s.phase = "taking" /\ GoodFrame(cfg, ev.frame)
                THEN /\ ev.status = "OTHER" /\ ev.reached = 1 /\ Len(ev.out) = cfg.nch /\ Step([s EXCEPT !.out = Unspecified])
                ELSE LET r == Push(cfg, s, ev.frame, ev.nan) IN
                     /\ ev.status = r.status /\ Reached(ev, r) /\ OutOK(r.s.out, ev.out) /\ Step(r.s)
FlushE(ev) == /\ ev.e = "flush"
              /\ IF ev.fails /\ s.phase = "taking"
                 THEN ev.status = "OTHER" /\ ev.reached = 1 /\ Len(ev.out) = cfg.nch /\ Step([s EXCEPT !.phase = "flushed", !.out = Unspecified])
                 ELSE LET r == Flush(cfg, s) IN
                      /\ ev.status = r.status /\ Reached(ev, r) /\ OutOK(r.s.out, ev.out) /\ Step(r.s)
AbortE(ev) == ev.e = "abort" /\ ~ev.exists /\ Step(Abort(s))
\* the file holds the samples written, left-justified, low byte first
Bytes(v) == LET k == cfg.bits \div 8
                u == IF v < 0 THEN v + 65536 ELSE v
            IN [i \in 1..(k - 2) |-> 0] \o <<u % 256, u \div 256>>
RECURSIVE Cat(_, _)
Cat(q, i) == IF i > Len(q) THEN << >> ELSE Bytes(q[i]) \o Cat(q, i + 1)
FileE(ev) == /\ ev.e = "file" /\ UNCHANGED <<cfg, s>>
             /\ IF s.file = "removed" THEN ~ev.exists
                ELSE /\ ev.exists /\ ev.bytes = Cat(s.written, 1)
                     /\ (ev.header => ev.h_data = Len(ev.bytes) /\ ev.h_channels = cfg.nch /\ ev.h_rate = ev.rate /\ ev.h_bits = cfg.bits)
Big == 1000000
Lim(x) == IF x[2] > 0 \/ x[1] > 10000 THEN Big ELSE x[1]
ArrangeE(ev) == /\ ev.e = "arrange"
                /\ LET r == Arrange(ev.have, ev.ordered, ev.silence, IF ev.trim_start THEN Lim(ev.start) ELSE 0,
                                    IF ev.trim_end THEN Lim(ev.end) ELSE 0)
                   IN IF ev.ordered = << >> THEN ev.ok
                      ELSE IF r.ok THEN ev.ok /\ ev.n = r.n /\ ev.out = r.v ELSE ~ev.ok
                /\ UNCHANGED <<cfg, s>>
PresentE(ev) == /\ ev.e = "present" /\ UNCHANGED <<cfg, s>>
                /\ LET r == Present(ev.have, ev.labels) IN ev.ok = r.ok /\ (r.ok => ev.n = r.n)
CommonE(ev) == /\ ev.e = "common" /\ UNCHANGED <<cfg, s>>
               /\ ev.ok = Rect(ev.frame) /\ (ev.ok => ev.n = Ticks(ev.frame))
\* a sample of value 666 makes the transformation fail; others are doubled
Dbl(q) == [i \in 1..Len(q) |-> 2 * q[i]]
ToCT(ev) == /\ ev.e = "to_channels" /\ UNCHANGED <<cfg, s>>
            /\ IF Len(ev.in) % ev.nch # 0 \/ \E i \in 1..Len(ev.in) : ev.in[i] = 666 THEN ~ev.ok
               ELSE ev.ok /\ ev.out = Deinterleave(Dbl(ev.in), ev.nch)
ToIL(ev) == /\ ev.e = "to_interleaved" /\ UNCHANGED <<cfg, s>>
            /\ IF ~Rect(ev.frame) \/ \E c \in 1..Len(ev.frame) : \E i \in 1..Len(ev.frame[c]) : ev.frame[c][i] = 666 THEN ~ev.ok
               ELSE ev.ok /\ ev.out = Dbl(Interleave(ev.frame))
TraceInit == l = 1 /\ cfg = NoCfg /\ s = Start(NoCfg)
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Begin(ev) \/ PushE(ev) \/ FlushE(ev) \/ AbortE(ev) \/ FileE(ev) \/ ArrangeE(ev) \/ PresentE(ev)
                                      \/ CommonE(ev) \/ ToCT(ev) \/ ToIL(ev)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tv
TraceAccepted == Accepted
=============================================================================
