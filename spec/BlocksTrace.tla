----------------------------- MODULE BlocksTrace -----------------------------
EXTENDS Blocks, TraceKit
VARIABLE l
Sched(ev) == /\ ev.e = "sched"
             /\ LET ok == IF ev.even THEN EvenOk(ev.dur, ev.const) ELSE UnevenOk(ev.list)
                    s == IF ev.even THEN Even(ev.dur, ev.const) ELSE Uneven(ev.list)
                    in(i) == i >= 0 /\ i < ev.n
                IN /\ ev.ok = ok
                   /\ ok => /\ ev.n = Count(s) /\ ev.gd = s.dur /\ ev.gc = s.const
                            /\ \A k \in 1..Len(ev.q) : ev.q[k].ok = in(ev.q[k].i) /\ (IF in(ev.q[k].i) THEN ev.q[k].v = Long(s, ev.q[k].i + 1) ELSE TRUE) = TRUE
DW(ev) == ev.e = "dw" /\ LET ok == WDefOk(ev.x, ev.mode) IN ev.ok = ok /\ (ok => ev.bytes = WDef(ev.x, ev.mode))
DR(ev) == /\ ev.e = "dr"
          /\ LET s == TLCEval(RDef(ev.d, 0, ev.kind)) IN
             /\ ev.ok = (s.st = "OK")
             /\ ev.ok => /\ ev.pos = s.p
                         /\ IF ev.kind = "ext" THEN ev.x.bytes = s.r.bytes
                            ELSE ev.x.id = s.r.id /\ ev.x.rate = s.r.rate /\ ev.x.res = s.r.res /\ ev.x.sch = s.r.sch /\ ev.x.vals = s.r.vals
Longs(s) == [i \in 1..(IF Count(s) < 300 THEN Count(s) ELSE 300) |-> Long(s, i)]
BW(ev) == /\ ev.e = "bw" /\ ~ev.other
          /\ LET ok == WBlockOk(ev.x, ev, ev.mode) /\ LebFits(Pair(Len(WBlock(ev.x, ev, ev.mode)) + Len(ev.footer)), ev.mode) s == IF ev.sch = << >> THEN ev.x.sch[1] ELSE ev.sch[1] IN
             /\ ev.ok = ok
             /\ ev.dur = s.dur /\ ev.count = Count(s) /\ ev.made = Count(s) /\ ev.longs = Longs(s)
             /\ ok => ev.bytes = WBlock(ev.x, ev, ev.mode) \o ev.footer
BR(ev) == /\ ev.e = "br"
          /\ LET s == TLCEval(RBlock(ev.x, ev.d, ev.n)) IN
             /\ ev.ok = (s.st = "OK")
             /\ ev.ok => /\ ev.pos = s.p /\ ev.footer = s.r.footer /\ ev.id = s.r.id /\ ev.subs = s.r.data
                         /\ LET c == s.r.sch[1] IN ev.dur = c.dur /\ ev.const = c.const /\ ev.count = Count(c) /\ ev.longs = Longs(c)
Id(ev) == ev.e = "id" /\ ev.pos = 0 /\ LET x == LebAt(ev.d, 0) IN ev.ok = (x.st = "OK") /\ (ev.ok => ev.id = x.v)
Gains(ev) == /\ ev.e = "gains" /\ ev.ok = ~ev.wrong
             /\ \A k \in 1..Len(ev.at) : (LET h == Holder(ev.longs, ev.at[k], 1, 0) IN
                  IF ev.wrong \/ h.i = 0 THEN ev.v[k] = 2000000000 ELSE GainOk(ev.a[h.i], ev.longs[h.i], ev.at[k] - h.from, ev.v[k])) = TRUE
Data1(ev) == /\ ev.e = "data"
             /\ LET s == TLCEval(RData(ev.x, ev.d, Start(0))) IN ev.ok = (s.st = "OK") /\ (ev.ok => ev.pos = s.p /\ ev.v = s.r.v)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN ev.e = "begin" \/ Sched(ev) \/ DW(ev) \/ DR(ev) \/ BW(ev) \/ BR(ev) \/ Id(ev) \/ Gains(ev) \/ Data1(ev) \/ (ev.e = "none" /\ ~ev.other)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
