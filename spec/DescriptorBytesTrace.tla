------------------------ MODULE DescriptorBytesTrace ------------------------
EXTENDS DescriptorBytes, TraceKit
VARIABLE l
W(ev) == /\ ev.e = "w" /\ ev.kept /\ ev.h.type = TypeOf(ev.k)
         /\ LET b == TLCEval(Payload(ev.k, ev.x, ev.h.flag, ev.mode) \o ev.footer)
                extn == IF ev.h.has_ext THEN Len(ev.h.ext) ELSE -1
                ok == PayloadOk(ev.k, ev.x, ev.h.flag, ev.mode) /\ WOk(ev.h, extn, Pair(Len(b)), ev.mode)
            IN ev.ok = ok /\ (ok => ev.bytes = WHeader(ev.h, Pair(Len(b)), ev.mode) \o b)
Rates(ev, x) == ev.out = OutRate(x) /\ ev.in = InRate(x) /\ ev.bits = Bits(x, 16) /\ ev.ll = (x.codec \in {Flac, Lpcm})
\* the reserved bits of an element are seen by writing it: demixing and recon gain
\* definitions without a schedule are read, but not written
RR(ev) == /\ ev.e = "r"
          /\ LET s == TLCEval(Read(ev.k, ev.d, ev.n, ev.flag)) IN
             /\ ev.ok = (s.st = "OK")
             /\ ev.ok => /\ ev.pos = s.p /\ ev.footer = s.r.footer /\ ev.type
                         /\ ev.x = (IF ev.k = "element" /\ ~ElementOk(s.r.x, 0) THEN [s.r.x EXCEPT !.res = -1] ELSE s.r.x)
                         /\ ev.k = "codec" => Rates(ev.more, s.r.x) /\ ev.more.frame = s.r.x.frame
                         /\ ev.k = "element" => ev.more = ElementOk(s.r.x, 0)
CC(ev) == /\ ev.e = "cc" /\ ev.ok = Derivable(ev.x)
          /\ ev.ok => /\ ev.y = (IF ev.over THEN [ev.x EXCEPT !.roll = RollOf(ev.x.codec, ev.x.frame)] ELSE ev.x)
                      /\ Rates(ev, ev.x)
\* only Opus keeps its delay there
Delay(ev) == ev.e = "delay" /\ ev.ok /\ ev.y = (IF ev.x.codec = Opus THEN [ev.x EXCEPT !.cfg.skip = ev.v] ELSE ev.x)
Mono(ev) == ev.e = "mono" /\ ev.ok = MonoOk(ev.sub, ev.map) /\ (ev.ok => ev.y = [ch |-> Len(ev.map), sub |-> ev.sub, map |-> ev.map])
Proj(ev) == ev.e = "proj" /\ ev.ok = ProjOk(ev.ch, ev.sub, ev.coup, Len(ev.mat)) /\ (ev.ok => ev.y = [ch |-> ev.ch, sub |-> ev.sub, coup |-> ev.coup, mat |-> ev.mat])
Objects(ev) == ev.e = "objects" /\ ev.ok = ObjectsOk(ev.n) /\ (ev.ok => ev.y = [n |-> ev.n, bytes |-> ev.bytes])
Create(ev) == /\ ev.e = "create"
              /\ ev.ok = (Uniq(ev.x.subs) /\ (CASE ev.x.type = 0 -> ChannelOk(ev.x.cfg, Len(ev.x.subs)) [] ev.x.type = 1 -> ev.x.cfg.sub = Len(ev.x.subs) [] OTHER -> TRUE))
              /\ ev.ok => ev.y = ev.x /\ ev.ns = Pair(Len(ev.x.subs))
Off(ev) == /\ ev.e = "off" /\ ev.ok = (IF ev.t = 1 /\ ev.v # << >> THEN OffOk(ev) ELSE ev.t > 1) /\ (ev.ok => ev.y = [t |-> ev.t, v |-> ev.v, b |-> ev.b])
Speak(ev) == ev.e = "speakers" /\ ev.ok = (Speakers(ev.t, ev.ss) > 0) /\ (ev.ok => ev.n = Speakers(ev.t, ev.ss))
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN ev.e = "begin" \/ W(ev) \/ RR(ev) \/ CC(ev) \/ Delay(ev) \/ Mono(ev) \/ Proj(ev) \/ Objects(ev) \/ Create(ev) \/ Off(ev) \/ Speak(ev)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
