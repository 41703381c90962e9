------------------------------ MODULE LpcmTrace ------------------------------
EXTENDS Lpcm, TraceKit
VARIABLES l, cfg, st, dec
tv == <<l, cfg, st, dec>>
NoCfg == [size |-> 16, flags |-> 0, rate |-> 48000, nch |-> 1, spf |-> 1]
Code(c, roll) == IF roll # 0 THEN "INVALID" ELSE IF c.flags \notin {0, 1} THEN "UNIMPLEMENTED"
                 ELSE IF Valid(c) THEN "OK" ELSE "INVALID"
Cfg(ev) == [size |-> ev.size, flags |-> ev.flags, rate |-> ev.rate]
ConfigE(ev) == /\ ev.e = "config" /\ UNCHANGED <<cfg, st, dec>>
               /\ LET c == Cfg(ev) IN
                  /\ ev.status = Code(c, ev.roll) /\ (ev.write # "OK") = (ev.status # "OK")
                  /\ (ev.write = "OK" => ev.bytes = <<ev.flags, ev.size, 0, ev.rate \div 65536, (ev.rate \div 256) % 256, ev.rate % 256>>)
                  /\ ev.read = ev.status /\ (ev.status = "OK" => ev.same)
                  /\ ev.decoder = (Code(c, 0) = "OK")
                  /\ ev.little = (ev.flags % 2 = 1)
CountE(ev) == ev.e = "count" /\ ev.ok = (ev.n \in {1, 2}) /\ (ev.ok => ev.got = ev.n) /\ UNCHANGED <<cfg, st, dec>>
Begin(ev) == /\ ev.e = "begin" /\ ev.ok /\ ev.delay = 0
             /\ cfg' = [size |-> ev.size, flags |-> ev.flags, rate |-> ev.rate, nch |-> ev.nch, spf |-> ev.spf]
             /\ st' = NewEnc /\ dec' = << >>
Obs(ev, s) == ev.available = (s.pending # << >>) /\ ev.finished = Finished(s)
EncodeE(ev) == /\ ev.e = "encode" /\ UNCHANGED <<cfg, dec>>
               /\ LET r == Enc(cfg, cfg.nch, cfg.spf, st, ev.id, ev.frame) IN
                  ev.ok = r.ok /\ st' = r.st /\ Obs(ev, r.st)
FinalizeE(ev) == ev.e = "finalize" /\ ev.ok /\ st' = Finalize(st) /\ Obs(ev, st') /\ UNCHANGED <<cfg, dec>>
PopE(ev) == /\ ev.e = "pop" /\ ev.ok /\ UNCHANGED <<cfg, dec>>
            /\ LET r == Pop(st) IN st' = r.st /\ Obs(ev, r.st) /\ ev.got = [i \in 1..Len(r.got) |-> r.got[i].id]
                                   /\ ev.bytes = [i \in 1..Len(r.got) |-> r.got[i].bytes] /\ ev.kept
DecodeE(ev) == /\ ev.e = "decode" /\ UNCHANGED <<cfg, st>>
               /\ IF DecOK(ev.bytes, cfg, cfg.nch, cfg.spf)
                  THEN /\ ev.ok /\ dec' = DecodeSeq(ev.bytes, K(cfg), cfg.nch, Big(cfg)) /\ ev.out = dec'
                  ELSE ~ev.ok /\ UNCHANGED dec
TraceInit == l = 1 /\ cfg = NoCfg /\ st = NewEnc /\ dec = << >>
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN ConfigE(ev) \/ CountE(ev) \/ Begin(ev) \/ EncodeE(ev) \/ FinalizeE(ev) \/ PopE(ev) \/ DecodeE(ev)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tv
TraceAccepted == Accepted
=============================================================================
