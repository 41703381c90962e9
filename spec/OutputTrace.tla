---------------------------- MODULE OutputTrace ----------------------------
EXTENDS Output, TraceKit
VARIABLE l
SetOf(q) == {q[i] : i \in 1..Len(q)}
ReorderE(ev) == ev.e = "reorder" /\ [ok |-> ev.ok, v |-> ev.out] \in Reorder(ev.system, ev.android, ev.frame)
ToIntE(ev) == ev.e = "to_internal" /\ [type |-> ev.type, ss |-> ev.ss] = ToInternal(ev.api) /\ ev.reserved = 0
ToIntNone(ev) == ev.e = "to_internal_none" /\ ~ev.some
ToPubE(ev) == ev.e = "to_public" /\ LET r == ToPublic([type |-> ev.type, ss |-> ev.ss]) IN
                IF ev.mismatch THEN ~ev.ok ELSE ev.ok = r.ok /\ (r.ok => ev.v = r.v)
CountE(ev) == ev.e = "channels" /\ LET r == NumChannels([type |-> ev.type, ss |-> ev.ss]) IN ev.ok = r.ok /\ (r.ok => ev.v = r.v)
\* the profiles of the public interface keep their numbers; the others have none there
ProfE(ev) == ev.e = "profile" /\ ev.ok = (ev.internal \in 0..2) /\ (ev.ok => ev.v = ev.internal /\ ev.back = ev.internal)
PcmE(ev) == ev.e = "pcm" /\ IF ev.bits % 8 # 0 THEN ~ev.ok
                            ELSE IF Len(ev.frame[1]) = 0 THEN ev.ok /\ ev.bytes = << >>
                            ELSE IF ev.bits \notin {8, 16, 24, 32} THEN ~ev.ok
                            ELSE ev.ok /\ ev.bytes = Pcm(ev.frame, ev.bits, ev.big)
CommonE(ev) == ev.e = "common" /\ LET r == Common(SetOf(ev.rates), SetOf(ev.depths)) IN
                 ev.ok = r.ok /\ ev.resample = r.resample /\ (r.ok => ev.rate = r.rate /\ ev.bits = r.bits)
SpfE(ev) == ev.e = "spf" /\ (ev.ok <=> \A i, j \in 1..Len(ev.sizes) : ev.sizes[i] = ev.sizes[j]) /\ (ev.ok /\ ev.sizes # << >> => ev.v = ev.sizes[1])
StatusE(ev) == ev.e = "status" /\ ev.ok = ev.success /\ ev.kept = (IF ev.success THEN "" ELSE ev.msg)
               /\ ev.copied = ev.kept /\ ev.copied_ok = ev.success
               /\ ev.text = IF ev.success THEN "Success\n" ELSE "Failure: " \o ev.msg \o "\n"
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN ReorderE(ev) \/ ToIntE(ev) \/ ToIntNone(ev) \/ ToPubE(ev) \/ CountE(ev) \/ ProfE(ev) \/ PcmE(ev)
                                      \/ CommonE(ev) \/ SpfE(ev) \/ StatusE(ev)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
