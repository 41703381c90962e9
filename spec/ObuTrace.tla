------------------------------ MODULE ObuTrace ------------------------------
EXTENDS Obu, TraceKit
VARIABLE l
H(ev) == [type |-> ev.h.type, red |-> ev.h.red, flag |-> ev.h.flag, te |-> ev.h.te, ts |-> ev.h.ts, has_ext |-> ev.h.has_ext, ext |-> ev.h.ext]
\* what reading shows: trims are only there when signalled
Shown(h) == [h EXCEPT !.te = IF Trims(h) THEN h.te ELSE <<0, 0>>, !.ts = IF Trims(h) THEN h.ts ELSE <<0, 0>>]
\* a header is written for a payload of n bytes: all of it or nothing
HW(ev) == /\ ev.e = "hw"
          /\ LET ok == ev.n # << >> /\ WOk(H(ev), ev.extn, ev.n, ev.mode) IN
             /\ ev.ok = ok
             /\ ev.long \/ ev.bytes = (IF ok THEN WHeader(H(ev), ev.n, ev.mode) ELSE << >>)
HR(ev) == /\ ev.e = "hr"
          /\ LET x == TLCEval(RHeader(ev.d, 8 * ev.at)) IN
             /\ ev.st = x.st
             /\ x.st = "OK" => H(ev) = x.r.h /\ ev.n = x.r.n /\ ev.pos = x.p
             /\ ev.trim = (x.st = "OK" /\ Trims(x.r.h))
             /\ ev.opt = (x.st = "OK" /\ x.r.h.type = 2 /\ x.r.h.flag)
             /\ ev.key = (x.st = "OK" /\ x.r.h.type = 4 /\ ~x.r.h.flag)
Peeked(ev) == /\ ev.e = "peek"
              /\ LET x == TLCEval(Peek(ev.d, 8 * ev.at)) IN
                 ev.st = x.st /\ ev.pos = 8 * ev.at /\ (x.st = "OK" => ev.type = x.r.type /\ ev.total = x.r.total)
Tu(ev) == ev.e = "tu" /\ ev.is = TemporalUnitType(ev.type)
\* an OBU is written after what is in the buffer
Payload(ev, h) == CASE ev.kind = "frame" -> FrameOut(ev.id, ev.audio, ev.mode)
                    [] ev.kind = "delim" -> << >>
                    [] ev.kind = "meta" -> MetaOut(ev.meta, ev.mode)
                    [] ev.kind = "arb" -> ev.payload
WriteOk(ev, h) ==
  /\ CASE ev.kind = "frame" -> FrameOk(ev.id, ev.mode) [] ev.kind = "meta" -> MetaOk(ev.meta, ev.mode)
       [] ev.kind = "arb" -> ~ev.invalidates [] OTHER -> TRUE
  /\ WOk(h, IF h.has_ext THEN Len(h.ext) ELSE -1, Pair(Len(Payload(ev, h) \o ev.footer)), ev.mode)
Type(ev) == CASE ev.kind = "frame" -> FrameType(ev.id) [] ev.kind = "delim" -> 4 [] ev.kind = "meta" -> 24 [] OTHER -> ev.type
Out(ev) == LET h == [H(ev) EXCEPT !.type = Type(ev)] p == Payload(ev, h) \o ev.footer IN WHeader(h, Pair(Len(p)), ev.mode) \o p
OW(ev) == /\ ev.e = "ow"
          /\ LET h == [H(ev) EXCEPT !.type = Type(ev)] IN
             /\ ev.ok = WriteOk(ev, h)
             /\ ev.ok => ev.bytes = ev.before \o Out(ev)
             /\ ~ev.ok => SubSeq(ev.bytes, 1, Len(ev.before)) = ev.before
\* a list of OBUs, of which those with the hook are written, in order
Hooked(ev) == LET has(x) == x.hook = ev.hook IN SelectSeq(ev.list, has)
Arb(x, mode) == [kind |-> "arb", payload |-> x.payload, footer |-> x.footer, h |-> x.h, type |-> x.h.type, mode |-> mode, invalidates |-> x.invalidates]
Hook(ev) == /\ ev.e = "hook"
            /\ LET q == Hooked(ev) ok == \A i \in 1..Len(q) : WriteOk(Arb(q[i], ev.mode), H(Arb(q[i], ev.mode))) IN
               /\ ev.ok = ok
               /\ ok => ev.bytes = SeqCat([i \in 1..Len(q) |-> Out(Arb(q[i], ev.mode))])
\* reading a payload of n bytes at the start of d
OR(ev) == /\ ev.e = "or"
          /\ LET x == TLCEval(CASE ev.kind = "frame" -> RFrame(ev.d, ev.h.type, ev.n) [] ev.kind = "meta" -> RMeta(ev.d, ev.n)
                                [] OTHER -> Finish(ev.d, Start(0), ev.n)) IN
             /\ (ev.st = "OK") = (x.st = "OK")
             /\ x.st = "OK" =>
                  /\ ev.pos = x.p /\ ev.footer = x.r.footer
                  /\ ev.kind = "frame" => ev.id = x.r.id /\ ev.audio = x.r.audio
                  /\ ev.kind = "meta" =>
                       /\ ev.type = x.r.type
                       /\ x.r.type = <<0, 1>> => ev.cc = x.r.cc /\ ev.payload = x.r.payload /\ ev.cx = (IF x.r.cc = 255 THEN x.r.cx ELSE -1)
                       /\ x.r.type = <<0, 2>> => ev.tags = [i \in 1..Len(x.r.tags) |-> <<x.r.tags[i].n, x.r.tags[i].v>>]
                  \* written back, it is what was read, when the lengths are the shortest
                  /\ (ev.canon /\ ev.wok) => ev.again = SubSeq(ev.d, 1, ev.n)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN ev.e = "begin" \/ HW(ev) \/ HR(ev) \/ Peeked(ev) \/ Tu(ev) \/ OW(ev) \/ Hook(ev) \/ OR(ev)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
