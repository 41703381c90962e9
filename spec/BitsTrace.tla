----------------------------- MODULE BitsTrace -----------------------------
EXTENDS Bits, TraceKit
VARIABLES l, d, pos, valid, w, wmode, held
st == <<d, pos, valid, w, wmode, held>>
Keep == UNCHANGED <<w, wmode, held>>
Begin(ev) == /\ ev.e = "begin" /\ d' = ev.data /\ pos' = 0 /\ valid' = TRUE /\ ev.ok /\ Keep
\* after a failed read the position is somewhere between where it was and the end
Read(ev, r) == /\ ev.st = r.st /\ (r.st = "OK" => ev.v = r.v /\ ev.pos = pos + r.n)
               /\ ev.pos >= pos /\ ev.pos <= Size(d) /\ pos' = ev.pos /\ valid' = TRUE /\ UNCHANGED d /\ Keep
LitE(ev) == ev.e = "lit" /\ Read(ev, Literal(d, pos, ev.n, ev.max)) /\ (ev.st # "OK" => ev.pos = pos)
StrE(ev) == ev.e = "str" /\ Read(ev, String(d, pos))
LebE(ev) == ev.e = "uleb" /\ Read(ev, Leb(d, pos)) /\ (ev.st = "OK" => 8 * ev.size = ev.pos - pos)
IsoE(ev) == ev.e = "iso" /\ Read(ev, Iso(d, pos, ev.max))
SpanE(ev) == ev.e = "span" /\ Read(ev, Bytes(d, pos, ev.n))
\* the position is asked for before the call only when told says so
SeekE(ev) == /\ ev.e = "seek"
             /\ ev.st = SeekTo(d, valid \/ ev.told, ev.to)
             /\ pos' = (IF ev.st = "OK" THEN ev.to ELSE pos)
             /\ valid' = (valid \/ ev.told \/ ev.told_after)
             /\ (ev.told_after => ev.pos = pos')
             /\ UNCHANGED d /\ Keep
IgnoreE(ev) == /\ ev.e = "ignore" /\ ev.st = SeekTo(d, TRUE, pos + 8 * ev.n) /\ pos' = (IF ev.st = "OK" THEN pos + 8 * ev.n ELSE pos)
               /\ ev.pos = pos' /\ valid' = TRUE /\ UNCHANGED d /\ Keep
AvailE(ev) == ev.e = "avail" /\ ev.n = Available(d, pos) /\ ev.any = (ev.n > 0) /\ UNCHANGED st
PushE(ev) == ev.e = "push" /\ ev.st = "OK" /\ d' = d \o ev.data /\ UNCHANGED <<pos, valid>> /\ Keep
FlushE(ev) == /\ ev.e = "flush" /\ d' = SubSeq(d, (pos \div 8) + 1, Len(d)) /\ pos' = pos % 8 /\ valid' = FALSE /\ Keep
\* the source of a streaming reader holds at most twice the largest OBU
Max == 4194304
LimNew(ev) == ev.e = "lim_begin" /\ held' = 0 /\ UNCHANGED <<d, pos, valid, w, wmode>>
LimPush(ev) == /\ ev.e = "lim_push" /\ ev.st = (IF ev.n > Max - held THEN "INVALID" ELSE "OK")
               /\ held' = (IF ev.st = "OK" THEN held + ev.n ELSE held) /\ ev.avail = held' /\ UNCHANGED <<d, pos, valid, w, wmode>>
LimDrop(ev) == /\ ev.e = "lim_drop" /\ ev.n <= held /\ held' = held - ev.n /\ ev.st = "OK" /\ ev.avail = held' /\ UNCHANGED <<d, pos, valid, w, wmode>>
(* writer *)
WKeep == UNCHANGED <<d, pos, valid, wmode, held>>
Same(ev) == ev.off = Len(w') /\ ev.bytes = Pad(w')
WBegin(ev) == ev.e = "w_begin" /\ w' = << >> /\ wmode' = ev.mode /\ UNCHANGED <<d, pos, valid, held>>
Put(ev, r, bits) == /\ ev.st = r.st /\ w' = (IF r.st = "OK" THEN w \o bits ELSE w) /\ Same(ev) /\ WKeep
WLit(ev) == ev.e = "w_lit" /\ LET r == WLiteral(ev.v, ev.n, ev.max) IN
              IF ev.n = 0 THEN ev.st \in {"OK", r.st} /\ w' = w /\ Same(ev) /\ WKeep ELSE Put(ev, r, r.v)
WStr(ev) == ev.e = "w_str" /\ LET r == WString(ev.v) IN Put(ev, r, r.v)
WLebE(ev) == ev.e = "w_uleb" /\ LET r == WLeb(ev.v, FALSE, wmode) IN Put(ev, r, IF r.st = "OK" THEN Cat(r.v) ELSE << >>)
WIsoE(ev) == ev.e = "w_iso" /\ LET q == WIso(ev.v) IN Put(ev, OK(q, 0), Cat(q))
WSpan(ev) == ev.e = "w_span" /\ Put(ev, OK(ev.v, 0), Cat(ev.v))
\* a signed value of n bits in two's complement; ev.fits: is it in range ?
WSigned(ev) == ev.e = "w_signed" /\ (IF ev.fits THEN Put(ev, OK(ev.v, 0), ev.v) ELSE Put(ev, Bad, << >>))
WReset(ev) == ev.e = "w_reset" /\ w' = << >> /\ Same(ev) /\ WKeep
\* flushing appends the bytes to the file and empties the buffer; only on a byte boundary
WFlush(ev) == /\ ev.e = "w_flush" /\ WKeep
              /\ IF Len(w) % 8 # 0 THEN ev.st = "INVALID" /\ ev.file = << >> /\ w' = w /\ Same(ev)
                 ELSE ev.st = "OK" /\ ev.file = (IF ev.has_file THEN Pad(w) ELSE << >>) /\ w' = << >> /\ Same(ev)
Sleb(ev) == ev.e = "sleb" /\ UNCHANGED st /\ LET r == WLeb(ev.v, TRUE, ev.mode) IN ev.st = r.st /\ (r.st = "OK" => ev.out = r.v)
Gen(ev) == ev.e = "leb_generator" /\ UNCHANGED st /\ ev.some = (ev.mode = "fixed" => ev.size \in 1..8)
TraceInit == l = 1 /\ d = << >> /\ pos = 0 /\ valid = TRUE /\ w = << >> /\ wmode = 0 /\ held = 0
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Begin(ev) \/ LitE(ev) \/ StrE(ev) \/ LebE(ev) \/ IsoE(ev) \/ SpanE(ev) \/ SeekE(ev) \/ IgnoreE(ev) \/ AvailE(ev)
                  \/ PushE(ev) \/ FlushE(ev) \/ LimNew(ev) \/ LimPush(ev) \/ LimDrop(ev) \/ WBegin(ev) \/ WLit(ev) \/ WStr(ev) \/ WLebE(ev)
                  \/ WIsoE(ev) \/ WSpan(ev) \/ WSigned(ev) \/ WReset(ev) \/ WFlush(ev) \/ Sleb(ev) \/ Gen(ev)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, d, pos, valid, w, wmode, held>>
TraceAccepted == Accepted
=============================================================================
