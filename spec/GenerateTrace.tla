--------------------------- MODULE GenerateTrace ---------------------------
EXTENDS Generate, TraceKit
VARIABLE l
Is(y, x, h) == y.x = x /\ y.h = h
SeqEv(ev) == LET m == ev.m said == SeqSaid(m) IN
  Judge(FALSE, said => SeqValid(m), TRUE, ev.ok, IF said THEN Len(ev.y) = 1 /\ Is(ev.y[1], GSeq(m), GHead(m.obu_header, 31)) ELSE ev.y = << >>)
CodecEv(ev) == LET n == Len(ev.m) IN
  LET First(i) == CHOOSE j \in 1..i : ev.m[j].codec_config_id = ev.m[i].codec_config_id /\ \A k \in 1..(j - 1) : ev.m[k].codec_config_id # ev.m[i].codec_config_id IN
  Judge(FALSE, \A i \in 1..n : CodecValid(ev.m[i], ev.enc[i].ok), 
        \A i \in 1..n : CodecOk(GCodec(ev.m[i], ev.enc[i].v), 0), ev.ok,
        ev.n = Cardinality({First(i) : i \in 1..n}) /\ \A i \in 1..n : Is(ev.y[i], GCodec(ev.m[First(i)], ev.enc[First(i)].v), GHead(ev.m[First(i)].obu_header, 0)))
At(q, id) == SelectSeq(q, LAMBDA c : c.id = id)
Seen(x) == IF ElementOk(x, 0) THEN x ELSE [x EXCEPT !.res = -1]
ElementEv(ev) == LET n == Len(ev.m) IN
  Judge(\E i \in 1..n : ElementOpen(ev.m[i]),
        Uniq([i \in 1..n |-> ev.m[i].audio_element_id]) /\ \A i \in 1..n : LET c == At(ev.codecs, ev.m[i].codec_config_id) IN c # << >> /\ ElementValid(ev.m[i], c[1], ev.presets[i]),
        \A i \in 1..n : ElementOk(GElement(ev.m[i], ev.presets[i]), 0), ev.ok,
        ev.n = n /\ \A i \in 1..n : ev.y[i].cc /\ Is(ev.y[i], Seen(GElement(ev.m[i], ev.presets[i])), GHead(ev.m[i].obu_header, 1)))
MixEv(ev) == LET n == Len(ev.m) IN
  Judge(\E i \in 1..n : MixOpen(ev.m[i]), \A i \in 1..n : MixValid(ev.m[i], ev.append),
        \A i \in 1..n : MixOk(GMix(ev.m[i], ev.append), ev.m[i].obu_header.obu_trimming_status_flag, 0), ev.ok,
        Len(ev.y) = n /\ \A i \in 1..n : Is(ev.y[i], GMix(ev.m[i], ev.append), GHead(ev.m[i].obu_header, 2)))
Fits(ev) == CASE ev.e = "seq" -> SeqEv(ev) [] ev.e = "codec" -> CodecEv(ev) [] ev.e = "element" -> ElementEv(ev) [] ev.e = "mix" -> MixEv(ev) [] OTHER -> ev.e = "begin"
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ (Fits(Trace[l]) = TRUE) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
