------------------------------ MODULE Bw64Trace ------------------------------
EXTENDS Bw64, TraceKit
VARIABLES l, docs, file, conv
tv == <<l, docs, file, conv>>
Doc(x) == LET m == SelectSeq(docs, LAMBDA d : d.bytes = x) IN IF m = << >> THEN << >> ELSE <<m[1]>>
\* [hi, lo] of a size, as the implementation reports it
Begin(ev) == ev.e = "begin" /\ docs' = ev.docs /\ file' = [ok |-> FALSE] /\ conv' = << >>
Names(t) == {<<n, t[n].size.hi, t[n].size.lo, t[n].offset>> : n \in DOMAIN t}
ReadE(ev) ==
  /\ ev.e = "read" /\ UNCHANGED <<docs, conv>>
  /\ LET r == ReadFile(ev.bytes, Doc) IN
     /\ ev.ok = r.ok
     /\ file' = IF r.ok THEN [ok |-> TRUE, b |-> ev.bytes, r |-> r, thr |-> ev.threshold] ELSE r
     /\ r.ok => /\ \A i \in 1..Len(ev.asked) :
                      LET a == ev.asked[i] IN
                      IF Has(r.chunks, a.name)
                      THEN a.status = "OK" /\ [hi |-> a.hi, lo |-> a.lo] = r.chunks[a.name].size /\ a.offset = r.chunks[a.name].offset
                      ELSE a.status = "PRECONDITION"
                /\ DOMAIN r.chunks \subseteq {ev.asked[i].name : i \in 1..Len(ev.asked)}
                /\ ev.fmt = r.fmt /\ ev.dolby = r.dolby /\ ev.programme = r.doc.programme
                /\ LET k == Kept(r.doc.objects, ev.threshold, r.dolby) IN
                   ev.objects = [i \in 1..Len(k) |-> k[i].id]
SpliceE(ev) ==
  /\ ev.e = "splice" /\ UNCHANGED <<docs, file, conv>> /\ file.ok
  /\ LET s == Splice(file.b, file.r, Kept(file.r.doc.objects, file.thr, FALSE)) IN
     /\ ev.ok = s.ok
     /\ IF s.ok THEN /\ Len(ev.files) = Len(s.files)
                     /\ \A i \in 1..Len(s.files) :
                          /\ ev.files[i].name = i /\ ev.files[i].channels = s.files[i].channels
                          /\ ev.files[i].pcm = s.files[i].pcm
                          /\ ev.files[i].bits = file.r.fmt.bits /\ [hi |-> 0, lo |-> ev.files[i].rate] = file.r.fmt.rate
        ELSE ev.files = << >>
(* Converting objects to a sound field is a function of the samples and the
   positions; it is not interpreted here. Separating LFE channels gives each
   in a file of its own, and the conversion of the file without them. *)
ConvE(ev) == ev.e = "convert" /\ conv' = <<[ok |-> ev.ok, out |-> ev.out, channels |-> ev.channels]>> /\ UNCHANGED <<docs, file>>
SeparateE(ev) ==
  /\ ev.e = "separate" /\ UNCHANGED <<docs, file, conv>> /\ conv # << >>
  /\ ev.ok = conv[1].ok
  /\ (ev.ok => /\ ev.out = conv[1].out /\ ev.channels = conv[1].channels /\ ev.count = Len(ev.lfe) /\ Len(ev.files) = Len(ev.lfe)
               /\ \A i \in 1..Len(ev.lfe) : ev.files[i] = Tracks(ev.data, 3, ev.nch, ev.lfe[i], 1))
TraceInit == l = 1 /\ docs = << >> /\ file = [ok |-> FALSE] /\ conv = << >>
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Begin(ev) \/ ReadE(ev) \/ SpliceE(ev) \/ ConvE(ev) \/ SeparateE(ev)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tv
TraceAccepted == Accepted
=============================================================================
