----------------------------- MODULE SelectTrace -----------------------------
EXTENDS Select, TraceKit
P == INSTANCE Profiles
VARIABLES i, mixes, els, codecs
E == Trace[i]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
LastOf(it) == IF it.t = "channels" THEN it.layers[Len(it.layers)].layout ELSE -1
Last0 == [k \in DOMAIN els |-> els[k].last]
Setup == /\ Is("setup") /\ codecs' = E.codecs
         /\ els' = [k \in {E.els[n].id : n \in 1..Len(E.els)} |->
                      LET x == E.els[CHOOSE n \in 1..Len(E.els) : E.els[n].id = k] IN
                      [last |-> LastOf(x.it), it |-> x.it, codec |-> x.codec, ch |-> P!ChannelCount(x.it), fits |-> P!Element(x.it)]]
         /\ mixes' = [k \in 1..Len(E.mixes) |-> Read(E.mixes[k])]
\* the function by itself, on any of the mixes; it may add a layout
Find == /\ Is("find") /\ UNCHANGED <<els, codecs>>
        /\ LET given == [k \in 1..Len(E.of) |-> mixes[E.of[k] + 1]]
               r == TLCEval(Select(given, Last0, E.want, E.id))
               after == TLCEval(After(given, r))
           IN /\ mixes' = [k \in 1..Len(mixes) |-> LET at == {n \in 1..Len(E.of) : E.of[n] + 1 = k} IN IF at = {} THEN mixes[k] ELSE after[CHOOSE n \in at : TRUE]]
              /\ (E.ok = r.ok /\ (r.ok => /\ E.mix = E.of[r.k] /\ E.sub + 1 = r.sub /\ E.lay + 1 = r.lay /\ E.layout = r.layout
                                          /\ E.simple = <<[els |-> after[r.k].subs[r.sub].els, lays |-> <<r.layout>>]>>)) = TRUE
        /\ E.after = mixes'
\* cutting a mix down to one sub-mix and layout
Cut == /\ Is("cut") /\ UNCHANGED <<mixes, els, codecs>>
       /\ LET m == mixes[E.mix + 1] ok == E.sub + 1 \in 1..Len(m.subs) /\ E.lay + 1 \in 1..Len(m.subs[E.sub + 1].lays) IN
          (E.ok = ok /\ (ok => E.simple = <<[els |-> m.subs[E.sub + 1].els, lays |-> <<m.subs[E.sub + 1].lays[E.lay + 1]>>]>>)) = TRUE
------------------------------------------------------------------------------
\* the decoder: mixes that no requested profile allows are not there
Supported(ask) == SelectSeq(mixes, LAMBDA m : P!Mix(els, codecs, [s \in 1..Len(m.subs) |-> m.subs[s].els]) \cap ask # {})
Plain(it) == it.t = "channels" /\ Len(it.layers) = 1 /\ it.layers[1].layout = 1
Sum(s) == FoldLeft(LAMBDA a, x : a + 2 ^ x.id, 0, s)
\* stereo elements carry 2^id on their left channel, which every layout but mono passes on as it is, to one loudspeaker
Heard(m, layout) == LET e == m.subs[1].els IN
  IF layout # 212 /\ (\A k \in 1..Len(e) : Plain(els[e[k].id].it)) THEN <<Sum(e)>> ELSE << >>
\* no gains are published for headphone signals on loudspeakers other than two
NoMatrix(m, layout) == layout \notin {Stereo, Binaural} /\ \E k \in 1..Len(m.subs[1].els) : els[m.subs[1].els[k].id].last = 9
Whole == /\ Is("whole") /\ UNCHANGED <<mixes, els, codecs>>
         /\ LET given == TLCEval(Supported(ToSet(E.ask)))
                r == TLCEval(Select(given, Last0, E.want, E.id))
            IN (E.ok = r.ok /\ (r.ok => LET h == Heard(given[r.k], r.layout) IN
                  /\ E.mix = given[r.k].id /\ E.layout = r.layout /\ E.channels = Channels(r.layout)
                  /\ (E.count = E.channels \/ (E.count = -1 /\ NoMatrix(given[r.k], r.layout))) /\ (h # << >> => E.heard = h[1]))) = TRUE
TraceSpec == i = 1 /\ mixes = << >> /\ els = << >> /\ codecs = << >> /\ [][Setup \/ Find \/ Cut \/ Whole]_<<i, mixes, els, codecs>>
TraceAccepted == Accepted
=============================================================================
