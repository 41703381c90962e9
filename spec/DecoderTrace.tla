---------------------------- MODULE DecoderTrace ----------------------------
EXTENDS Decoder, TraceKit
VARIABLES i, cfg, d, info, ghost
vars == <<i, cfg, d, info, ghost>>
E == Trace[i]
None == [none |-> TRUE]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
TraceInit == i = 1 /\ cfg = None /\ d = None /\ info = None /\ ghost = None

\* n: bytes received since the start, at: OBUs read, from: the first OBU of the body
Fresh(c, from) == [n |-> 0, at |-> from - 1, from |-> from, sc |-> Scan0(c), handed |-> 0, pend |-> FALSE, dead |-> FALSE,
                   done |-> ~c.std, eos |-> FALSE, sure |-> ~c.std]
New ==
  /\ Is("new")
  /\ cfg' = E.c /\ d' = Fresh(E.c, 1) /\ info' = None /\ ghost' = None
  /\ E.ok = TRUE
\* end of the o-th OBU of the body, in bytes since the start
EndOf(o) == (IF cfg.std THEN cfg.dlen ELSE 0) + cfg.obus[o].end - (IF d.from = 1 THEN 0 ELSE cfg.obus[d.from - 1].end)
\* reads every OBU that has wholly arrived
Push(n) == LET to == CHOOSE k \in d.at..Len(cfg.obus) : /\ (k = d.at \/ EndOf(k) <= n)
                                                         /\ (k = Len(cfg.obus) \/ EndOf(k + 1) > n)
           IN [d EXCEPT !.n = n, !.at = to,
                        !.sc = FoldLeft(LAMBDA s, o : TLCEval(Step(cfg, s, o)), d.sc, SubSeq(cfg.obus, d.at + 1, to))]
\* the descriptors end before the first OBU of a temporal unit, and are known to be complete once
\* enough of it arrived to tell, at the latest when all of it did
Tu == {o \in 1..Len(cfg.obus) : cfg.obus[o].tu}
FirstTu == CHOOSE o \in Tu : \A r \in Tu : o <= r
MayBeDone(n) == Tu # {} /\ n >= (IF FirstTu = 1 THEN cfg.dlen ELSE EndOf(FirstTu - 1)) + 2
MustBeDone(n) == Tu # {} /\ n >= EndOf(FirstTu)
Seen(x) == E.avail = x.pend /\ E.done = x.done
Decode ==
  /\ Is("decode") /\ UNCHANGED <<cfg, info, ghost>>
  /\ IF d.dead THEN d' = d
     ELSE IF d.eos THEN ~E.ok /\ d' = d /\ Seen(d)
     ELSE LET p == TLCEval(Push(d.n + E.n)) IN
       IF ~d.done
       THEN /\ E.ok /\ d' = [p EXCEPT !.done = E.done]
            /\ ((E.done => MayBeDone(p.n)) /\ (MustBeDone(p.n) => E.done)) = TRUE
            /\ Seen(d')
       ELSE IF d.pend THEN d' = p /\ E.ok /\ Seen(d')
       ELSE \E r \in Next1(cfg, p, ~cfg.std) : d' = r.s /\ E.ok = r.ok /\ (r.ok => Seen(d'))
Get ==
  /\ Is("get") /\ UNCHANGED <<cfg, info, ghost>>
  /\ IF d.dead THEN d' = d
     ELSE IF ~d.pend THEN E.ok /\ E.n = 0 /\ d' = d /\ Seen(d)
     ELSE LET u == TLCEval(Unit(d, d.handed + 1)) IN
       IF E.cap < Bytes(cfg, u) THEN ~E.ok /\ E.n = 0 /\ d' = d /\ Seen(d)
       ELSE /\ E.n = Bytes(cfg, u) /\ SamplesOk(cfg, u, E.x) = TRUE   \* a value: no branching on its disjunctions
            /\ \E r \in Next1(cfg, [d EXCEPT !.handed = @ + 1, !.pend = FALSE], d.eos \/ ~cfg.std) :
                 d' = r.s /\ E.ok = r.ok /\ (r.ok => Seen(d'))
Signal ==
  /\ Is("signal") /\ UNCHANGED <<cfg, info, ghost>>
  /\ IF d.dead THEN d' = [d EXCEPT !.eos = TRUE]
     ELSE IF ~cfg.std \/ d.pend \/ ~d.done THEN E.ok /\ d' = [d EXCEPT !.eos = TRUE] /\ Seen(d')
     ELSE \E r \in Next1(cfg, [d EXCEPT !.eos = TRUE], TRUE) : d' = r.s /\ E.ok = r.ok /\ (r.ok => Seen(d'))
\* a fresh start, possibly with another mix and from another unit
Reset ==
  /\ Is("reset")
  /\ IF cfg.std THEN ~E.ok /\ UNCHANGED <<cfg, d, info, ghost>> /\ (d.dead \/ Seen(d))
     ELSE /\ E.ok /\ cfg' = E.c /\ d' = Fresh(E.c, E.from) /\ ghost' = None
          /\ info' = IF E.c = cfg THEN info ELSE None
          /\ Seen(d')
\* everything a user can ask about the output
Want == [ch |-> Chans(cfg), rate |-> cfg.rate, fs |-> cfg.fs, mix |-> cfg.mix, lay |-> cfg.lay]
Info ==
  /\ Is("info") /\ UNCHANGED <<cfg, d, ghost>>
  /\ E.type = cfg.bits
  /\ IF d.done THEN E.ok /\ E.v = Want /\ info' = E.v ELSE E.refused /\ info' = info
Next == New \/ Decode \/ Get \/ Signal \/ Reset \/ Info
TraceSpec == TraceInit /\ [][Next]_vars
TraceAccepted == Accepted
=============================================================================
