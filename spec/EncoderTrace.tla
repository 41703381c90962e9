---------------------------- MODULE EncoderTrace ----------------------------
EXTENDS Encoder, TraceKit
VARIABLES i, s
vars == <<i, s>>
E == Trace[i]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
None == New([S |-> 1, D |-> 0, us |-> 0, ue |-> 0, is |-> FALSE, ie |-> FALSE, td |-> FALSE, gains |-> FALSE, els |-> << >>, arbs |-> << >>])
Begin == /\ Is("begin") /\ E.ok = CanMake(E)
         /\ s' = IF E.ok THEN New([S |-> E.S, D |-> E.D, us |-> E.us, ue |-> E.ue, is |-> E.is, ie |-> E.ie, td |-> E.td, gains |-> E.gains, els |-> E.els, arbs |-> E.arbs]) ELSE None
         /\ (E.ok => E.delay = E.D /\ E.gen = (E.els # << >> \/ E.arbs # << >>)) = TRUE
\* there is more to come until the last unit was given
More(t) == IF t.fin THEN (IF Finished(t) THEN t.idle < 3 ELSE TRUE) ELSE t.c.els # << >> \/ t.arbs # << >>
GenOk(t) == IF E.gen THEN More(t) ELSE (~More(t) \/ Finished(t))
Encode == /\ Is("encode") /\ (E.wrong <= 1 \/ ~E.ok)
          /\ IF E.wrong = 0 THEN E.ok /\ s' = Encoded(s, E.x, E.block) /\ GenOk(s')
             ELSE s' = [s EXCEPT !.odd = TRUE, !.left = E.wrong = 1]
Final == Is("final") /\ E.ok /\ s' = [s EXCEPT !.fin = TRUE] /\ GenOk(s')
Out == /\ Is("out")
       /\ IF ~E.ok THEN Excused(s) /\ s' = s
          ELSE /\ ~s.left
               /\ IF E.o = << >> THEN /\ s' = [s EXCEPT !.idle = IF s.fin /\ (AllOut(s) \/ Ready(s, s.out)) THEN @ + 1 ELSE 0]
                                      /\ s'.idle <= (IF Finished(s) THEN 9 ELSE 2)
                  ELSE Ready(s, s.out) /\ s.out < Units(s) /\ UnitOk(s, s.out, E.o) /\ s' = Taken(s, s.out)
               /\ GenOk(s')
Descr == /\ Is("descr") /\ UNCHANGED s /\ E.ok = ~E.red
         /\ (E.ok => E.n > 0 /\ E.done = E.mixdone /\ (E.done => Finished(s)) /\ (Finished(s) /\ s.idle > 1 => E.done)) = TRUE
TraceSpec == i = 1 /\ s = None /\ [][Begin \/ Encode \/ Final \/ Out \/ Descr]_vars
TraceAccepted == Accepted
=============================================================================
