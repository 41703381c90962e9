----------------------------- MODULE TimingTrace -----------------------------
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TraceKit
W == INSTANCE Wide WITH LB <- 65536
Sum(a, b) == W!AddM(a, b).m
Add(a, b) == a + b
C == INSTANCE Timing WITH Plus <- Sum, Zero <- <<0, 0, 0, 0>>
B == INSTANCE Bitstream
VARIABLES i, c
E == Trace[i]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
Clocks == /\ Is("clocks")
          /\ LET r == C!Create(E.els, E.params) IN E.ok = (r # << >>) /\ c' = (IF r = << >> THEN << >> ELSE r[1])
Fits(r) == E.ok = r.ok /\ (r.ok => E.start = r.start /\ E.end = r.end) /\ c' = r.c
Frame == Is("frame") /\ Fits(C!Frame(c, E.id, E.dur))
Block == Is("block") /\ Fits(C!Block(c, E.id, E.at, E.dur))
Common == Is("common") /\ UNCHANGED c /\ LET r == C!Common(c) IN E.ok = r.ok /\ E.t = (IF r.ok THEN r.t ELSE << >>)
Whole == Is("whole") /\ UNCHANGED c /\ B!Agrees(E, FALSE) = TRUE
TraceSpec == i = 1 /\ c = << >> /\ [][Clocks \/ Frame \/ Block \/ Common \/ Whole]_<<i, c>>
TraceAccepted == Accepted
=============================================================================
