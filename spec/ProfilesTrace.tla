---------------------------- MODULE ProfilesTrace ----------------------------
EXTENDS Profiles, TraceKit
VARIABLES i, codecs, els
E == Trace[i]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
Good(fits) == E.ok = (fits # {}) /\ Len(E.fits) = Cardinality(fits) /\ ToSet(E.fits) = fits
CodecsE == Is("codecs") /\ codecs' = E.c /\ els' = << >>
ElementE == /\ Is("element") /\ UNCHANGED codecs
            /\ els' = els @@ (E.id :> [fits |-> Element(E.it), ch |-> TLCEval(ChannelCount(E.it)), codec |-> E.codec])
            /\ Good(Element(E.it) \cap ToSet(E.ask)) = TRUE
MixE == Is("mix") /\ UNCHANGED <<codecs, els>> /\ Good(TLCEval(Mix(els, codecs, E.subs)) \cap ToSet(E.ask)) = TRUE
TraceSpec == i = 1 /\ codecs = << >> /\ els = << >> /\ [][CodecsE \/ ElementE \/ MixE]_<<i, codecs, els>>
TraceAccepted == Accepted
=============================================================================
