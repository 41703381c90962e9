----------------------------- MODULE GainsTrace -----------------------------
EXTENDS Gains, TraceKit
(* The published matrices, one per pair of layouts. *)
Published == JsonDeserialize(IOEnv.VERIF_DATA \o "/gains.json")
Listed(i, o) == i \in DOMAIN Published /\ o \in DOMAIN Published[i]
NListed == LET RECURSIVE N(_)
               N(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN
                         (LET RECURSIVE C(_)
                              C(T) == IF T = {} THEN 0 ELSE 1 + C(T \ {CHOOSE y \in T : TRUE})
                          IN C(DOMAIN Published[x])) + N(S \ {x})
           IN N(DOMAIN Published)
\* The uncompressed table agrees up to the rounding of single precision.
Close(a, b) == /\ Len(a) = Len(b)
               /\ \A i \in 1..Len(a) : /\ Len(a[i]) = Len(b[i])
                                       /\ \A j \in 1..Len(a[i]) : a[i][j] - b[i][j] \in -1..1
VARIABLE l
Codebk(ev) == ev.e = "codebook" /\ ev.v = Codebook
Table(ev) == ev.e = "table" /\ ev.size = NListed /\ ev.duplicates = 0
Pair(ev) == /\ ev.e = "pair"
            /\ ev.listed = Listed(ev.in, ev.out)
            /\ ev.has_ref = Listed(ev.in, ev.out)
            /\ IF Listed(ev.in, ev.out)
               THEN /\ ev.status = "OK" /\ ev.rows = Published[ev.in][ev.out] /\ Close(ev.ref, ev.rows)
                    /\ Len(ev.rows) = ChannelCount(ev.in)
                    /\ \A i \in 1..Len(ev.rows) : Len(ev.rows[i]) = ChannelCount(ev.out)
               ELSE ev.status = "NOT_FOUND" /\ ev.rows = << >>
Decomp(ev) == /\ ev.e = "decompress"
              /\ LET x == Decompress(ev.in, ev.out, ev.dense, ev.blob)
                 IN ev.status = x.status /\ ev.rows = x.rows
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Codebk(ev) \/ Table(ev) \/ Pair(ev) \/ Decomp(ev)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
