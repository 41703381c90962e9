----------------------------- MODULE MlsdModel -----------------------------
(* All short distance sequences: the one-pass scan finds exactly the maximal
   long-enough runs, in order, and "passes" means no rule is broken. *)
EXTENDS Mlsd, TLC, FiniteSets
CONSTANTS N, Levels, Thr
VARIABLES d, i, s, least
vars == << d, i, s, least >>
Init == d \in UNION { [1..n -> Levels] : n \in 0..N } /\ i = 1 /\ s = ScanInit /\ least \in 1..3
Step == i <= Len(d) /\ s' = Scan(s, d, i, Thr, least) /\ i' = i + 1 /\ UNCHANGED << d, least >>
Finish == i = Len(d) + 1 /\ s' = ScanEnd(s, d, least) /\ i' = i + 1 /\ UNCHANGED << d, least >>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Done == i = Len(d) + 2
Exact == Done => { s.found[k] : k \in 1..Len(s.found) } = Runs(d, Thr, least)
                 /\ Len(s.found) = Cardinality(Runs(d, Thr, least))
InOrder == \A a, b \in 1..Len(s.found) : a < b => s.found[a][2] + 1 < s.found[b][1]
SustainedLevel == Done => ((MaxSustained(d, least) > Thr) <=> Runs(d, Thr, least) # {}) \/ Len(d) < least
PeakLevel == (MaxOf(d) > Thr) <=> Glitches(d, Thr) # {}
=============================================================================
