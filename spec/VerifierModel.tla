--------------------------- MODULE VerifierModel ---------------------------
(* Every combination of outcomes with up to two mixes and two layouts. *)
EXTENDS Verifier, TLC
Seqs == { << >>, << 1 >>, << 1, 2 >> }
Rank(p) == p[1] * 10 + (IF p[2] = "2.0" THEN 0 ELSE 1)
Lay(ms) == LET S == { << m, l >> : m \in Rng(ms), l \in AllLayouts } IN
  { [i \in 1..Cardinality(S) |-> LET p == CHOOSE p \in S : Cardinality({ q \in S : Rank(q) < Rank(p) }) = i - 1
       IN [mix |-> p[1], layout |-> p[2], ref |-> f[p][1], test |-> f[p][2]]] : f \in [S -> {<< "good", "good" >>, << "rc", "good" >>, << "good", "bad" >>}] }
Scenarios == UNION { { [mp4 |-> a[1], opus |-> a[2], missing |-> a[3], cw |-> a[4], gpac |-> a[5], loud |-> a[6], opusok |-> a[7],
                        mixes |-> ms, layouts |-> ly] :
    a \in BOOLEAN \X BOOLEAN \X {"", "cw"} \X BOOLEAN \X BOOLEAN \X BOOLEAN \X BOOLEAN, ly \in Lay(ms) } : ms \in { << >>, << 1 >> } }
Init == w \in Scenarios /\ called = {} /\ decoded = {} /\ verdict = "none"
Next == \/ Gpac("test") \/ \E s \in {"iamf", "iamf_isobmff"} : Warden("test", s)
        \/ \E f \in {"test", "extracted"} : Loudness("ref", f, 100) \/ Opus(f)
        \/ \E f \in {"ref", "test", "extracted"}, m \in {1, 2}, l \in AllLayouts : Decode(f, m, l)
        \/ \E v \in {"success", "failure", "exception"} : Verdict(v)
Spec == Init /\ [][Next]_vars
(* A success means: nothing was missing, everything was run, nothing was bad. *)
SuccessIsEarned == verdict = "success" =>
   /\ w.cw /\ w.loud /\ w.mixes # << >> /\ w.missing = "" /\ (w.opus => w.opusok) /\ (w.mp4 => w.gpac)
   /\ {"cw", "loudness"} \subseteq called
   /\ \A m \in Rng(w.mixes), l \in AllLayouts : LayoutGood(w, m, l) /\ Cardinality({ d \in decoded : d[2] = m /\ d[3] = l }) = 2
FailureIsReal == verdict \in {"failure", "exception"} => ~ShouldPass(w)
=============================================================================
