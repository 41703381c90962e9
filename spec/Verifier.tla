------------------------------ MODULE Verifier ------------------------------
(* The verification pipeline. A scenario `w` fixes what each external tool
   will answer; the state is what has been called so far. The order of the
   calls is free as long as each has what it needs. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT AllLayouts

None == [kind |-> "none"]
Rng(q) == { q[i] : i \in 1..Len(q) }
TestFile(w) == IF w.mp4 THEN "extracted" ELSE "test"

(* What has to be called when nothing stops the run. *)
Wanted(w) == { << m, l >> : m \in Rng(w.mixes), l \in AllLayouts }
Outcome(w, m, l, which) == LET x == CHOOSE x \in Rng(w.layouts) : x.mix = m /\ x.layout = l
                           IN IF which = "ref" THEN x.ref ELSE x.test
(* One mix and layout is verified when both files decode to equal shape and close audio. *)
LayoutGood(w, m, l) == LET r == Outcome(w, m, l, "ref") IN r \in {"good", "short"} /\ Outcome(w, m, l, "test") = r
(* The verdict the pipeline must reach. *)
ShouldPass(w) ==
  /\ w.missing = ""
  /\ (w.mp4 => w.gpac)
  /\ w.cw /\ w.loud
  /\ (w.opus => w.opusok)
  /\ w.mixes # << >>
  /\ \A x \in Wanted(w) : LayoutGood(w, x[1], x[2])

VARIABLES w,       \* the scenario
          called,  \* the tools called: "cw", "gpac", "loudness", "opus"
          decoded, \* << file, mix, layout >> decoded
          verdict
vars == << w, called, decoded, verdict >>

Start(sc) == w' = sc /\ called' = {} /\ decoded' = {} /\ verdict' = "none"
Running == verdict = "none" /\ w.missing = ""
Ready == w.mp4 => ("gpac" \in called /\ w.gpac)
Gpac(file) == /\ Running /\ w.mp4 /\ "gpac" \notin called /\ file = "test"
              /\ called' = called \cup {"gpac"} /\ UNCHANGED << w, decoded, verdict >>
Warden(file, spec) == /\ Running /\ "cw" \notin called
                      /\ file = "test" /\ spec = (IF w.mp4 THEN "iamf_isobmff" ELSE "iamf")
                      /\ called' = called \cup {"cw"} /\ UNCHANGED << w, decoded, verdict >>
Loudness(f1, f2, tol) == /\ Running /\ Ready /\ "loudness" \notin called
                         /\ f1 = "ref" /\ f2 = TestFile(w) /\ tol = 100
                         /\ called' = called \cup {"loudness"} /\ UNCHANGED << w, decoded, verdict >>
Opus(file) == /\ Running /\ Ready /\ w.opus /\ "opus" \notin called /\ file = TestFile(w)
              /\ called' = called \cup {"opus"} /\ UNCHANGED << w, decoded, verdict >>
Decode(file, m, l) == /\ Running /\ Ready /\ "loudness" \in called  \* the mixes are known from its report
                      /\ << m, l >> \in Wanted(w) /\ file \in {"ref", TestFile(w)}
                      /\ << file, m, l >> \notin decoded
                      /\ decoded' = decoded \cup {<< file, m, l >>} /\ UNCHANGED << w, called, verdict >>
(* Only a missing tool, a failed extraction or a decoder that leaves no usable
   file may end the run without a report. *)
MayRaise == \/ w.missing # "" \/ (w.mp4 /\ ~w.gpac)
            \/ \E x \in Rng(w.layouts) : {x.ref, x.test} \cap {"none", "stereo", "rate"} # {}
(* Success only when every step was taken and came out well; otherwise failure or an exception. *)
Required == {"cw", "loudness"} \cup (IF w.opus THEN {"opus"} ELSE {}) \cup (IF w.mp4 THEN {"gpac"} ELSE {})
Complete == Required \subseteq called
            /\ \A x \in Wanted(w), f \in {"ref", TestFile(w)} : << f, x[1], x[2] >> \in decoded
Verdict(v) == /\ verdict = "none"
              /\ IF ShouldPass(w) THEN Complete /\ v = "success" ELSE v = "failure" \/ (v = "exception" /\ MayRaise)
              /\ verdict' = v /\ UNCHANGED << w, called, decoded >>
=============================================================================
