------------------------------- MODULE Params -------------------------------
(* The down-mixing and reconstruction-gain parameters in force for an audio
   element. An element's state: dm: what it declares for demixing ([id, mode,
   w], the defaults) or nothing; rg: the id of its reconstruction gains or
   nothing; layers; next, rnext: where its next blocks must start; prev: the
   weight index of the last frame, cur: of this one; first: no frame with a
   block is complete yet; b, r: the blocks that cover the current frame. *)
EXTENDS Integers, Sequences, TLC
Rows == <<<<1000, 1000, 707, 707, -1>>, <<707, 707, 707, 707, -1>>, <<1000, 866, 866, 866, -1>>, << >>,
          <<1000, 1000, 707, 707, 1>>, <<707, 707, 707, 707, 1>>, <<1000, 866, 866, 866, 1>>, << >>>>
Weights == <<0, 179, 391, 658, 1038, 2500, 3962, 4342, 4609, 4821, 5000>>
Clamp(x) == IF x < 0 THEN 0 ELSE IF x > 10 THEN 10 ELSE x
\* alpha to delta in thousandths, the weight in tenths of thousandths
Sensible == [p |-> <<707, 707, 707, 707>>, w |-> 0, idx |-> 0, coded |-> FALSE]
Make(mode, idx) == IF Rows[mode + 1] = << >> \/ idx \notin 0..10 THEN << >>
                   ELSE <<[p |-> SubSeq(Rows[mode + 1], 1, 4), w |-> Weights[idx + 1], idx |-> idx, coded |-> TRUE]>>
Step(first, prev, mode) == IF first THEN 0 ELSE Clamp(prev + Rows[mode + 1][5])
New(dm, rg, layers) == [dm |-> dm, rg |-> rg, layers |-> layers, next |-> 0, rnext |-> 0, prev |-> 0, cur |-> 0, first |-> TRUE, b |-> << >>, r |-> << >>]
\* a block covers every element that names its parameter
AddDemixing(s, id, b) == IF s.dm # << >> /\ s.dm[1].id = id THEN [s EXCEPT !.b = <<b>>] ELSE s
AddRecon(s, id, b) == IF s.rg # << >> /\ s.rg[1] = id THEN [s EXCEPT !.r = <<b>>] ELSE s
\* [v: a value or nothing when it is refused, s]
GetDemixing(s) ==
  IF s.dm = << >> THEN [v |-> <<Sensible>>, s |-> s]
  ELSE IF s.b = << >> THEN [v |-> Make(s.dm[1].mode, s.dm[1].w), s |-> s]
  ELSE LET b == s.b[1] IN
       IF b.start # s.next \/ Rows[b.mode + 1] = << >> THEN [v |-> << >>, s |-> s]
       ELSE LET i == Step(s.first, s.prev, b.mode) IN [v |-> Make(b.mode, i), s |-> [s EXCEPT !.cur = i]]
UnitGain == [flag |-> 0, g |-> [k \in 1..12 |-> 255]]
GetRecon(s, layers) ==
  IF s.rg = << >> \/ s.r = << >> THEN <<[k \in 1..layers |-> <<UnitGain>>]>>
  ELSE LET r == s.r[1] IN IF r.start # s.rnext \/ r.data = << >> \/ (layers > 0 /\ Len(r.data[1]) # layers) THEN << >> ELSE <<r.data[1]>>
\* the frame that ends at t is complete: its block is used up
UpdateDemixing(s, t) ==
  IF s.dm = << >> \/ s.b = << >> THEN [ok |-> TRUE, s |-> s]
  ELSE LET e == s.b[1].end IN
       IF e # t THEN [ok |-> FALSE, s |-> [s EXCEPT !.next = e]]
       ELSE [ok |-> TRUE, s |-> [s EXCEPT !.next = e, !.b = << >>, !.prev = s.cur, !.first = FALSE]]
UpdateRecon(s, t) ==
  IF s.rg = << >> \/ s.r = << >> THEN [ok |-> TRUE, s |-> s]
  ELSE LET e == s.r[1].end IN IF e # t THEN [ok |-> FALSE, s |-> [s EXCEPT !.rnext = e]] ELSE [ok |-> TRUE, s |-> [s EXCEPT !.rnext = e, !.r = << >>]]
=============================================================================
