---------------------------- MODULE EncoderModel ----------------------------
(* Every short history of the encoder, and what a decoder that trims hears. *)
EXTENDS Encoder
CONSTANTS S, Delays, Extra, Calls
VARIABLES s, heard, late
vars == <<s, heard, late>>
Subs == << [id |-> 1, ch |-> <<1>>] >>
Configs == {[S |-> S, D |-> d, us |-> IF is THEN d + x ELSE x, ue |-> y, is |-> is, ie |-> ie, td |-> FALSE, gains |-> FALSE,
             els |-> << [id |-> 9, n |-> 1, subs |-> Subs] >>, arbs |-> << >>] : d \in Delays, x \in Extra, y \in 0..S, is \in BOOLEAN, ie \in BOOLEAN}
Init == /\ s \in {New(c) : c \in {k \in Configs : CanMake(k)}} /\ heard = << >> /\ late = FALSE
X == s.x[1][1]
\* samples carry their number
Feed == /\ ~s.fin /\ s.short[1] = {} /\ Len(X) < Calls * S
        /\ \E n \in 1..S : s' = Encoded(s, << [el |-> 1, lab |-> 1, x |-> [j \in 1..n |-> Len(X) + j]] >>, << >>)
        /\ UNCHANGED <<heard, late>>
Finish == s.fin = FALSE /\ s' = [s EXCEPT !.fin = TRUE] /\ late' = (s.out > 0 /\ s.out = Units(s)) /\ UNCHANGED heard
Frame(u) == SubSeq(Coded(s, 1, 1), u * S + 1, (u + 1) * S)
Give == LET u == s.out IN
        /\ Ready(s, u) /\ u < Units(s)
        /\ heard' = heard \o SubSeq(Frame(u), CutStart(s, u) + 1, S - CutEnd(s, 1, u))
        /\ UNCHANGED late
        /\ s' = Taken(s, u)
Next == Feed \/ Finish \/ Give
Spec == Init /\ [][Next]_vars
\* what the user asked to lose of the input itself
Lead(t) == IF t.c.is THEN t.c.us - t.c.D ELSE t.c.us
Tail_(t) == IF t.c.ie THEN t.c.ue - Pad(t, 1) ELSE t.c.ue
Kept == SubSeq(X, Lead(s) + 1, Len(X) - (IF late THEN 0 ELSE Tail_(s)))
\* every sample once, in order, nothing else
Once == \A j \in 1..Len(heard) : heard[j] = Lead(s) + j
Whole == Finished(s) => heard = Kept
Stuck == ~ENABLED Next => Finished(s) \/ Excused(s)
Counted == s.out <= Units(s)
=============================================================================
