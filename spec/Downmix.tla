------------------------------ MODULE Downmix ------------------------------
(* What the channels of a smaller layout carry of a larger one, and how the
   larger one is had back. A signal gives each channel its value, in hundred-
   thousandths; p holds alpha, beta, gamma and delta in thousandths, w is in
   ten-thousandths. *)
EXTENDS Integers, Sequences, TLC
Times(c, v) == (c * v) \div 1000
Weigh(w, v) == (w * (v \div 10)) \div 1000
\* the value of channel x, for a signal m of a larger layout
RECURSIVE Of(_, _, _, _)
Of(m, p, w, x) ==
  LET V(y) == Of(m, p, w, y) IN
  IF x \in DOMAIN m THEN m[x]
  ELSE CASE x = "M" -> (V("L2") + V("R2")) \div 2
         [] x = "L2" -> V("L3") + Times(707, V("C"))
         [] x = "R2" -> V("R3") + Times(707, V("C"))
         [] x = "L3" -> V("L5") + Times(p[4], V("Ls5"))
         [] x = "R3" -> V("R5") + Times(p[4], V("Rs5"))
         [] x = "L5" -> V("L7")
         [] x = "R5" -> V("R7")
         [] x = "Ls5" -> Times(p[1], V("Lss7")) + Times(p[2], V("Lrs7"))
         [] x = "Rs5" -> Times(p[1], V("Rss7")) + Times(p[2], V("Rrs7"))
         [] x = "Ltf2" -> V("Ltf4") + Times(p[3], V("Ltb4"))
         [] x = "Rtf2" -> V("Rtf4") + Times(p[3], V("Rtb4"))
         [] x = "Ltf3" -> V("Ltf2") + Weigh(w, Times(p[4], V("Ls5")))
         [] x = "Rtf3" -> V("Rtf2") + Weigh(w, Times(p[4], V("Rs5")))
\* the value of channel x, from the channels that are coded
Over(v, c) == (v * 1000) \div c
RECURSIVE Back(_, _, _, _)
Back(m, p, w, x) ==
  LET V(y) == Back(m, p, w, y) IN
  IF x \in DOMAIN m THEN m[x]
  ELSE CASE x = "R2" -> 2 * V("M") - V("L2")
         [] x = "L3" -> V("L2") - Times(707, V("C"))
         [] x = "R3" -> V("R2") - Times(707, V("C"))
         [] x = "Ls5" -> Over(V("L3") - V("L5"), p[4])
         [] x = "Rs5" -> Over(V("R3") - V("R5"), p[4])
         [] x = "L7" -> V("L5")
         [] x = "R7" -> V("R5")
         [] x = "Lrs7" -> Over(V("Ls5") - Times(p[1], V("Lss7")), p[2])
         [] x = "Rrs7" -> Over(V("Rs5") - Times(p[1], V("Rss7")), p[2])
         [] x = "Ltf2" -> V("Ltf3") - Weigh(w, V("L3") - V("L5"))
         [] x = "Rtf2" -> V("Rtf3") - Weigh(w, V("R3") - V("R5"))
         [] x = "Ltb4" -> Over(V("Ltf2") - V("Ltf4"), p[3])
         [] x = "Rtb4" -> Over(V("Rtf2") - V("Rtf4"), p[3])
\* a factor that must not vanish for the channels of top to be had back from the coded ones
Divides(top, coded, p) ==
  ~(\/ ("L7" \in top /\ "L7" \notin coded /\ p[2] = 0)
    \/ (("Ls5" \in top \/ "Lss7" \in top) /\ "L5" \in coded /\ "Ls5" \notin coded /\ p[4] = 0)
    \/ ("Ltf4" \in top /\ "Ltb4" \notin coded /\ p[3] = 0))
\* the factor of an output gain, as a fraction; the coded signal is divided by it
Factor(g) == CASE g = 0 -> <<1, 1>> [] g = 5120 -> <<10, 1>> [] g = -5120 -> <<1, 10>> [] g = 10240 -> <<100, 1>>
               [] g = 1536 -> <<1995, 1000>> [] g = -1536 -> <<501, 1000>> [] g = 2560 -> <<3162, 1000>>
=============================================================================
