-------------------------------- MODULE Wide --------------------------------
(* Integers wider than TLC's: a sign and a magnitude of N limbs, least
   significant first, in base LB. *)
EXTENDS Integers, Sequences
CONSTANT LB
\* comparison of magnitudes of the same length, from the most significant limb
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i = 0 THEN TRUE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqFrom(a, b, i - 1)
LeqM(a, b) == LeqFrom(a, b, Len(a))
IsZero(a) == \A i \in DOMAIN a : a[i] = 0
\* sum of magnitudes: <<limbs, carry>>
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) == IF i > Len(a) THEN <<c>>
                       ELSE LET s == a[i] + b[i] + c IN <<s % LB>> \o AddFrom(a, b, i + 1, s \div LB)
AddM(a, b) == LET r == AddFrom(a, b, 1, 0) IN [m |-> SubSeq(r, 1, Len(a)), carry |-> r[Len(r)]]
\* lo <= v <= hi for lo = -lo_m (a magnitude) and hi = hi_m
InRange(v, loM, hiM) == IF v.n THEN LeqM(v.m, loM) ELSE LeqM(v.m, hiM)
\* magnitude divided by 2, n times (rounding towards zero); LB is even
RECURSIVE Half(_, _)
Half(a, i) == IF i > Len(a) THEN << >>
              ELSE <<(a[i] + (IF i < Len(a) THEN (a[i + 1] % 2) * LB ELSE 0)) \div 2>> \o Half(a, i + 1)
RECURSIVE Shr(_, _)
Shr(a, n) == IF n = 0 THEN a ELSE Shr(Half(a, 1), n - 1)
\* does a hold a multiple of 2^n ?
RECURSIVE Multiple(_, _)
Multiple(a, n) == IF n = 0 THEN TRUE ELSE a[1] % 2 = 0 /\ Multiple(Half(a, 1), n - 1)
Norm(v) == IF IsZero(v.m) THEN [v EXCEPT !.n = FALSE] ELSE v
\* the value of a wide number known to be small
RECURSIVE SmallFrom(_, _)
SmallFrom(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + LB * SmallFrom(a, i + 1)
=============================================================================
