-------------------------------- MODULE Mlsd --------------------------------
(* The audio comparator: a distance per frame and channel, and the two rules
   that turn distances into anomalies. *)
EXTENDS Integers, Sequences

(* --- the rules, over one channel's distances (integers) ------------------ *)
Glitches(d, thr) == { i \in 1..Len(d) : d[i] > thr }
CeilDiv(a, b) == (a + b - 1) \div b
MinFrames(susMs, hopMs) == IF CeilDiv(susMs, hopMs) < 1 THEN 1 ELSE CeilDiv(susMs, hopMs)
(* Maximal runs of frames above the threshold that last long enough. *)
Above(d, thr, a, b) == \A i \in a..b : d[i] > thr
Runs(d, thr, least) ==
  { r \in {<< a, b >> : a \in 1..Len(d), b \in 1..Len(d)} :
      /\ r[2] - r[1] + 1 >= least
      /\ Above(d, thr, r[1], r[2])
      /\ (r[1] = 1 \/ d[r[1] - 1] <= thr)
      /\ (r[2] = Len(d) \/ d[r[2] + 1] <= thr) }
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : y >= x
MaxOf(d) == IF Len(d) = 0 THEN 0 ELSE MaxS({ d[i] : i \in 1..Len(d) })
(* The highest level the signal stays at or above for `least` frames. *)
MaxSustained(d, least) ==
  IF Len(d) = 0 THEN 0
  ELSE IF Len(d) < least THEN MinS({ d[i] : i \in 1..Len(d) })
  ELSE MaxS({ MinS({ d[j] : j \in i..(i + least - 1) }) : i \in 1..(Len(d) - least + 1) })
RECURSIVE Sum(_, _, _)
Sum(d, a, b) == IF a > b THEN 0 ELSE d[a] + Sum(d, a + 1, b)
Quiet(d, peak, sus, least) == Glitches(d, peak) = {} /\ Runs(d, sus, least) = {}

(* --- the same sustained rule as a scan, one frame at a time --------------- *)
ScanInit == [start |-> 0, found |-> << >>]
Scan(s, d, i, thr, least) ==
  IF d[i] > thr THEN [s EXCEPT !.start = IF @ = 0 THEN i ELSE @]
  ELSE IF s.start # 0 /\ i - s.start >= least
       THEN [start |-> 0, found |-> Append(s.found, << s.start, i - 1 >>)]
       ELSE [s EXCEPT !.start = 0]
ScanEnd(s, d, least) ==
  IF s.start # 0 /\ Len(d) + 1 - s.start >= least
  THEN [start |-> 0, found |-> Append(s.found, << s.start, Len(d) >>)]
  ELSE [s EXCEPT !.start = 0]

(* --- the distance ---------------------------------------------------------- *)
NumFrames(n) == 1 + n \div 512
RECURSIVE SumSq(_, _, _)
SumSq(a, b, k) == IF k = 0 THEN 0 ELSE (a[k] - b[k]) * (a[k] - b[k]) + SumSq(a, b, k - 1)
(* out is the root mean square difference of the two spectra, up to rounding. *)
IsRms(out, a, b, tol) ==
  LET ms == SumSq(a, b, Len(a)) \div Len(a)
      lo == IF out > tol THEN out - tol ELSE 0
  IN lo * lo <= ms + 1 /\ (out + tol) * (out + tol) >= ms
=============================================================================
