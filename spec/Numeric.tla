------------------------------ MODULE Numeric ------------------------------
(* What the numeric helpers promise, for every value:
   - a sum or a narrowing conversion is exact or refused;
   - fixed-point conversion is exact up to one step, or refused;
   - PCM bytes carry the most significant bits of a sample in the byte order
     asked for, and are read back into the most significant bits;
   - conversion to an integer sample truncates and clips. *)
EXTENDS Wide
CONSTANT BB  \* values of a byte
Q == 8       \* fraction bits of Q7.8 and Q0.8
Pow(b, n) == IF n = 0 THEN 1 ELSE LET RECURSIVE P(_) P(k) == IF k = 0 THEN 1 ELSE b * P(k - 1) IN P(n)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* --- PCM bytes. A sample is the little-endian sequence of its W bytes. --- *)
Write(s, k, big) == LET top == SubSeq(s, Len(s) - k + 1, Len(s)) IN IF big THEN Rev(top) ELSE top
Read(b, w, big) == [i \in 1..(w - Len(b)) |-> 0] \o (IF big THEN Rev(b) ELSE b)

(* --- fixed point: v/2^f with f >= Q, as an integer over 2^Q --- *)
FloorDiv(a, b) == a \div b
TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
\* the values allowed for the fixed-point form of num/2^f ({} : to be refused)
Fixed(num, f, lo, hiExclusiveNum, hiInclusive) ==
  LET d == Pow(2, f - Q) IN
  IF num < lo * d \/ (IF hiInclusive THEN num > hiExclusiveNum * d ELSE num >= hiExclusiveNum * d) THEN {}
  ELSE {FloorDiv(num, d), TruncDiv(num, d)}
\* Q7.8 holds -32768..32767 steps; Q0.8 holds 0..255 steps and [255/256, 1) rounds down into it.
FixedQ78(num, f) == Fixed(num, f, -32768, 32767, TRUE)
FixedQ08(num, f) == Fixed(num, f, 0, 256, FALSE)

(* --- narrowing --- *)
Lim(t) == CASE t = "i8" -> [lo |-> <<128, 0, 0, 0>>, hi |-> <<127, 0, 0, 0>>]
            [] t = "u8" -> [lo |-> <<0, 0, 0, 0>>, hi |-> <<255, 0, 0, 0>>]
            [] t = "i16" -> [lo |-> <<32768, 0, 0, 0>>, hi |-> <<32767, 0, 0, 0>>]
            [] t = "u16" -> [lo |-> <<0, 0, 0, 0>>, hi |-> <<65535, 0, 0, 0>>]
            [] t = "i32" -> [lo |-> <<0, 32768, 0, 0>>, hi |-> <<65535, 32767, 0, 0>>]
            [] t = "u32" -> [lo |-> <<0, 0, 0, 0>>, hi |-> <<65535, 65535, 0, 0>>]
            [] t = "i64" -> [lo |-> <<0, 0, 0, 32768>>, hi |-> <<65535, 65535, 65535, 32767>>]
            [] t = "u64" -> [lo |-> <<0, 0, 0, 0>>, hi |-> <<65535, 65535, 65535, 65535>>]
            [] t = "bool" -> [lo |-> <<0, 0, 0, 0>>, hi |-> <<1, 0, 0, 0>>]
Fits(v, t) == InRange(v, Lim(t).lo, Lim(t).hi)

(* --- to an integer sample of 32 bits: v = mag/2^f --- *)
Clip32(n, mag) == IF n THEN (IF LeqM(mag, Lim("i32").lo) THEN [n |-> ~IsZero(mag), m |-> mag] ELSE [n |-> TRUE, m |-> Lim("i32").lo])
                  ELSE (IF LeqM(mag, Lim("i32").hi) THEN [n |-> FALSE, m |-> mag] ELSE [n |-> FALSE, m |-> Lim("i32").hi])
=============================================================================
