-------------------------------- MODULE Wav --------------------------------
(* The wave files an encoder reads. A file is [good, ch, rate, depth, float, ticks,
   told, bytes]: ticks whole ticks lie in bytes, told are announced by its header.
   Samples become 32 bit integers: integers are left-justified, floats scaled,
   clamped and cut towards zero, a NaN is silence. *)
EXTENDS Integers, Sequences, FiniteSets
Lowest == -2147483647 - 1
Highest == 2147483647
Pow2(n) == 2 ^ n
Signed16(x) == IF x >= 32768 THEN x - 65536 ELSE x
\* from the upper and the lower half of a 32 bit word
Word(hi, lo) == Signed16(hi) * 65536 + lo
FloatValue(hi, lo) ==
  LET neg == hi >= 32768 e == (hi % 32768) \div 128 f == (hi % 128) * 65536 + lo m == f + Pow2(23)
      v == IF e < 127 THEN IF e >= 119 THEN m * Pow2(e - 119) ELSE IF e >= 96 THEN m \div Pow2(119 - e) ELSE 0 ELSE 0
  IN IF e = 255 /\ f # 0 THEN 0 ELSE IF e >= 127 THEN (IF neg THEN Lowest ELSE Highest) ELSE IF neg THEN -v ELSE v
\* the value of the little endian bytes b, of which there are 2, 3 or 4
Value(float, b) == CASE Len(b) = 2 -> Word(b[2] * 256 + b[1], 0)
                     [] Len(b) = 3 -> Word(b[3] * 256 + b[2], b[1] * 256)
                     [] OTHER -> IF float THEN FloatValue(b[4] * 256 + b[3], b[2] * 256 + b[1]) ELSE Word(b[4] * 256 + b[3], b[2] * 256 + b[1])
\* the sample of channel c (from 0) at tick t (from 0)
Sample(f, c, t) == LET k == f.depth \div 8 at == (t * f.ch + c) * k IN Value(f.float, SubSeq(f.bytes, at + 1, at + k))

Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
With(q, id) == SelectSeq(q, LAMBDA x : x.id = id)
ReadableBy(f, e) == f.good /\ f.depth <= e.depth /\ f.rate = e.rate /\ e.rate = e.out
Valid(files, elements, md) ==
  /\ Distinct([i \in 1..Len(md) |-> md[i].id])
  /\ \A i \in 1..Len(md) : LET e == With(elements, md[i].id) c == md[i].chs IN
       /\ e # << >> /\ e[1].codec
       /\ ReadableBy(files[md[i].file], e[1])
       /\ Distinct([k \in 1..Len(c) |-> c[k].label])
       /\ \A k \in 1..Len(c) : c[k].label # "none" /\ c[k].at < files[md[i].file].ch

\* A reader: [m: its metadata, frame, pos: ticks given, ended: it met the end before all announced ticks].
Reader(elements, m) == [m |-> m, frame |-> With(elements, m.id)[1].frame, pos |-> 0, ended |-> FALSE]
Least(a, b) == IF a < b THEN a ELSE b
Now(f, r) == Least(r.frame, f.ticks - r.pos)
After(f, r) == [r EXCEPT !.pos = @ + Now(f, r), !.ended = @ \/ (Now(f, r) < r.frame /\ f.ticks < f.told)]
Done(f, r) == r.ended \/ r.pos = f.told
Given(f, r) == {<<r.m.chs[k].label, [i \in 1..Now(f, r) |-> Sample(f, r.m.chs[k].at, r.pos + i - 1)]>> : k \in 1..Len(r.m.chs)}
=============================================================================
