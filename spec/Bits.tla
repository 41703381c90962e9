-------------------------------- MODULE Bits --------------------------------
(* A reader and a writer of bits. The source is a sequence of bytes, the
   position a number of bits; a write appends bits. Values are sequences of
   bits, most significant first, unless said otherwise. *)
EXTENDS Integers, Sequences
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Bit(d, i) == (d[(i \div 8) + 1] \div P2(7 - (i % 8))) % 2
Slice(d, p, n) == [k \in 1..n |-> Bit(d, p + k - 1)]
Size(d) == 8 * Len(d)
RECURSIVE Val(_)
Val(b) == IF b = << >> THEN 0 ELSE 2 * Val(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
ByteAt(d, p) == Val(Slice(d, p, 8))
BitsOf(v, n) == [k \in 1..n |-> IF n - k > 30 THEN 0 ELSE (v \div P2(n - k)) % 2]
Zeros(n) == [k \in 1..n |-> 0]
RevB(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
RECURSIVE Strip(_)
Strip(b) == IF b = << >> \/ b[1] = 1 THEN b ELSE Strip(Tail(b))
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = << >> THEN TRUE ELSE IF a[1] = b[1] THEN LexLeq(Tail(a), Tail(b)) ELSE a[1] < b[1]
LeqBits(a, b) == LET x == Strip(a) y == Strip(b) IN IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LexLeq(x, y)

OK(v, n) == [st |-> "OK", v |-> v, n |-> n]         \* n: bits consumed
Bad == [st |-> "INVALID", v |-> << >>, n |-> 0]
More == [st |-> "EXHAUSTED", v |-> << >>, n |-> 0]
MaxString == 128
MaxLeb == 8

(* --- reading at position p of d --- *)
Literal(d, p, n, max) == IF n > max \/ n < 0 THEN Bad ELSE IF p + n > Size(d) THEN More ELSE OK(Slice(d, p, n), n)
RECURSIVE StrFrom(_, _, _)
StrFrom(d, p, i) == IF i = MaxString THEN Bad
                    ELSE IF p + 8 * (i + 1) > Size(d) THEN More
                    ELSE IF ByteAt(d, p + 8 * i) = 0 THEN OK([k \in 1..i |-> ByteAt(d, p + 8 * (k - 1))], 8 * (i + 1))
                    ELSE StrFrom(d, p, i + 1)
String(d, p) == StrFrom(d, p, 0)
\* acc: bits so far; least significant first for leb128, most significant first for the other
RECURSIVE LebFrom(_, _, _, _), IsoFrom(_, _, _, _, _)
LebFrom(d, p, i, acc) ==
  IF p + 8 > Size(d) THEN More
  ELSE LET b == Slice(d, p, 8) a == acc \o RevB(Tail(b)) IN
       IF b[1] = 1 /\ i = MaxLeb THEN Bad
       ELSE IF \E k \in 33..Len(a) : a[k] = 1 THEN Bad
       ELSE IF b[1] = 1 THEN LebFrom(d, p + 8, i + 1, a)
       ELSE OK(RevB(SubSeq(a \o Zeros(32), 1, 32)), 8 * i)
Leb(d, p) == LebFrom(d, p, 1, << >>)
IsoFrom(d, p, i, acc, max) ==
  IF p + 8 > Size(d) THEN More
  ELSE LET b == Slice(d, p, 8) a == Strip(acc \o Tail(b)) IN
       IF b[1] = 1 /\ i = MaxLeb THEN Bad
       ELSE IF ~LeqBits(a, max) THEN Bad
       ELSE IF b[1] = 1 THEN IsoFrom(d, p + 8, i + 1, a, max)
       ELSE OK(Zeros(32 - Len(a)) \o a, 8 * i)
Iso(d, p, max) == IsoFrom(d, p, 1, << >>, max)
Bytes(d, p, n) == IF p + 8 * n > Size(d) THEN More ELSE OK([k \in 1..n |-> ByteAt(d, p + 8 * (k - 1))], 8 * n)
Available(d, p) == (Size(d) - p) \div 8
\* after Flush a position may only be moved to once the current one has been asked for again
SeekTo(d, valid, q) == IF ~valid THEN "PRECONDITION" ELSE IF q < 0 THEN "INVALID" ELSE IF q > Size(d) THEN "EXHAUSTED" ELSE "OK"

(* --- writing: the bits to append --- *)
WLiteral(b, n, max) ==  \* b: 64 bits
  IF n < 0 \/ n > max \/ (n < 64 /\ \E k \in 1..(64 - n) : b[k] = 1) THEN Bad ELSE OK(SubSeq(b, 65 - n, 64), n)
RECURSIVE Cat(_)
Cat(q) == IF q = << >> THEN << >> ELSE BitsOf(Head(q), 8) \o Cat(Tail(q))
WString(s) == IF Len(s) > MaxString - 1 \/ \E i \in 1..Len(s) : s[i] = 0 THEN Bad ELSE OK(Cat(s \o <<0>>), 8 * (Len(s) + 1))
\* v: 32 bits. mode 0: as few bytes as possible; otherwise exactly that many
Ext(v, signed, k) == IF k <= 32 THEN v[33 - k] ELSE IF signed THEN v[1] ELSE 0  \* k-th bit from the least significant one
Enough(v, signed, n) == \A k \in 1..33 : k > 7 * n => Ext(v, signed, k) = IF signed THEN Ext(v, signed, 7 * n) ELSE 0
LebBytes(v, signed, n) == [i \in 1..n |-> (IF i < n THEN 128 ELSE 0) + Val([k \in 1..7 |-> Ext(v, signed, 7 * i + 1 - k)])]
WLeb(v, signed, mode) ==
  IF mode = 0 THEN LET n == CHOOSE n \in 1..5 : Enough(v, signed, n) /\ \A m \in 1..(n - 1) : ~Enough(v, signed, m)
                   IN OK(LebBytes(v, signed, n), 8 * n)
  ELSE IF Enough(v, signed, mode) THEN OK(LebBytes(v, signed, mode), 8 * mode) ELSE Bad
WIso(v) == LET n == CHOOSE n \in 1..5 : Enough(v, FALSE, n) /\ \A m \in 1..(n - 1) : ~Enough(v, FALSE, m)
               q == RevB(LebBytes(v, FALSE, n))
           IN [i \in 1..n |-> (q[i] % 128) + (IF i < n THEN 128 ELSE 0)]
Pad(b) == LET k == (8 - (Len(b) % 8)) % 8 x == b \o Zeros(k) IN [i \in 1..(Len(x) \div 8) |-> Val(SubSeq(x, 8 * i - 7, 8 * i))]
=============================================================================
