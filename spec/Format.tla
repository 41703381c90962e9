------------------------------- MODULE Format -------------------------------
(* Reading fields from a sequence of bytes. Values of up to 30 bits are
   integers; values of 32 bits are pairs <<upper 16 bits, lower 16 bits>>. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
BitAt(d, p) == (d[(p \div 8) + 1] \div Pow2(7 - (p % 8))) % 2
RECURSIVE UBits(_, _, _)
UBits(d, p, n) ==  \* whole bytes at once where possible
  IF n = 0 THEN 0
  ELSE IF (p + n) % 8 = 0 /\ n >= 8 THEN UBits(d, p, n - 8) * 256 + d[(p + n) \div 8]
  ELSE 2 * UBits(d, p, n - 1) + BitAt(d, p + n - 1)
Signed(v, n) == IF v >= Pow2(n - 1) THEN v - Pow2(n) ELSE v
IsSmall(v) == v[1] < 16384
Small(v) == v[1] * 65536 + v[2]
Pair(n) == <<n \div 65536, n % 65536>>
Leq2(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
PairAdd(a, b) == LET lo == a[2] + b[2] IN <<a[1] + b[1] + (lo \div 65536), lo % 65536>>  \* the first may exceed 16 bits
Fits32(a) == a[1] < 65536

(* --- leb128, on a byte boundary --- *)
Ok(v, p) == [st |-> "OK", v |-> v, p |-> p]
Er(st) == [st |-> st, v |-> 0, p |-> 0]
P7(b) == b % 128
RECURSIVE LebScan(_, _, _, _, _)   \* o: byte offset of the first byte, i: number of this one, lo: low 28 bits, t: the top 4
LebScan(d, o, i, lo, t) ==
  IF o + i > Len(d) THEN Er("EXHAUSTED")
  ELSE LET b == d[o + i] c == b >= 128 v == P7(b) IN
       IF c /\ i = 8 THEN Er("INVALID")
       ELSE IF (i = 5 /\ v >= 16) \/ (i > 5 /\ v # 0) THEN Er("INVALID")
       ELSE LET lo2 == IF i <= 4 THEN lo + v * Pow2(7 * (i - 1)) ELSE lo
                t2 == IF i = 5 THEN v ELSE t IN
            IF c THEN LebScan(d, o, i + 1, lo2, t2)
            ELSE Ok(<<t2 * 4096 + (lo2 \div 65536), lo2 % 65536>>, 8 * (o + i))
LebAt(d, p) == LebScan(d, p \div 8, 1, 0, 0)
\* 7-bit groups of a 32-bit value, least significant first
Group(v, i) == LET low28 == (v[1] % 4096) * 65536 + v[2] top == v[1] \div 4096 IN
               IF i <= 4 THEN (low28 \div Pow2(7 * (i - 1))) % 128 ELSE IF i = 5 THEN top ELSE 0
LebLen(v) == CHOOSE n \in 1..5 : (\A i \in (n + 1)..5 : Group(v, i) = 0) /\ (n = 1 \/ Group(v, n) # 0)
\* mode 0: shortest; otherwise exactly that many bytes
LebFits(v, mode) == mode = 0 \/ LebLen(v) <= mode
LebOut(v, mode) == LET n == IF mode = 0 THEN LebLen(v) ELSE mode IN
                   [i \in 1..n |-> Group(v, i) + (IF i < n THEN 128 ELSE 0)]

(* --- strings and bytes, on a byte boundary --- *)
RECURSIVE StrScan(_, _, _)
StrScan(d, o, i) == IF i = 128 THEN Er("INVALID")
                    ELSE IF o + i + 1 > Len(d) THEN Er("EXHAUSTED")
                    ELSE IF d[o + i + 1] = 0 THEN Ok(SubSeq(d, o + 1, o + i), 8 * (o + i + 1))
                    ELSE StrScan(d, o, i + 1)
StrAt(d, p) == StrScan(d, p \div 8, 0)
StrFits(s) == Len(s) <= 127 /\ \A i \in 1..Len(s) : s[i] # 0

(* --- a reader: status, position and the fields read so far --- *)
Start(p) == [st |-> "OK", p |-> p, r |-> << >>]
Fail(st) == [st |-> st, p |-> 0, r |-> << >>]
Set(s, name, v) == [s EXCEPT !.r = (name :> v) @@ s.r]
Need(s, c) == IF s.st = "OK" /\ ~c THEN Fail("INVALID") ELSE s
\* mode: -1 when any length of a leb128 is accepted, otherwise the one it must have
Field(d, s, f, mode) ==
  LET k == f[2] n == f[3] q == IF k \in {"u", "s"} THEN s.p + n ELSE s.p IN
  CASE k = "u" -> IF q > 8 * Len(d) THEN Fail("EXHAUSTED") ELSE [s EXCEPT !.p = q, !.r = (f[1] :> UBits(d, s.p, n)) @@ s.r]
    [] k = "s" -> IF q > 8 * Len(d) THEN Fail("EXHAUSTED") ELSE [s EXCEPT !.p = q, !.r = (f[1] :> Signed(UBits(d, s.p, n), n)) @@ s.r]
    [] k = "u32" -> IF s.p + 32 > 8 * Len(d) THEN Fail("EXHAUSTED")
                    ELSE [s EXCEPT !.p = s.p + 32, !.r = (f[1] :> <<UBits(d, s.p, 16), UBits(d, s.p + 16, 16)>>) @@ s.r]
    [] k = "leb" -> LET x == LebAt(d, s.p) IN IF x.st # "OK" THEN Fail(x.st)
                    ELSE IF mode >= 0 /\ (x.p - s.p) \div 8 # Len(LebOut(x.v, mode)) THEN Fail("INVALID")
                    ELSE [s EXCEPT !.p = x.p, !.r = (f[1] :> x.v) @@ s.r]
    [] k = "str" -> LET x == StrAt(d, s.p) IN IF x.st # "OK" THEN Fail(x.st) ELSE [s EXCEPT !.p = x.p, !.r = (f[1] :> x.v) @@ s.r]
    [] k = "bytes" -> IF n > Len(d) - (s.p \div 8) THEN Fail("EXHAUSTED")
                      ELSE [s EXCEPT !.p = s.p + 8 * n, !.r = (f[1] :> SubSeq(d, (s.p \div 8) + 1, (s.p \div 8) + n)) @@ s.r]
Run(d, s, fs, mode) == LET f(a, x) == IF a.st # "OK" THEN a ELSE Field(d, a, x, mode) IN FoldLeft(f, s, fs)
Bind(s0, F(_)) == LET s == TLCEval(s0) IN IF s.st = "OK" THEN F(s) ELSE s
\* n records read by the same reader, one after the other
List(s, name, n, F(_)) ==
  IF s.st # "OK" THEN s ELSE
  LET one(a, i) == IF a.x.st # "OK" THEN a
                   ELSE LET y == TLCEval(F([a.x EXCEPT !.r = << >>])) IN [x |-> y, acc |-> IF y.st = "OK" THEN Append(a.acc, y.r) ELSE a.acc]
      z == FoldLeft(one, [x |-> s, acc |-> << >>], [i \in 1..n |-> i])
  IN IF z.x.st # "OK" THEN z.x ELSE [s EXCEPT !.p = z.x.p, !.r = (name :> z.acc) @@ s.r]
\* a record read on its own, stored under name
Sub(s, name, F(_)) == IF s.st # "OK" THEN s ELSE
                      LET x == F([s EXCEPT !.r = << >>]) IN IF x.st # "OK" THEN x ELSE [s EXCEPT !.p = x.p, !.r = (name :> x.r) @@ s.r]
=============================================================================
