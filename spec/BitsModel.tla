----------------------------- MODULE BitsModel -----------------------------
(* The reader keeps a window of the source, loads it when it runs out and
   moves it when the position is set or the source is flushed. The bytes of
   the source are numbered from 1 on, so that a bit has a name that does not
   depend on the window: bit i of byte k is 8 * (k - 1) + i. Every read must
   return the bits named by its position. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Cap, MaxBytes, MaxRead
VARIABLES src, buf, bo, bs, so, valid,  \* as in the reader
          base, pos, last               \* bytes flushed, absolute position, the last read
vars == <<src, buf, bo, bs, so, valid, base, pos, last>>
Min(a, b) == IF a < b THEN a ELSE b
R == [buf |-> buf, bo |-> bo, bs |-> bs, so |-> so]
Tell(r) == r.so - r.bs + r.bo
Seek(r, p) ==  \* p within the source
  IF r.so - r.bs <= p /\ p < r.so THEN [r EXCEPT !.bo = p - (r.so - r.bs)]
  ELSE LET st == p \div 8 n == Min(Cap, Len(src) - st) IN
       [buf |-> SubSeq(src, st + 1, st + n) \o SubSeq(r.buf, n + 1, Cap), bo |-> p % 8, so |-> (st + n) * 8, bs |-> n * 8]
BitName(r) == 8 * (r.buf[(r.bo \div 8) + 1] - 1) + (r.bo % 8)
RECURSIVE Take(_, _, _)
Take(r, n, out) == IF n = 0 \/ r.bo >= r.bs THEN [r |-> r, out |-> out, left |-> n]
                   ELSE Take([r EXCEPT !.bo = @ + 1], n - 1, Append(out, BitName(r)))
RECURSIVE Whole(_, _, _)
Whole(r, n, out) == IF n < 8 THEN [r |-> r, out |-> out, left |-> n]
                    ELSE LET s == Seek(r, Tell(r)) k == Min(s.bs - s.bo, (n \div 8) * 8) t == Take(s, k, out)
                         IN Whole(t.r, n - k, t.out)
Read(n) ==
  IF n = 0 THEN [r |-> R, out |-> << >>, left |-> 0]
  ELSE LET r0 == Seek(R, Tell(R)) end == Tell(r0) + n IN
       IF end \div 8 = Tell(r0) \div 8 THEN Take(r0, n, << >>)
       ELSE LET k == IF r0.bo % 8 = 0 THEN 0 ELSE 8 - (r0.bo % 8)
                a == Take(r0, k, << >>)
                b == Whole(a.r, n - k, a.out)
                c == Seek(b.r, Tell(b.r))
                d == Take(c, end % 8, b.out)
            IN [r |-> d.r, out |-> d.out, left |-> b.left - (end % 8) + d.left]
Set(r) == buf' = r.buf /\ bo' = r.bo /\ bs' = r.bs /\ so' = r.so
Init == /\ src = << >> /\ buf = [i \in 1..Cap |-> 0] /\ bo = 0 /\ bs = 0 /\ so = 0 /\ valid = TRUE
        /\ base = 0 /\ pos = 0 /\ last = [want |-> << >>, got |-> << >>, left |-> 0]
ReadA(n) == /\ valid' = TRUE
            /\ IF Tell(R) + n > 8 * Len(src) THEN UNCHANGED <<src, buf, bo, bs, so, base, pos, last>>
               ELSE LET x == Read(n) IN /\ Set(x.r) /\ UNCHANGED <<src, base>>
                                        /\ last' = [want |-> [i \in 1..n |-> pos + i - 1], got |-> x.out, left |-> x.left]
                                        /\ pos' = pos + n
SeekA(p) == /\ valid /\ p \in 0..(8 * Len(src)) /\ Set(Seek(R, p)) /\ pos' = 8 * base + p /\ UNCHANGED <<src, valid, base, last>>
PushA(n) == /\ base + Len(src) + n <= MaxBytes /\ src' = src \o [i \in 1..n |-> base + Len(src) + i]
            /\ UNCHANGED <<buf, bo, bs, so, valid, base, pos, last>>
FlushA == LET n == Tell(R) \div 8 IN
          /\ src' = SubSeq(src, n + 1, Len(src)) /\ so' = so - 8 * n /\ base' = base + n /\ valid' = FALSE
          /\ UNCHANGED <<buf, bo, bs, pos, last>>
Next == (\E n \in 0..MaxRead : ReadA(n)) \/ (\E p \in 0..(8 * MaxBytes) : SeekA(p)) \/ PushA(1) \/ PushA(2) \/ FlushA
Spec == Init /\ [][Next]_vars
ReadsRight == last.got = last.want /\ last.left = 0
Position == Tell(R) = pos - 8 * base
InBounds == 0 <= bo /\ bo <= bs /\ so <= 8 * Len(src) /\ Tell(R) >= 0
Window == \A i \in 1..(bs \div 8) : i > (bo \div 8) => buf[i] = base + ((so - bs) \div 8) + i
=============================================================================
