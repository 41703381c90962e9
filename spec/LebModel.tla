------------------------------ MODULE LebModel ------------------------------
(* What is written is read back, at every bit offset, for every variable-length form. *)
EXTENDS Bits
CONSTANT Dense
VARIABLES v, off, mode
Init == /\ v \in {BitsOf(x, 32) : x \in (0..Dense) \cup {127, 128, 129, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 2147483647}}
                 \cup {[i \in 1..32 |-> IF i = k THEN 1 ELSE 0] : k \in 1..32} \cup {[i \in 1..32 |-> IF i <= k THEN 1 ELSE 0] : k \in 1..32}
        /\ off \in {0, 1, 7} /\ mode \in 0..8
Next == UNCHANGED <<v, off, mode>>
Spec == Init /\ [][Next]_<<v, off, mode>>
At(q) == Pad(Zeros(off) \o Cat(q))
LebBack == LET w == WLeb(v, FALSE, mode) IN w.st = "OK" => LET r == Leb(At(w.v), off) IN r.st = "OK" /\ r.v = v /\ r.n = 8 * Len(w.v)
IsoBack == LET w == WIso(v) r == Iso(At(w), off, [i \in 1..32 |-> 1]) IN r.st = "OK" /\ r.v = v /\ r.n = 8 * Len(w)
Minimal == WLeb(v, FALSE, 0).st = "OK" /\ WLeb(v, TRUE, 0).st = "OK" /\ \A k \in 1..8 : (WLeb(v, FALSE, k).st = "OK") <=> k * 8 >= WLeb(v, FALSE, 0).n
CutExhausts == LET w == WLeb(v, FALSE, mode) IN w.st = "OK" => \A k \in 0..(Len(w.v) - 1) : Leb(Pad(Cat(SubSeq(w.v, 1, k))), 0).st = "EXHAUSTED"
=============================================================================
