---------------------------- MODULE NumericModel ----------------------------
(* The laws of the helpers over a small byte and limb base. *)
EXTENDS Numeric
CONSTANTS W   \* bytes of a sample
VARIABLES s, k, big, num, f, a, b
vars == <<s, k, big, num, f, a, b>>
Byte == 0..BB - 1
Limb == 0..LB - 1
Init == s \in [1..W -> Byte] /\ k \in 1..W /\ big \in BOOLEAN /\ num = 0 /\ f = Q /\ a = <<0, 0>> /\ b = <<0, 0>>
Next == \/ /\ num = 0 /\ s = [i \in 1..W |-> 0] /\ f = Q /\ a = <<0, 0>> /\ b = <<0, 0>>
           /\ \/ num' \in -20..20 /\ f' = Q + 2 /\ UNCHANGED <<s, k, big, a, b>>
              \/ a' \in [1..2 -> Limb] /\ b' \in [1..2 -> Limb] /\ UNCHANGED <<s, k, big, num, f>>
        \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars
V(m) == m[1] + LB * m[2]
\* reading back what was written gives the written bits, and nothing else
RoundTrip == LET r == Read(Write(s, k, big), W, big) IN
               \A i \in 1..W : r[i] = IF i > W - k THEN s[i] ELSE 0
Orders == Write(s, k, TRUE) = Rev(Write(s, k, FALSE))
\* a fixed-point value is within one step of the value it stands for
OneStep == \A q \in Fixed(num, f, -4, 3, TRUE) : q * Pow(2, f - Q) - num < Pow(2, f - Q) /\ num - q * Pow(2, f - Q) < Pow(2, f - Q)
Refusal == (Fixed(num, f, -4, 3, TRUE) = {}) <=> ~(num >= -4 * Pow(2, f - Q) /\ num <= 3 * Pow(2, f - Q))
WideAdd == LET x == AddM(a, b) IN V(x.m) + LB * LB * x.carry = V(a) + V(b)
WideLeq == LeqM(a, b) <=> V(a) <= V(b)
WideShr == \A n \in 0..3 : V(Shr(a, n)) = V(a) \div Pow(2, n) /\ (Multiple(a, n) <=> V(a) % Pow(2, n) = 0)
=============================================================================
