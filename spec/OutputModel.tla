---------------------------- MODULE OutputModel ----------------------------
(* Every layout, ordering and frame width: reordering is a permutation that
   leaves the ranks ascending; the layouts' two numberings are inverse to each
   other; interleaving loses nothing. *)
EXTENDS Output
VARIABLES s, android, n, t
vars == <<s, android, n, t>>
Init == s \in 0..15 /\ android \in BOOLEAN /\ n \in 0..26 /\ t \in 1..2
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
F == [i \in 1..n |-> i]
IsPerm(q) == Len(q) = n /\ {q[i] : i \in 1..Len(q)} = 1..n
Permutation == \A r \in Reorder(s, android, F) : IsPerm(r.v)
Ascending == (android /\ s \in Known /\ n = Len(Speakers(s))) =>
  \E r \in Reorder(s, android, F) : r.ok /\ \A i \in 1..(n - 1) : Rank(Speakers(s)[r.v[i]]) < Rank(Speakers(s)[r.v[i + 1]])
Distinct == s \in Known => Cardinality({Speakers(s)[i] : i \in 1..Len(Speakers(s))}) = Len(Speakers(s))
Inverse == (s \in 0..14 => ToPublic(ToInternal(s)) = [ok |-> TRUE, v |-> s])
           /\ \A ty \in 0..3 : LET l == [type |-> ty, ss |-> IF ty = Conv THEN s ELSE -1] IN ToPublic(l).ok => ToInternal(ToPublic(l).v) = l
PcmF == [c \in 1..3 |-> [k \in 1..t |-> <<0, c, k, n>>]]
Interleaved == LET b == Pcm(PcmF, 16, android) IN
  /\ Len(b) = 6 * t
  /\ \A c \in 1..3 : \A k \in 1..t : LET p == ((k - 1) * 3 + c - 1) * 2 IN
       <<b[p + 1], b[p + 2]>> = IF android THEN <<n, k>> ELSE <<k, n>>
=============================================================================
