----------------------------- MODULE GainsModel -----------------------------
(* Every small matrix over a small codebook: the stored form decodes to it, a
   stored form that lost or gained bytes is refused or decodes to a matrix of
   the right shape. *)
EXTENDS Gains, TLC, SequencesExt, FiniteSets
CONSTANTS R, C
Book == << 0, 5, 7 >>
Rows == [1..C -> {0, 5, 7}]
Matrices == [1..R -> Rows]
IndexOf(v) == (CHOOSE k \in 1..Len(Book) : Book[k] = v) - 1
NonZero(row) == SetToSortSeq({ j \in 1..C : row[j] # 0 }, <)
Encode(m) ==
  LET cols(i) == NonZero(m[i])
      lens == [i \in 1..R |-> Len(cols(i))]
      allc == FlattenSeq([i \in 1..R |-> [k \in 1..Len(cols(i)) |-> cols(i)[k] - 1]])
      allv == FlattenSeq([i \in 1..R |-> [k \in 1..Len(cols(i)) |-> IndexOf(m[i][cols(i)[k]])]])
  IN lens \o allc \o allv
VARIABLES m, blob, damage
vars == << m, blob, damage >>
Init == m \in Matrices /\ blob = Encode(m) /\ damage = "none"
Cut == damage = "none" /\ Len(blob) > 0 /\ m' = m /\ blob' = SubSeq(blob, 1, Len(blob) - 1) /\ damage' = "cut"
Grow == damage = "none" /\ m' = m /\ \E i \in 1..R : blob' = [blob EXCEPT ![i] = @ + 1] /\ damage' = "grow"
Flip == damage = "none" /\ m' = m /\ \E i \in 1..Len(blob), v \in 0..3 : blob' = [blob EXCEPT ![i] = v] /\ damage' = "flip"
Next == Cut \/ Grow \/ Flip
Spec == Init /\ [][Next]_vars
Ext(a) == [i \in 1..R |-> [j \in 1..C |-> a[i][j]]]
RoundTrip == damage = "none" => BlobOk(R, blob) /\ Sparse(R, C, blob, Book) = Ext(m)
CutRefused == damage = "cut" => ~BlobOk(R, blob)
GrowRefused == damage = "grow" => ~BlobOk(R, blob)
Shape == BlobOk(R, blob) => LET x == Sparse(R, C, blob, Book) IN Len(x) = R /\ \A i \in 1..R : Len(x[i]) = C
=============================================================================
