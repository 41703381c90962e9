-------------------------------- MODULE Gains --------------------------------
(* Loudspeaker rendering gains: the matrix of every pair of layouts, and the
   two compact forms a matrix is stored in. A gain is an integer, in millionths. *)
EXTENDS Integers, Sequences

ChannelCount(n) ==
  CASE n = "0+1+0" -> 1 [] n = "0+2+0" -> 2 [] n = "0+5+0" -> 6 [] n = "2+5+0" -> 8
    [] n = "4+5+0" -> 10 [] n = "0+7+0" -> 8 [] n = "4+7+0" -> 12 [] n = "9+10+3" -> 24
    [] n = "7.1.5.4" -> 17 [] n = "3.1.2" -> 6 [] n = "7.1.2" -> 10 [] n = "9.1.6" -> 16
    [] n = "4+5+1" -> 11 [] n = "3+7+0" -> 12 [] n = "4+9+0" -> 14
    [] n = "A0" -> 1 [] n = "A1" -> 4 [] n = "A2" -> 9 [] n = "A3" -> 16 [] n = "A4" -> 25
    [] OTHER -> 0

Codebook == << 0, 500000, 577350, 707107, 816497, 853553, 1000000, 1154701, 1207107, 1224745 >>

Zeros(r, c) == [i \in 1..r |-> [j \in 1..c |-> 0]]
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)

Dense(r, c, data) == [i \in 1..r |-> [j \in 1..c |->
  LET k == (i - 1) * c + j IN IF k <= Len(data) THEN data[k] ELSE 0]]

(* A sparse matrix: the number of entries of each row, then all columns, then
   all codebook indices. Later entries of a row win. *)
BlobOk(r, b) == /\ Len(b) >= r
                /\ (Len(b) - r) % 2 = 0
                /\ SumTo(b, r) <= (Len(b) - r) \div 2
Sparse(r, c, b, book) ==
  LET m == (Len(b) - r) \div 2
      RECURSIVE Put(_, _, _)
      Put(row, k, n) ==  \* entries k .. k+n-1 of the flattened arrays
        IF n = 0 THEN row
        ELSE LET col == b[r + k] IN LET v == b[r + m + k] IN
             Put(IF col < c /\ v < Len(book) THEN [row EXCEPT ![col + 1] = book[v + 1]] ELSE row, k + 1, n - 1)
  IN [i \in 1..r |-> Put([j \in 1..c |-> 0], SumTo(b, i - 1) + 1, b[i])]

Decompress(in, out, dense, blob) ==
  LET r == ChannelCount(in)  c == ChannelCount(out) IN
  IF r = 0 \/ c = 0 THEN [status |-> "INVALID", rows |-> << >>]
  ELSE IF Len(dense) > 0 THEN [status |-> "OK", rows |-> Dense(r, c, dense)]
  ELSE IF Len(blob) = 0 THEN [status |-> "OK", rows |-> Zeros(r, c)]
  ELSE IF ~BlobOk(r, blob) THEN [status |-> "INVALID", rows |-> << >>]
  ELSE [status |-> "OK", rows |-> Sparse(r, c, blob, Codebook)]
=============================================================================
