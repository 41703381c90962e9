----------------------------- MODULE ProbeModel -----------------------------
(* Every short sequence of OBUs after the descriptors, cut everywhere: what
   the walk counts is what is there. *)
EXTENDS Probe
CONSTANT Longest
VARIABLE seq
Blank == [type |-> 4, red |-> FALSE, flag |-> FALSE, te |-> Zero, ts |-> Zero, has_ext |-> FALSE, ext |-> << >>]
\* a: frames of two substreams and of one nobody knows; a block that is whole, one nobody knows, one too short; a delimiter, a copy of a header, a new header, an illegal one
Ks0 == {"f0", "f1", "fx", "p", "px", "ps", "d", "copy", "new", "bad", "other"}
OType(k) == CASE k = "f0" -> 6 [] k = "f1" -> 7 [] k = "fx" -> 8 [] k \in {"p", "px", "ps"} -> 3 [] k \in {"d", "bad"} -> 4 [] k \in {"copy", "new"} -> 31 [] OTHER -> 24
Pay(k) == CASE k = "p" -> <<5, 1, 1, 0, 0, 0, 0>> [] k = "px" -> <<6, 0>> [] k = "ps" -> <<133>> [] OTHER -> <<1, 2>>
At(q, j) == FoldLeft(LAMBDA a, k : a + 2 + Len(Pay(k)), 10, SubSeq(q, 1, j - 1))
Tab(q) == [j \in 1..(Len(q) + 1) |-> LET at == At(q, j) k == q[j] IN
  IF j > Len(q) THEN [t |-> -1, at |-> at, need |-> Nowhere, end |-> Nowhere, size |-> FALSE, ok |-> FALSE, h |-> << >>, pay |-> << >>]
  ELSE [t |-> OType(k), at |-> at, need |-> at + 2, end |-> at + 2 + Len(Pay(k)), size |-> TRUE, ok |-> k # "bad", h |-> [Blank EXCEPT !.type = OType(k), !.red = k = "copy"], pay |-> Pay(k)]]
Cc == [id |-> <<0, 1>>, codec |-> Lpcm, frame |-> <<0, 8>>, cfg |-> [rate |-> <<0, 48000>>]]
Gain == [kind |-> "gain", id |-> <<0, 5>>, rate |-> <<0, 1>>, res |-> 0, sch |-> << >>, vals |-> <<0>>, bytes |-> << >>]
X(full, budget) == [owners |-> <<[id |-> Zero, cc |-> Cc], [id |-> <<0, 1>>, cc |-> Cc]>>, defs |-> <<[t |-> Zero, d |-> Plain2(Gain)]>>, full |-> full, budget |-> budget, watch |-> TRUE, cancel |-> -1]
Full == At(seq, Len(seq) + 1)
Init == seq = << >>
Next == Len(seq) < Longest /\ \E k \in Ks0 : seq' = Append(seq, k)
Spec == Init /\ [][Next]_seq
CountK(q, S) == Len(SelectSeq(q, LAMBDA k : k \in S))
\* up to a header of a new sequence
Seen(n) == LET j == SelectSeq([i \in 1..Len(seq) |-> i], LAMBDA i : seq[i] = "new" /\ At(seq, i + 1) <= n) m == IF j = << >> THEN Len(seq) ELSE j[1] - 1 IN
  SelectSeq([i \in 1..m |-> <<i, seq[i]>>], LAMBDA p : At(seq, p[1] + 1) <= n)
Ks(n) == LET q == Seen(n) IN [i \in 1..Len(q) |-> q[i][2]]
Cuts == 10..Full
RealNum(l) == l[1] + 65536 * l[2]
CountsOk == \A n \in Cuts : LET s == TLCEval(Scan(Tab(seq), n, 10, X(TRUE, -1))) c == TLCEval(Scan(Tab(seq), n, 10, X(FALSE, -1))) q == Ks(n) IN
  /\ s.frames = CountK(q, {"f0", "f1", "fx"}) /\ s.blocks = CountK(q, {"p"}) /\ s.delims = CountK(q, {"d"}) /\ s.badb = CountK(q, {"px", "ps"}) /\ s.badf = 0 /\ Len(s.list) = s.blocks
  /\ [s EXCEPT !.list = << >>, !.units = << >>] = c
  /\ FoldLeft(LAMBDA a, b : a + b[3], 0, s.by) = s.frames
  /\ s.total = 8 * (IF CountK(q, {"f0"}) > CountK(q, {"f1"}) THEN CountK(q, {"f0"}) ELSE CountK(q, {"f1"}))
WhyOk == \A n \in Cuts : LET s == TLCEval(Scan(Tab(seq), n, 10, X(TRUE, -1))) whole == \E j \in 1..(Len(seq) + 1) : At(seq, j) = n
                             new == \E j \in 1..Len(seq) : seq[j] = "new" /\ At(seq, j + 1) <= n IN
  /\ s.why = (IF new THEN "next_ia_sequence" ELSE IF whole THEN "eof" ELSE "truncated")
  /\ s.end + 10 <= n /\ (whole /\ ~new => s.end + 10 = n)
  /\ \A i \in 1..Len(s.calls) : i > 1 => s.calls[i - 1][1] < s.calls[i][1] /\ s.calls[i - 1][2] <= s.calls[i][2]
UnitsOk == LET s == TLCEval(Scan(Tab(seq), Full, 10, X(TRUE, -1))) u == s.units q == Seen(Full)
               framesIn(a, b) == SelectSeq(q, LAMBDA p : p[2] \in {"f0", "f1", "fx"} /\ At(seq, p[1]) - 10 >= a /\ At(seq, p[1]) - 10 < b)
               end(i) == IF i < Len(u) THEN u[i + 1][3] ELSE Nowhere IN
  /\ \A i \in 1..Len(u) : LET f == framesIn(u[i][3], end(i)) IN
       /\ f # << >> /\ Uniq([k \in 1..Len(f) |-> f[k][2]]) \* no substream twice
       /\ RealNum(u[i][2]) = (IF \E k \in 1..Len(f) : f[k][2] # "fx" THEN 8 ELSE 0)
       /\ RealNum(u[i][1]) = FoldLeft(LAMBDA a, k : a + RealNum(u[k][2]), 0, [k \in 1..(i - 1) |-> k])
       /\ \E j \in 1..Len(seq) : At(seq, j) - 10 = u[i][3] /\ seq[j] \in {"f0", "f1", "fx", "p", "px", "d"}
  /\ (u = << >> => s.frames = 0) /\ (u # << >> => framesIn(0, u[1][3]) = << >>)
  /\ Len(u) >= FoldLeft(LAMBDA a, b : IF b[3] > a THEN b[3] ELSE a, 0, s.by)
  \* a block or a delimiter is never cut off from the frames it precedes
  /\ \A j \in 1..(Len(seq) - 1) : seq[j] \in {"p", "d"} /\ seq[j + 1] \in {"f0", "f1", "fx"} => ~\E i \in 1..Len(u) : u[i][3] = At(seq, j + 1) - 10 /\ At(seq, j + 1) <= At(seq, Len(seq) + 1)
                                                                                             /\ ~\E k \in 1..Len(seq) : seq[k] = "new"
BudgetOk == \A b \in 0..(Len(seq) + 1) : LET s == TLCEval(Scan(Tab(seq), Full, 10, X(TRUE, b))) IN Len(s.calls) <= b /\ (s.why = "scan_budget_exceeded" => Len(s.calls) = b)
SomeUnits == Len(Scan(Tab(seq), Full, 10, X(TRUE, -1)).units) < 2
=============================================================================
