--------------------------- MODULE PartitionModel ---------------------------
(* Every small block and every way to split it: at every instant of the span
   the parts have the value of the block. A part is any that PartOk allows. *)
EXTENDS Partition
CONSTANTS Longest, Most, Values
VARIABLES b, done
vars == <<b, done>>
Lines == {[k |-> "step", v |-> <<x>>] : x \in Values} \cup {[k |-> "linear", v |-> <<x, y>>] : x \in Values, y \in Values} \cup {[k |-> "bezier", v |-> <<1, 2, 3, 4>>], [k |-> "demix", v |-> <<1, 0>>], [k |-> "none", v |-> << >>]}
Init == b = [id |-> 1, start |-> 3, dur |-> 0, const |-> 0, subs |-> << >>] /\ done = FALSE
Next == /\ ~done
        /\ \/ Len(b.subs) < Most /\ \E d \in 1..Longest, x \in Lines : b' = [b EXCEPT !.subs = Append(@, [d |-> d, x |-> x]), !.dur = @ + d] /\ UNCHANGED done
           \/ \E c \in {0} \cup {OneLength([k \in 1..Len(b.subs) |-> b.subs[k].d])} : b' = [b EXCEPT !.const = c] /\ done' = TRUE
Spec == Init /\ [][Next]_vars
\* 12 times the value at an instant, of a block that holds it
ValueAt(y, t) == LET s == SelectSeq(Spans(y), LAMBDA z : z.from <= t /\ t < z.to)[1] long == s.to - s.from IN
  CASE s.x.k = "step" -> <<"gain", 12 * s.x.v[1]>>
    [] s.x.k = "linear" -> <<"gain", 12 * s.x.v[1] + (12 * (s.x.v[2] - s.x.v[1]) * (t - s.from)) \div long>>
    [] s.x.k = "bezier" -> <<"curve", t - s.from, long>>
    [] OTHER -> <<"data", s.x.v[1]>>
Near(a, c) == IF a[1] = "gain" THEN c[1] = "gain" /\ c[2] - a[2] \in -14..14 ELSE a = c
Cand(s, from, to) == IF s.x.k = "linear" THEN LET at(t) == {v \in -40..40 : AtLine(s.x.v[1], s.x.v[2], s.to - s.from, t - s.from, v)} IN {[k |-> "linear", v |-> <<u, w>>] : u \in at(from), w \in at(to)} ELSE {s.x}
\* a part with the data of each subblock chosen by pick (the lowest or the highest allowed)
Pick(S, high) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE IF high THEN CHOOSE x \in S : \A y \in S : x.v[1] >= y.v[1] /\ x.v[2] >= y.v[2] ELSE CHOOSE x \in S : \A y \in S : x.v[1] <= y.v[1] /\ x.v[2] <= y.v[2]
Part(from, to, high) == LET q == Overlap(b, from, to) longs == [i \in 1..Len(q) |-> MinT(to, q[i].to) - MaxT(from, q[i].from)] c == OneLength(longs) IN
  [id |-> b.id, start |-> from, dur |-> to - from, const |-> c, subs |-> [i \in 1..Len(q) |-> [d |-> longs[i], x |-> Pick(Cand(q[i], MaxT(from, q[i].from), MinT(to, q[i].to)), high)]]]
Times == (b.start - 1)..(b.start + b.dur + 1)
SameInstants == done => \A from \in Times : \A to \in Times : Splits(b, from, to) => \A high \in BOOLEAN : LET y == Part(from, to, high) IN
  /\ Sound(y) /\ PartOk(b, from, to, y) /\ \A t \in from..(to - 1) : Near(ValueAt(b, t), ValueAt(y, t)) = TRUE
Covered == done /\ Sound(b) => \A pd \in 1..(b.dur + 1) : LET n == Good(b, pd) IN
  n = Cuts(b, pd) => b.dur = n * pd \* no gap and nothing beyond the end
Refused == done => \A from \in Times : \A to \in Times : ~Splits(b, from, to) =>
  \/ from >= to \/ from < b.start \/ to > b.start + b.dur \/ b.subs = << >> \/ \E k \in 1..Len(b.subs) : b.subs[k].x.k \in {"none", "bezier", "demix"}
NeverSplit == done => \A from \in Times : \A to \in Times : ~Splits(b, from, to)
=============================================================================
