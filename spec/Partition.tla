------------------------------ MODULE Partition ------------------------------
(* A parameter block split along its time line. A block: id, start, dur, const
   (0: every subblock says how long it is), subs: d and x (k, v): its data. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Parts(dur, c) == (dur + c - 1) \div c
Sound(b) == IF b.const # 0 THEN b.const <= b.dur /\ Len(b.subs) = Parts(b.dur, b.const)
            ELSE b.subs # << >> /\ (\A i \in 1..Len(b.subs) : b.subs[i].d > 0) /\ FoldLeft(LAMBDA a, s : a + s.d, 0, b.subs) = b.dur
Long(b, i) == IF b.const = 0 THEN b.subs[i].d ELSE IF i < Len(b.subs) THEN b.const ELSE b.dur - b.const * (Len(b.subs) - 1)
\* subblocks with their place
Spans(b) == FoldLeft(LAMBDA a, i : [t |-> a.t + Long(b, i), q |-> Append(a.q, [from |-> a.t, to |-> a.t + Long(b, i), x |-> b.subs[i].x])],
                     [t |-> b.start, q |-> << >>], [i \in 1..Len(b.subs) |-> i]).q
Overlap(b, from, to) == SelectSeq(Spans(b), LAMBDA s : s.to > from /\ s.from < to)
Animated == {"step", "linear", "bezier"}
Splits(b, from, to) ==
  /\ from < to /\ Sound(b) /\ from >= b.start /\ to <= b.start + b.dur
  /\ LET q == Overlap(b, from, to) IN
     /\ \A i \in 1..Len(q) : q[i].x.k # "none"
     /\ \A i \in 1..Len(q) : q[i].x.k = "bezier" => from <= q[i].from /\ to >= q[i].to
     /\ \A i \in 1..Len(q) : q[i].x.k \notin Animated => i = 1
MaxT(a, b) == IF a > b THEN a ELSE b
MinT(a, b) == IF a < b THEN a ELSE b
\* how long the subblocks are, in the shortest form
OneLength(q) == IF q # << >> /\ (\A i \in 1..Len(q) : i < Len(q) => q[i] = q[1]) /\ q[Len(q)] <= q[1] THEN q[1] ELSE 0
\* of a line from u to w, long ticks: its value at tick n is within a unit of v, and exact at its ends
AtLine(u, w, long, n, v) ==
  IF n = 0 THEN v = u ELSE IF n = long THEN v = w
  ELSE LET e == v * long - (u * long + (w - u) * n) IN e <= long + long \div 50 /\ -e <= long + long \div 50
DataOk(s, from, to, y) ==
  IF s.x.k = "linear" THEN y.k = "linear" /\ AtLine(s.x.v[1], s.x.v[2], s.to - s.from, from - s.from, y.v[1]) /\ AtLine(s.x.v[1], s.x.v[2], s.to - s.from, to - s.from, y.v[2])
  ELSE y = s.x
PartOk(b, from, to, y) ==
  LET q == Overlap(b, from, to) longs == [i \in 1..Len(q) |-> MinT(to, q[i].to) - MaxT(from, q[i].from)] IN
  /\ y.id = b.id /\ y.start = from /\ y.dur = to - from /\ y.const = OneLength(longs)
  /\ Len(y.subs) = Len(q)
  /\ \A i \in 1..Len(q) : y.subs[i].d = longs[i] /\ DataOk(q[i], MaxT(from, q[i].from), MinT(to, q[i].to), y.subs[i].x) = TRUE
\* frame by frame: as many whole parts as can be made
Cuts(b, pd) == IF pd = 0 THEN IF b.dur = 0 THEN 0 ELSE 1 ELSE Parts(b.dur, pd)
FromOf(b, pd, i) == b.start + (i - 1) * pd
Good(b, pd) == LET bad == SelectSeq([i \in 1..Cuts(b, pd) |-> i], LAMBDA i : ~Splits(b, FromOf(b, pd, i), FromOf(b, pd, i) + pd)) IN IF bad = << >> THEN Cuts(b, pd) ELSE bad[1] - 1
FramesOk(b, pd, ok, outs) ==
  /\ ok = (Good(b, pd) = Cuts(b, pd)) /\ Len(outs) = Good(b, pd)
  /\ \A i \in 1..Len(outs) : PartOk(b, FromOf(b, pd, i), FromOf(b, pd, i) + pd, outs[i]) = TRUE
=============================================================================
