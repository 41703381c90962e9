------------------------------ MODULE Sequencer ------------------------------
(* The sequencing of OBUs into an output. An OBU: w: whether it can be written,
   b: its bytes; what else it has depends on its kind. An arbitrary OBU has a
   hook: 0 to 5 among the descriptors, 6 to 8 in a temporal unit. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANT Nil \* no bytes
Cat(q) == FoldLeft(LAMBDA a, x : a \o x.b, Nil, q)
At(arbs, hook) == SelectSeq(arbs, LAMBDA x : x.hook = hook)
\* temporal units: frames f, blocks p, arbitrary OBUs a
AllEqual(q, t) == \A i \in 1..Len(q) : q[i].start = t[1] /\ q[i].end = t[2]
NoDuplicates(q, F(_)) == \A i, j \in 1..Len(q) : i < j => F(q[i]) # F(q[j])
ViewOk(f, p, a) ==
  LET t == IF f # << >> THEN <<f[1].start, f[1].end>> ELSE IF a # << >> /\ a[1].tick # << >> THEN <<a[1].tick[1], a[1].tick[1]>> ELSE << >> IN
  /\ t # << >>
  /\ f # << >> => f[1].t0[1] = 0 /\ f[1].t1[1] = 0 /\ f[1].t0[2] + f[1].t1[2] <= f[1].spf
  /\ f = << >> => \E i \in 1..Len(a) : a[i].inv
  /\ AllEqual(f, t) /\ AllEqual(p, t)
  /\ \A i \in 1..Len(f) : f[i].t0 = f[1].t0 /\ f[i].t1 = f[1].t1
  /\ \A i \in 1..Len(a) : a[i].tick = <<t[1]>>
  /\ NoDuplicates(f, LAMBDA x : x.sub) /\ NoDuplicates(p, LAMBDA x : x.id)
Before(x, y) == x.el < y.el \/ (x.el = y.el /\ x.sub < y.sub)
View(f, p, a) ==
  [frames |-> SortSeq(f, Before), blocks |-> SortSeq(p, LAMBDA x, y : x.id < y.id), arbs |-> a,
   start |-> IF f # << >> THEN f[1].start ELSE a[1].tick[1], end |-> IF f # << >> THEN f[1].end ELSE a[1].tick[1],
   cut |-> IF f # << >> THEN f[1].t0[2] ELSE 0, left |-> IF f # << >> THEN f[1].spf - f[1].t0[2] - f[1].t1[2] ELSE 0]
InUnit(u) == At(u.arbs, 6) \o u.blocks \o At(u.arbs, 7) \o u.frames \o At(u.arbs, 8)
UnitBytes(u, td) == td \o Cat(InUnit(u))
IsKey(u) == \E i \in 1..Len(u.arbs) : u.arbs[i].key
Writable(q) == \A i \in 1..Len(q) : q[i].w
\* descriptors: hdr, meta, cc (id, spf, rate, depth), el (id), mix (fits: some profile of the header allows it), arbs
ById(q) == SortSeq(q, LAMBDA x, y : x.id < y.id)
InDescr(d) == At(d.arbs, 0) \o <<d.hdr>> \o At(d.arbs, 2) \o d.meta \o ById(d.cc) \o At(d.arbs, 3) \o ById(d.el) \o At(d.arbs, 4)
              \o d.mix \o At(d.arbs, 5) \o At(d.arbs, 1)
DescrBytes(d) == Cat(InDescr(d))
Of(q, F(_)) == {F(q[i]) : i \in 1..Len(q)}
One(S, none, other) == IF S = {} THEN none ELSE IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE other
DescrOk(d) == /\ Writable(InDescr(d)) /\ \A i \in 1..Len(d.mix) : d.mix[i].fits
              /\ Cardinality(Of(d.cc, LAMBDA x : x.rate)) <= 1 /\ Cardinality(Of(d.cc, LAMBDA x : x.spf)) <= 1
Stats(d) == <<One(Of(d.cc, LAMBDA x : x.spf), 1024, 0), One(Of(d.cc, LAMBDA x : x.rate), 48000, 0), One(Of(d.cc, LAMBDA x : x.depth), 16, 16)>>
\* what the output is told
TellDescr(d, first) == [c |-> "descr", stats |-> Stats(d), first |-> first, b |-> DescrBytes(d)]
TellUnit(u, td) == [c |-> "unit", at |-> u.start, n |-> u.left, key |-> IsKey(u), b |-> UnitBytes(u, td)]
TellFinal(d) == [c |-> "final", b |-> DescrBytes(d)]
TheEnd == [c |-> "close"]
Abandon == [c |-> "abort"]
\* the sequencer: st: new, waiting (descriptors not passed on yet), open, closed
New(delay, td) == [st |-> "new", delay |-> delay, td |-> td, first |-> << >>, held |-> << >>, d |-> << >>]
Res(s, ok, calls) == [s |-> s, ok |-> ok, calls |-> calls]
Fail(s, calls) == Res([s EXCEPT !.st = "closed"], FALSE, Append(calls, Abandon))
\* the output takes n calls (-1: all) and refuses the next
Pass(s, s2, calls, n) == IF n = -1 \/ n >= Len(calls) THEN Res(s2, TRUE, calls) ELSE Fail(s, SubSeq(calls, 1, n + 1))
Push(s, d, n) ==
  IF s.st # "new" \/ ~DescrOk(d) THEN Fail(s, << >>)
  ELSE IF s.delay THEN Res([s EXCEPT !.st = "waiting", !.d = <<d>>], TRUE, << >>)
  ELSE Pass(s, [s EXCEPT !.st = "open", !.d = <<d>>], <<TellDescr(d, << >>)>>, n)
Unit(s, u, n) ==
  IF s.st \notin {"waiting", "open"} \/ ~Writable(InUnit(u)) THEN Fail(s, << >>)
  ELSE LET t == TellUnit(u, s.td) first == IF u.left = 0 THEN << >> ELSE <<u.start + u.cut>> IN
  IF s.first # << >> THEN IF u.cut > 0 THEN Fail(s, << >>) ELSE Pass(s, s, <<t>>, n)
  ELSE IF ~s.delay THEN Pass(s, [s EXCEPT !.first = first], <<t>>, n)
  ELSE IF first = << >> THEN Res([s EXCEPT !.held = Append(@, t)], TRUE, << >>)
  ELSE Pass(s, [s EXCEPT !.first = first, !.held = << >>, !.st = "open"], <<TellDescr(s.d[1], first)>> \o s.held \o <<t>>, n)
Waiting(s) == IF s.st = "waiting" THEN <<TellDescr(s.d[1], <<0>>)>> \o s.held ELSE << >>
Closed(s) == [s EXCEPT !.st = "closed"]
Ended(r) == IF r.ok THEN [r EXCEPT !.calls = Append(@, TheEnd)] ELSE r
Close(s, n) == IF s.st = "closed" THEN Res(s, FALSE, << >>) ELSE Ended(Pass(s, Closed(s), Waiting(s), n))
Update(s, d, n) ==
  IF s.st \notin {"waiting", "open"} \/ ~Writable(InDescr(d)) \/ ~(\A i \in 1..Len(d.mix) : d.mix[i].fits) THEN Fail(s, << >>)
  ELSE IF DescrBytes(d) = DescrBytes(s.d[1]) THEN Close(s, n)
  ELSE IF ~DescrOk(d) \/ Stats(d) # Stats(s.d[1]) \/ Len(DescrBytes(d)) # Len(DescrBytes(s.d[1])) THEN Fail(s, << >>)
  ELSE Ended(Pass(s, Closed(s), Waiting(s) \o <<TellFinal(d)>>, n))
Abort(s) == Res(Closed(s), TRUE, <<Abandon>>)
\* what an output makes of it. A file: there, open, b; and what a streaming encoder keeps: d and u.
Rest(b, n) == IF n >= Len(b) THEN Nil ELSE SubSeq(b, n + 1, Len(b))
ToFile(f, c) == CASE c.c = "descr" -> [there |-> TRUE, open |-> TRUE, b |-> c.b]
                  [] c.c = "unit" -> [f EXCEPT !.b = @ \o c.b]
                  [] c.c = "final" -> [f EXCEPT !.b = c.b \o Rest(@, Len(c.b))]
                  [] c.c = "close" -> [f EXCEPT !.open = FALSE]
                  [] OTHER -> IF f.open THEN [there |-> FALSE, open |-> FALSE, b |-> Nil] ELSE f
ToStream(m, c) == CASE c.c \in {"descr", "final"} -> [m EXCEPT !.d = c.b]
                    [] c.c = "unit" -> [m EXCEPT !.u = c.b]
                    [] c.c = "close" -> [m EXCEPT !.u = Nil]
                    [] OTHER -> [d |-> Nil, u |-> Nil]
Files(f, calls) == FoldLeft(ToFile, f, calls)
Streams(m, calls) == FoldLeft(ToStream, m, calls)
=============================================================================
