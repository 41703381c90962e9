----------------------------- MODULE MlsdTrace -----------------------------
EXTENDS Mlsd, TraceKit, FiniteSets
VARIABLE l
Pt(x, f(_)) == [i \in 1..Len(x) |-> f(x[i])]
Near(a, b) == a - b \in -2..2
Transient(ev) ==
  LET g == Glitches(ev.frames, ev.thr) IN
  /\ ev.e = "transient" /\ ev.status = "ok"
  /\ ev.n = Len(ev.found) /\ Len(ev.found) = Cardinality(g)
  /\ \A i \in 1..Len(ev.found) : LET a == ev.found[i] IN
       /\ a.frame + 1 \in g /\ a.ch = ev.ch
       /\ Near(a.v, ev.frames[a.frame + 1] * 1000) /\ Near(a.t, a.frame * ev.hop * 1000)
       /\ (i > 1 => ev.found[i - 1].frame < a.frame)
  /\ Near(ev.max, MaxOf(ev.frames) * 1000)
Sustained(ev) ==
  LET least == MinFrames(ev.sus, ev.hop)  r == Runs(ev.frames, ev.thr, least) IN
  /\ ev.e = "sustained" /\ ev.status = "ok"
  /\ ev.n = Len(ev.found) /\ Len(ev.found) = Cardinality(r)
  /\ \A i \in 1..Len(ev.found) : LET a == ev.found[i] IN
       /\ << a.first + 1, a.last + 1 >> \in r /\ a.ch = ev.ch
       /\ Near(a.sum, Sum(ev.frames, a.first + 1, a.last + 1))
       /\ Near(a.start, a.first * ev.hop * 1000) /\ Near(a.end, (a.last + 1) * ev.hop * 1000)
       /\ Near(a.dur, (a.last + 1 - a.first) * ev.hop * 1000)
       /\ (i > 1 => ev.found[i - 1].last < a.first)
  /\ Near(ev.max, MaxSustained(ev.frames, least) * 1000)
Distance(ev) ==
  /\ ev.e = "mlsd" /\ ev.status = "ok"
  /\ Len(ev.out) = ev.channels
  /\ \A c \in 1..ev.channels :
       /\ Len(ev.out[c]) = NumFrames(ev.n)
       /\ (ev.same[c] => \A f \in 1..Len(ev.out[c]) : ev.out[c][f] = 0)
       /\ (ev.ref # << >> => \A f \in 1..Len(ev.out[c]) : IsRms(ev.out[c][f], ev.ref[c][f], ev.sig[c][f], 3))
(* hop = 512/rate s; the least number of frames that last susMs ms. *)
LeastFrames(susMs, rate) == LET k == CeilDiv(susMs * (rate \div 100), 5120) IN IF k < 1 THEN 1 ELSE k
Evaluate(ev) ==
  /\ ev.e = "evaluate"
  /\ IF ev.ref # ev.sig THEN ev.status = "mismatch"
     ELSE LET least == LeastFrames(ev.sus_ms, ev.ref[1])
              C == 1..ev.ref[2]
              G == { << c - 1, f - 1 >> : c \in C, f \in 1..NumFrames(ev.ref[3]) }
              g == { x \in G : ev.per[x[1] + 1][x[2] + 1] > ev.peak }
              s == UNION { { << c - 1, r[1] - 1, r[2] - 1 >> : r \in Runs(ev.per[c], ev.sus, least) } : c \in C }
          IN /\ ev.status = "ok"
             /\ Len(ev.per) = ev.ref[2] /\ \A c \in C : Len(ev.per[c]) = NumFrames(ev.ref[3])
             /\ (ev.identical => ev.passed /\ ev.maxpeak = 0 /\ ev.maxsus = 0)
             /\ ev.passed = (g = {} /\ s = {})
             /\ ev.n = Len(ev.transient) + Len(ev.sustained)
             /\ Len(ev.transient) = Cardinality(g) /\ Len(ev.sustained) = Cardinality(s)
             /\ { << ev.transient[i].ch, ev.transient[i].frame >> : i \in 1..Len(ev.transient) } = g
             /\ { << ev.sustained[i].ch, ev.sustained[i].first, ev.sustained[i].last >> : i \in 1..Len(ev.sustained) } = s
             /\ ev.maxpeak = MaxS({ MaxOf(ev.per[c]) : c \in C })
             /\ ev.maxsus = MaxS({ MaxSustained(ev.per[c], least) : c \in C })
Rng(q) == { q[i] : i \in 1..Len(q) }
Close(a, b, tol) == a - b \in (-tol)..tol
(* The written report says what was found: the verdict, both maxima (in
   hundredths), one line per sustained run and one per channel with glitches. *)
Tenths(frame, rate) == (frame * 512000) \div (rate \div 10)
Report(ev) ==
  /\ ev.e = "report" /\ ev.status = "ok" /\ ev.verdict = << ev.expect >>
  /\ IF ev.expect \notin {"PASS", "FAIL"} THEN ev.maxima = << >>
     ELSE /\ Len(ev.maxima) = 2 /\ Close(ev.maxima[1] * 10000, ev.maxpeak, 5001) /\ Close(ev.maxima[2] * 10000, ev.maxsus, 5001)
          /\ Len(ev.sustained_lines) = Len(ev.sustained)
          /\ \A i \in 1..Len(ev.sustained) : LET a == ev.sustained[i]  b == ev.sustained_lines[i] IN
               /\ b[1] = a.ch /\ Close(b[2], Tenths(a.first, ev.rate), 1) /\ Close(b[3], Tenths(a.last + 1, ev.rate), 1)
          /\ LET C == { a.ch : a \in Rng(ev.transient) }
                 F(c) == { a.frame : a \in { x \in Rng(ev.transient) : x.ch = c } }
             IN /\ Len(ev.glitch_lines) = Cardinality(C)
                /\ { ev.glitch_lines[i][1] : i \in 1..Len(ev.glitch_lines) } = C
                /\ \A i \in 1..Len(ev.glitch_lines) : LET b == ev.glitch_lines[i] IN
                     /\ b[2] = Cardinality(F(b[1]))
                     /\ Close(b[3], Tenths(MinS(F(b[1])), ev.rate), 1) /\ Close(b[4], Tenths(MaxS(F(b[1])), ev.rate), 1)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET ev == Trace[l] IN Transient(ev) \/ Sustained(ev) \/ Distance(ev) \/ Evaluate(ev) \/ Report(ev)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
