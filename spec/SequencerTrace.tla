--------------------------- MODULE SequencerTrace ---------------------------
EXTENDS Sequencer, TraceKit
VARIABLES i, s, out
vars == <<i, s, out>>
E == Trace[i]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
Begin == /\ Is("begin") /\ s' = New(E.delay, E.td)
         /\ out' = [kind |-> E.kind, file |-> [there |-> E.there, open |-> FALSE, b |-> E.b], mem |-> [d |-> "", u |-> ""]]
\* the views of the temporal units, by themselves
Views == /\ Is("view") /\ E.ok = ViewOk(E.f, E.p, E.a) /\ UNCHANGED <<s, out>>
         /\ (E.ok => LET v == View(E.f, E.p, E.a) IN
             /\ E.v = [start |-> v.start, end |-> v.end, cut |-> v.cut, left |-> v.left, subs |-> [k \in 1..Len(v.frames) |-> v.frames[k].sub],
                       ids |-> [k \in 1..Len(v.blocks) |-> v.blocks[k].id], tags |-> [k \in 1..Len(v.arbs) |-> v.arbs[k].b]]) = TRUE
\* a repeated end of something closed may or may not be passed on
Quiet(calls) == SelectSeq(calls, LAMBDA c : c.c # "abort")
OnceOnly(calls) == FoldLeft(LAMBDA a, c : IF c.c = "abort" /\ a # << >> /\ a[Len(a)].c = "abort" THEN a ELSE Append(a, c), << >>, calls)
Does(r) == /\ s' = r.s /\ E.ok = r.ok
           /\ CASE out.kind = "calls" -> (OnceOnly(E.calls) = r.calls \/ (s.st = "closed" /\ E.calls = Quiet(r.calls))) /\ out' = out
                [] out.kind = "file" -> out' = [out EXCEPT !.file = Files(@, r.calls)] /\ E.there = out'.file.there /\ (E.there /\ ~out'.file.open => E.b = out'.file.b) = TRUE
                [] out.kind = "nofile" -> out' = out /\ ~E.there
                [] OTHER -> /\ out' = [out EXCEPT !.mem = IF s.st = "closed" /\ [d |-> E.d, u |-> E.u] = @ THEN @ ELSE Streams(@, r.calls)]
                            /\ out'.mem = [d |-> E.d, u |-> E.u]
Does2 == \/ Is("push") /\ Does(Push(s, E.x, E.n))
         \/ Is("unit") /\ ViewOk(E.f, E.p, E.a) /\ Does(Unit(s, View(E.f, E.p, E.a), E.n))
         \/ Is("update") /\ Does(Update(s, E.x, E.n))
         \/ Is("close") /\ Does(Close(s, E.n))
         \/ Is("abort") /\ Does(Abort(s))
TraceSpec == i = 1 /\ s = New(FALSE, "") /\ out = << >> /\ [][Begin \/ Views \/ Does2]_vars
TraceAccepted == Accepted
=============================================================================
