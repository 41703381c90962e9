----------------------------- MODULE MixingTrace -----------------------------
EXTENDS Mixing, TraceKit
VARIABLES i, w, ps, phase, fed, ears, last
vars == <<i, w, ps, phase, fed, ears, last>>
E == Trace[i]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
Where(p) == <<p.mix, p.sub, p.lay>>
Unjudged == << >>  \* what was last seen of a place is << >> or <<samples>>

Begin == /\ Is("begin") /\ w' = E /\ ps' = (IF CanBegin(E) THEN TLCEval(PlacesOf(E)) ELSE << >>) /\ phase' = "begun"
         /\ fed' = [k \in 1..Len(ps') |-> 0] /\ ears' = fed' /\ last' = [k \in 1..Len(ps') |-> Unjudged]
Create == /\ Is("create") /\ phase = "begun" /\ E.ok = CanBegin(w) /\ phase' = (IF E.ok THEN "take" ELSE "none")
          /\ (E.ok => LET seen == IF w.on THEN SelectSeq(ps, LAMBDA p : Known(p.y)) ELSE << >>
                          usual == <<w.codecs[1].spf, w.codecs[1].rate>> IN
              /\ E.made = [k \in 1..Len(seen) |-> LET p == seen[k] IN [ok |-> p.renders, a |-> <<Speakers(p.y.t, p.y.ss), RateOf(w, p.s), SpfOf(w, p.s)>>]]
              /\ E.procs = [k \in 1..Len(seen) |-> LET p == seen[k] IN [mix |-> p.mix, sub |-> p.sub, lay |-> p.lay, t |-> p.y.t, ch |-> Speakers(p.y.t, p.y.ss),
                                                                       rate |-> RateOf(w, p.s), bits |-> BitsOf(w, p.s), spf |-> SpfOf(w, p.s)]]
              /\ E.odd = (IF w.ears THEN SelectSeq([k \in 1..Len(seen) |-> <<SpfOf(w, seen[k].s), RateOf(w, seen[k].s)>>], LAMBDA o : o # usual) ELSE << >>)) = TRUE
          /\ last' = [k \in 1..Len(ps) |-> IF ps[k].live /\ ~Wet(w, ps[k]) THEN << << >> >> ELSE Unjudged]
          /\ UNCHANGED <<w, ps, fed, ears>>

Active(p) == p.live /\ p.renders
PushOk(u) == /\ phase = "take" /\ \A k \in 1..Len(u.blocks) : u.blocks[k].s = u.from /\ u.blocks[k].e = u.to
             /\ \A k \in 1..Len(ps) : Active(ps[k]) => /\ Renderable(w, ps[k], u)
                                                       /\ ~(Eared(w, ps[k]) /\ ps[k].y.deaf /\ ears[k] = 1)
                                                       /\ ~(Wet(w, ps[k]) /\ ps[k].y.sick /\ fed[k] = 1)
Judge(p, o) ==
  /\ Where(p) = <<o.mix, o.sub, o.lay>> /\ o.there = p.live
  /\ (Active(p) => LET m == TLCEval(Mixed(w, p, E)) s == Slack(p) ear == Eared(w, p) wet == Wet(w, p) IN
       /\ o.h = (IF ear THEN 1 ELSE 0) /\ o.n = (IF wet THEN 1 ELSE 0)
       /\ (wet => Near(o.saw, m, 1, s)) /\ (ear /\ wet => o.same) /\ (ear /\ ~wet => Near(o.heard, m, 1, s))
       /\ Near(o.y, m, IF wet THEN 2 ELSE 1, 2 * s))
  /\ (~Active(p) => o.h = 0 /\ o.n = 0)
\* of a frame that failed: nothing is heard or processed more than once, or by what does not render
Partly(p, o) == Where(p) = <<o.mix, o.sub, o.lay>> /\ o.h <= (IF Active(p) /\ Eared(w, p) THEN 1 ELSE 0) /\ o.n <= (IF Active(p) /\ Wet(w, p) THEN 1 ELSE 0)
Push == /\ Is("push") /\ phase \in {"take", "done", "out", "lost"} /\ Len(E.out) = Len(ps)
        /\ E.ok = PushOk(E)
        /\ (E.ok => \A k \in 1..Len(ps) : Judge(ps[k], E.out[k])) = TRUE
        /\ (~E.ok => \A k \in 1..Len(ps) : Partly(ps[k], E.out[k])) = TRUE
        /\ (phase # "take" => \A k \in 1..Len(ps) : E.out[k].h = 0 /\ E.out[k].n = 0) = TRUE
        /\ fed' = [k \in 1..Len(ps) |-> fed[k] + E.out[k].n] /\ ears' = [k \in 1..Len(ps) |-> ears[k] + E.out[k].h]
        /\ last' = (IF phase # "take" THEN last ELSE [k \in 1..Len(ps) |-> IF E.ok /\ Active(ps[k]) THEN <<E.out[k].y>> ELSE Unjudged])
        /\ UNCHANGED <<w, ps, phase>>
Finish == /\ Is("finish") /\ phase \in {"take", "done", "out", "lost"} /\ E.ok = (phase = "take")
          /\ E.flushed = [k \in 1..Len(ps) |-> IF E.ok /\ ps[k].live /\ Wet(w, ps[k]) THEN 1 ELSE 0]
          /\ phase' = (IF E.ok THEN "done" ELSE phase)
          /\ last' = (IF E.ok THEN [k \in 1..Len(ps) |-> IF ps[k].live /\ Wet(w, ps[k]) THEN <<[c \in 1..Speakers(ps[k].y.t, ps[k].y.ss) |-> <<40000>>]>> ELSE last[k]] ELSE last)
          /\ UNCHANGED <<w, ps, fed, ears>>
Told2(p) == p.live /\ Eared(w, p)
Same2(p) == p.y.said.il = p.y.user.il /\ p.y.said.dp = p.y.user.dp /\ (p.y.said.type % 2 = 1 => p.y.said.tp = p.y.user.tp)
GetOk == phase = "done" /\ \A k \in 1..Len(ps) : Told2(ps[k]) => ~ps[k].y.mute /\ (E.check => Same2(ps[k]))
Get == /\ Is("get") /\ phase \in {"take", "done", "out", "lost"} /\ (phase # "lost" => E.ok = GetOk)
       /\ (E.ok /\ phase = "done" => E.ls = [k \in 1..Len(ps) |-> [mix |-> ps[k].mix, sub |-> ps[k].sub, lay |-> ps[k].lay, l |-> IF Told2(ps[k]) THEN ps[k].y.said ELSE ps[k].y.user]]) = TRUE
       /\ phase' = (IF phase # "done" THEN phase ELSE IF E.ok THEN "out" ELSE "lost")
       /\ UNCHANGED <<w, ps, fed, ears, last>>
See == /\ Is("see") /\ phase \in {"take", "done", "out", "lost"}
       /\ LET q == {k \in 1..Len(ps) : ps[k].live /\ Where(ps[k]) = <<E.mix, E.sub, E.lay>>} IN
          /\ E.ok = (q # {})
          /\ (\A k \in q : last[k] # Unjudged => <<E.y>> = last[k]) = TRUE
       /\ UNCHANGED <<w, ps, phase, fed, ears, last>>
TraceSpec == i = 1 /\ w = << >> /\ ps = << >> /\ phase = "none" /\ fed = << >> /\ ears = << >> /\ last = << >>
             /\ [][Begin \/ Create \/ Push \/ Finish \/ Get \/ See]_vars
TraceAccepted == Accepted
=============================================================================
