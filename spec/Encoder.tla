------------------------------ MODULE Encoder ------------------------------
(* The encoder. What is coded for a channel is the samples it was given,
   in order, after `D` zeros of codec delay, filled up to whole frames; unit k
   holds frame k of every substream, and what its trim fields take away is the
   delay and the padding, together with what the user asked for. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
Zeros(n) == [j \in 1..n |-> 0]
Up(n, S) == ((n + S - 1) \div S) * S
\* c: S frame size, D delay, us/ue samples to trim asked for, is/ie whether those count
\* the delay and the padding, td, gains, els: <<[id, n, subs: <<[id, ch]>>]>>, arbs
CanMake(c) == c.els = << >> \/ ((c.is => c.us >= c.D) /\ c.ue <= c.S)
New(c) == [c |-> c, x |-> [k \in 1..Len(c.els) |-> [j \in 1..c.els[k].n |-> << >>]], short |-> [k \in 1..Len(c.els) |-> {}], odd |-> FALSE,
           fin |-> FALSE, out |-> 0, blocks |-> << >>, arbs |-> c.arbs, idle |-> 0, left |-> FALSE]
\* the samples of an element that all its channels have
Got(s, k) == Min({Len(s.x[k][j]) : j \in 1..Len(s.x[k])})
Ended(s, k) == s.fin \/ s.short[k] # {}
Full(s, k) == \A j \in 1..Len(s.x[k]) : Len(s.x[k][j]) = Got(s, k)
Need(s, k) == s.c.D + Got(s, k)
Pad(s, k) == Up(Need(s, k), s.c.S) - Need(s, k)
Coded(s, k, j) == Zeros(s.c.D) \o s.x[k][j] \o Zeros(Pad(s, k))
Units(s) == IF s.c.els = << >> THEN 0 ELSE Up(Max({Need(s, k) : k \in 1..Len(s.c.els)}), s.c.S) \div s.c.S
\* trims of unit u (from 0)
CutStart(s, u) == LET all == IF s.c.is THEN s.c.us ELSE s.c.us + s.c.D r == all - u * s.c.S IN
                  IF r < 0 THEN 0 ELSE IF r > s.c.S THEN s.c.S ELSE r
LastCut(s, k) == IF s.c.ie THEN s.c.ue ELSE s.c.ue + Pad(s, k)
IsLast(s, k, u) == LET n == (u + 1) * s.c.S IN n > Need(s, k) \/ (n = Need(s, k) /\ s.fin)
\* before the end is announced only padding is cut
CutEnd(s, k, u) == IF ~IsLast(s, k, u) THEN 0 ELSE IF s.fin THEN LastCut(s, k) ELSE Pad(s, k)
Fits(s, k, u) == /\ CutEnd(s, k, u) <= s.c.S /\ CutStart(s, u) + CutEnd(s, k, u) <= s.c.S
                 /\ IsLast(s, k, u) => CutEnd(s, k, u) >= Pad(s, k)
\* unit u can be given: every element has all its samples, or will not get more
Ready(s, u) ==
  /\ s.c.els # << >>
  /\ \A k \in 1..Len(s.c.els) : Fits(s, k, u) /\ ((u + 1) * s.c.S <= Need(s, k) \/ (u * s.c.S < Need(s, k) /\ Ended(s, k)))
\* the frame of a substream; nothing is said of channels that are mixed (0)
FrameOk(s, k, sub, u, f) ==
  /\ f.sub = sub.id /\ f.ts = CutStart(s, u) /\ f.te = CutEnd(s, k, u) /\ f.flag = (f.ts # 0 \/ f.te # 0)
  /\ Len(f.pcm) = Len(sub.ch)
  /\ \A h \in 1..Len(sub.ch) : IF sub.ch[h] = 0 THEN Len(f.pcm[h]) = s.c.S
                               ELSE f.pcm[h] = SubSeq(Coded(s, k, sub.ch[h]), u * s.c.S + 1, (u + 1) * s.c.S)
AllSubs(s) == UNION {{<<k, h>> : h \in 1..Len(s.c.els[k].subs)} : k \in 1..Len(s.c.els)}
\* what a unit is made of, in its order
Blocks(s, u) == SelectSeq(s.blocks, LAMBDA b : b = u)
BlockOk(s, b, o) == /\ o.k = "block" /\ o.id = 100 /\ o.dur = s.c.S /\ o.csd = s.c.S /\ o.anim = 0 /\ o.rest = 0
                    /\ o.v = (IF b = 0 THEN 0 ELSE 65536 - b)
At(s, tick, hook) == LET q == SelectSeq(s.arbs, LAMBDA a : a.tick = tick /\ a.hook = hook) IN [j \in 1..Len(q) |-> q[j].b]
Delim(s) == IF s.c.td THEN 1 ELSE 0
IsArbs(o, bs) == Len(o) = Len(bs) /\ \A j \in 1..Len(o) : o[j].k = "arb" /\ o[j].b = bs[j]
UnitOk(s, u, o) ==
  LET t == u * s.c.S
      a == At(s, t, 7) b == Blocks(s, u) d == At(s, t, 8) z == At(s, t, 9)
      subs == AllSubs(s)
      p0 == Delim(s) p1 == p0 + Len(a) p2 == p1 + Len(b) p3 == p2 + Len(d) p4 == p3 + Cardinality(subs) p5 == p4 + Len(z) IN
  /\ Len(o) = p5
  /\ p0 = 1 => o[1].k = "td"
  /\ IsArbs(SubSeq(o, p0 + 1, p1), a)
  /\ \A j \in 1..Len(b) : BlockOk(s, b[j], o[p1 + j])
  /\ IsArbs(SubSeq(o, p2 + 1, p3), d)
  /\ \A j \in p3 + 1..p4 : o[j].k = "frame"
  /\ \A q \in subs : LET sub == s.c.els[q[1]].subs[q[2]]
                         at == {j \in p3 + 1..p4 : o[j].sub = sub.id} IN
                     Cardinality(at) = 1 /\ FrameOk(s, q[1], sub, u, o[CHOOSE j \in at : TRUE])
  /\ IsArbs(SubSeq(o, p4 + 1, p5), z)
Taken(s, u) == [s EXCEPT !.out = u + 1, !.idle = 0, !.arbs = SelectSeq(@, LAMBDA a : a.tick # u * s.c.S)]
\* everything was given out
AllOut(s) == s.fin /\ s.out = Units(s)
Finished(s) == AllOut(s) /\ s.arbs = << >>
\* something was asked for that cannot be done: samples after a part of a frame, trims that
\* do not fit, OBUs for times that no unit has
Excused(s) == \/ s.odd
              \/ \E k \in 1..Len(s.c.els) : s.fin /\ ~Full(s, k)
              \/ Units(s) > 0 /\ \E k \in 1..Len(s.c.els) :
                    Ended(s, k) /\
                    LET u == Units(s) - 1 pad == Pad(s, k) cut == LastCut(s, k) IN
                    pad > cut \/ cut > s.c.S \/ CutStart(s, u) + cut > s.c.S
              \/ AllOut(s) /\ s.arbs # << >>
\* --- calls
\* a frame that is not whole ends what a channel gets
Encoded(s, x, block) ==
  LET give(a, p) == [a EXCEPT !.x[p.el][p.lab] = @ \o p.x, !.odd = @ \/ p.lab \in a.short[p.el],
                              !.short[p.el] = IF Len(p.x) % a.c.S # 0 THEN @ \cup {p.lab} ELSE @] IN
  [(IF s.fin THEN s ELSE FoldLeft(give, s, x)) EXCEPT !.blocks = @ \o block]
=============================================================================
