----------------------------- MODULE Bitstream -----------------------------
(* What a decoder makes of the blocks and frames of a bitstream: the times of
   each, and the parameters in force for each frame. Every unit has all its
   frames here; what happens otherwise is Decoder's matter. *)
EXTENDS Params, SequencesExt, FiniteSets
Add(a, b) == a + b
C == INSTANCE Timing WITH Plus <- Add, Zero <- 0
ElOf(els, sub) == CHOOSE e \in 1..Len(els) : \E k \in 1..Len(els[e].subs) : els[e].subs[k] = sub
Start(x) ==
  LET ids == x.gains \o FlattenSeq([e \in 1..Len(x.els) |-> [k \in 1..Len(x.els[e].dm) |-> x.els[e].dm[k].id] \o x.els[e].rg])
  IN [c |-> C!Create([e \in 1..Len(x.els) |-> x.els[e].subs], [k \in 1..Len(ids) |-> [id |-> ids[k], rate |-> 48000]])[1],
      s |-> [e \in 1..Len(x.els) |-> New(x.els[e].dm, x.els[e].rg, x.els[e].layers)],
      del |-> FALSE, at |-> << >>, frames |-> << >>, blocks |-> << >>, units |-> << >>]
Unit(m) == [t |-> m.at[1], frames |-> m.frames, blocks |-> m.blocks]
\* a unit is finished, and its blocks with it, by what starts later or by the second delimiter
Close(m, at) == [m EXCEPT !.at = at, !.del = FALSE, !.units = Append(@, Unit(m)), !.frames = << >>, !.blocks = << >>,
                          !.s = [e \in DOMAIN @ |-> [@[e] EXCEPT !.b = << >>, !.r = << >>]]]
Place(m, t) == IF m.at = << >> THEN [m EXCEPT !.at = <<t>>] ELSE IF m.at[1] = t THEN m ELSE Close(m, <<t>>)
Delimit(m) == IF m.del /\ m.at # << >> THEN Close(m, << >>) ELSE [m EXCEPT !.del = TRUE]
Frame(x, m, o) ==
  LET r == C!Frame(m.c, o.id, x.frame)
      e == ElOf(x.els, o.id)
      g == GetDemixing(m.s[e])
      q == GetRecon(g.s, x.els[e].layers)
      n == [m EXCEPT !.c = r.c, !.s[e] = g.s]
      kept == g.v # << >> /\ q # << >>
      p == IF ~kept THEN n
           ELSE LET y == Place(n, r.start) IN [y EXCEPT !.frames = Append(@, [id |-> o.id, start |-> r.start, end |-> r.end, dm |-> g.v[1], rg |-> q[1]])]
      all == C!Common(p.c).t
  IN IF ~kept \/ all = << >> THEN p ELSE [p EXCEPT !.s = [k \in 1..Len(x.els) |->
       UpdateRecon([UpdateDemixing(p.s[k], all[1]).s EXCEPT !.b = << >>], all[1]).s]]
Block(x, m, o) ==
  IF o.kind = "stray" \/ C!Common(m.c).t = << >> THEN m
  ELSE LET r == C!Block(m.c, o.id, C!Common(m.c).t[1], o.dur)
           n == [m EXCEPT !.c = r.c]
       IN IF ~r.ok THEN n
          ELSE LET y == Place(n, r.start)
                   b == [start |-> r.start, end |-> r.end, mode |-> o.mode, data |-> o.data]
               IN [y EXCEPT !.blocks = Append(@, [id |-> o.id, start |-> r.start, end |-> r.end]),
                            !.s = [k \in 1..Len(x.els) |-> IF o.kind = "dm" THEN AddDemixing(@[k], o.id, b) ELSE IF o.kind = "rg" THEN AddRecon(@[k], o.id, b) ELSE @[k]]]
Run(x) == LET m == FoldLeft(LAMBDA a, o : TLCEval(IF o.t = "f" THEN Frame(x, a, o) ELSE IF o.t = "d" THEN Delimit(a) ELSE Block(x, a, o)), Start(x), x.obus)
          IN IF m.at = << >> THEN m.units ELSE Append(m.units, Unit(m))
Times(u) == [u EXCEPT !.frames = [k \in 1..Len(u.frames) |-> [id |-> u.frames[k].id, start |-> u.frames[k].start, end |-> u.frames[k].end]]]
Agrees(x, everything) == LET u == TLCEval(Run(x)) IN
  x.ok /\ (IF everything THEN x.units = u ELSE Len(x.units) = Len(u) /\ \A k \in 1..Len(u) : Times(x.units[k]) = Times(u[k]))
=============================================================================
