------------------------------- MODULE Select -------------------------------
(* Which mix, sub-mix and layout a decoder renders. A layout is a number:
   200 + its sound system for loudspeakers, 300 for headphones; others are
   reserved. A mix: id, subs: its sub-mixes, each els: [id, hp], lays. last:
   the last layer of each channel-based element that has layers, by id. A
   request: want and id, sequences of at most one value. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC
Stereo == 200
Binaural == 300
\* a mix as read: every sub-mix is meant for stereo at least
Read(m) == [m EXCEPT !.subs = [s \in 1..Len(m.subs) |->
              IF Stereo \in ToSet(m.subs[s].lays) THEN m.subs[s] ELSE [m.subs[s] EXCEPT !.lays = Append(@, Stereo)]]]
Lone(m, last, layer) == LET e == m.subs[1].els IN Len(e) = 1 /\ e[1].id \in DOMAIN last /\ last[e[1].id] = layer
MadeForStereo(m, last) == m.subs[1].lays = <<Stereo>> /\ Lone(m, last, 1)
Has(m, want) == \E s \in 1..Len(m.subs) : want \in ToSet(m.subs[s].lays)
\* the lower, the better a mix suits the request
Rank(m, last, want, id) ==
  CASE id # << >> /\ m.id = id[1] -> 0
    [] want = <<Binaural>> /\ Lone(m, last, 9) -> 1
    [] want = <<Binaural>> /\ Has(m, Binaural) -> 2
    [] want = <<Stereo>> /\ MadeForStereo(m, last) /\ m.subs[1].els[1].hp = 0 -> 1
    [] want = <<Stereo>> /\ MadeForStereo(m, last) -> 2
    [] want # << >> /\ want[1] \notin {Stereo, Binaural} /\ Has(m, want[1]) -> 1
    [] OTHER -> 3
Place(m, want) == \* <<sub-mix, layout>>
  IF want = << >> THEN <<1, 1>>
  ELSE LET at == {<<s, l>> : s \in 1..Len(m.subs), l \in 1..20}
           hits == {x \in at : x[2] <= Len(m.subs[x[1]].lays) /\ m.subs[x[1]].lays[x[2]] = want[1]}
       IN IF hits = {} THEN <<1, Len(m.subs[1].lays) + 1>> ELSE CHOOSE x \in hits : \A y \in hits : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
\* mixes: the supported ones in order
Select(mixes, last, want, id) ==
  IF mixes = << >> THEN [ok |-> FALSE]
  ELSE LET ranks == [k \in 1..Len(mixes) |-> Rank(mixes[k], last, want, id)]
           k == CHOOSE a \in 1..Len(mixes) : \A b \in 1..Len(mixes) : ranks[a] < ranks[b] \/ (ranks[a] = ranks[b] /\ a <= b)
           p == Place(mixes[k], want)
       IN [ok |-> TRUE, k |-> k, sub |-> p[1], lay |-> p[2], layout |-> IF want = << >> THEN mixes[k].subs[1].lays[1] ELSE want[1]]
\* the mixes afterwards: the requested layout was added to the selected one if it lacked it
After(mixes, r) ==
  IF ~r.ok \/ r.lay <= Len(mixes[r.k].subs[r.sub].lays) THEN mixes
  ELSE [mixes EXCEPT ![r.k].subs[r.sub].lays = Append(@, r.layout)]
Channels(layout) == IF layout = Binaural THEN 2 ELSE <<2, 6, 8, 10, 11, 12, 14, 24, 8, 12, 10, 6, 1, 16, 17>>[layout - 199]
=============================================================================
