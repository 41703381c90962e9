------------------------------- MODULE Timing -------------------------------
(* The clocks of the substreams and of the parameters: every frame and block
   starts where the previous one of its stream ended. Times may be wider than
   the integers here; Plus and Zero say what they are. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Plus(_, _), Zero
\* elements: the substreams of each; params: [id, rate]. A clock per stream, or none.
Create(els, params) ==
  LET all == {<<e, s>> : e \in DOMAIN els, s \in 1..50}
      at == {x \in all : x[2] <= Len(els[x[1]])}
      ids == {els[x[1]][x[2]] : x \in at}
  IN IF Cardinality(ids) # Cardinality(at) \/ (\E k \in 1..Len(params) : params[k].rate = 0) THEN << >>
     ELSE <<[audio |-> [k \in ids |-> Zero], param |-> [k \in {params[n].id : n \in 1..Len(params)} |-> Zero]]>>
Frame(c, id, dur) ==
  IF id \notin DOMAIN c.audio THEN [ok |-> FALSE, c |-> c]
  ELSE LET end == Plus(c.audio[id], dur) IN [ok |-> TRUE, start |-> c.audio[id], end |-> end, c |-> [c EXCEPT !.audio[id] = end]]
\* a block lasts from where the last one ended, and that is where it must start
Block(c, id, at, dur) ==
  IF id \notin DOMAIN c.param THEN [ok |-> FALSE, c |-> c]
  ELSE LET end == Plus(c.param[id], dur) IN [ok |-> c.param[id] = at, start |-> c.param[id], end |-> end, c |-> [c EXCEPT !.param[id] = end]]
\* the time all substreams have reached: << >> while they differ
Common(c) == IF DOMAIN c.audio = {} THEN [ok |-> FALSE]
             ELSE LET t == {c.audio[k] : k \in DOMAIN c.audio} IN [ok |-> TRUE, t |-> IF Cardinality(t) = 1 THEN <<CHOOSE x \in t : TRUE>> ELSE << >>]
=============================================================================
