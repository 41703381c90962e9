----------------------------- MODULE LayersModel -----------------------------
(* Every order of layers, each declaring the substreams it needs. *)
EXTENDS Layers
CONSTANTS MaxLayers, Top
VARIABLES layers, r
Prev == IF r.nums = << >> THEN None ELSE SubSeq(Last(r.nums), 1, 3)
Declares(l) == LET m == OfLayer(Prev, [layout |-> l, x |-> -1], FALSE) IN
               IF m = << >> THEN [subs |-> 1, pairs |-> 0]
               ELSE [subs |-> Len(m[1].two) \div 2 + Len(m[1].one), pairs |-> Len(m[1].two) \div 2]
Y1(l, d) == [layout |-> l, x |-> -1, subs |-> d.subs, pairs |-> d.pairs, g |-> 0, flags |-> 0, value |-> 0]
Ids(n) == [i \in 1..n |-> i]
Total(ls) == FoldLeft(LAMBDA a, y : a + y.subs, 0, ls)
Init == layers = << >> /\ r = [Bad EXCEPT !.ok = TRUE]
Next == Len(layers) < MaxLayers /\ r.ok
        /\ \E l \in 0..Top : layers' = Append(layers, Y1(l, Declares(l)))
        /\ r' = OfChannels(Ids(Total(layers')), layers')
Spec == Init /\ [][Next]_<<layers, r>>
Coded == FlattenSeq(r.subs)
Top1 == Layout[Last(layers).layout + 1]
Once == r.ok => Distinct(Coded)
\* every channel of every layer is coded in it or before, or follows by demixing
Complete == r.ok /\ layers # << >> => ChannelsOf(Top1) \subseteq Available(ToSet(Coded))
\* and nothing is coded that the others already tell: as many coded channels as channels
Tight == r.ok /\ layers # << >> => Len(Coded) = Cardinality(ChannelsOf(Top1))
Needed == r.ok => \A x \in ToSet(Coded) : x \notin Available(ToSet(Coded) \ {x})
\* only growing layouts are accepted, and all of those are
Grows == layers # << >> =>
  (r.ok <=> /\ \A i \in 1..Len(layers) : layers[i].layout <= 9 /\ (layers[i].layout = 9 => Len(layers) = 1)
            /\ \A i \in 1..Len(layers) - 1 : \A k \in 1..3 : Layout[layers[i].layout + 1][k] <= Layout[layers[i + 1].layout + 1][k])
\* one substream more or less is refused
Counted == r.ok /\ layers # << >> => ~OfChannels(Ids(Total(layers) + 1), layers).ok /\ ~OfChannels(Ids(Total(layers) - 1), layers).ok
=============================================================================
