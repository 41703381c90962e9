----------------------------- MODULE MixingModel -----------------------------
(* Small mixes: one or two elements, every frame of a few samples, every gain.
   What is mixed is linear in what goes in, is made tick by tick, and two
   elements together are the sum of each by itself. *)
EXTENDS Mixing
CONSTANTS Amounts, Powers
VARIABLES at, c
Mats == << [in |-> "0+1+0", out |-> "0+2+0", m |-> << <<700000, 700000>> >>],
           [in |-> "A0", out |-> "0+2+0", m |-> << <<500000, -500000>> >>],
           [in |-> "3.1.2", out |-> "0+2+0", m |-> << <<1000000, 0>>, <<0, 1000000>>, <<700000, 700000>>, <<0, 0>>, <<300000, 0>>, <<0, 300000>> >>] >>
Ch(l) == [t |-> "channels", layers |-> << [layout |-> l, x |-> -1] >>]
Kinds == << [c |-> Ch(0), ids |-> <<1>>, has |-> <<"M">>],
            [c |-> Ch(1), ids |-> <<1>>, has |-> <<"L2", "R2">>],
            [c |-> [t |-> "mono", count |-> 1, map |-> <<0>>], ids |-> <<1>>, has |-> <<"A0">>],
            [c |-> [t |-> "projection", channels |-> 1, count |-> 1, pairs |-> 0, d |-> << << -2>> >>], ids |-> <<1>>, has |-> <<"A0">>] >>
Ticks2 == 2
Levels == {x - 1 : x \in Powers}
Gain == {<< >>} \cup {<<a, b>> : a \in Levels, b \in Levels}   \* no block, or a gain for each tick
Frame(id, k, v, cut) == [id |-> id, a |-> cut[1], z |-> cut[2], in |-> FALSE, dm |-> <<4, 4, 4, 4, 0>>,
                         x |-> [l \in ToSet(Kinds[k].has) |-> IF l = "R2" THEN [t \in 1..Ticks2 |-> -2 * v[t]] ELSE v]]
World(ks, g) == LET els == [i \in 1..Len(ks) |-> [id |-> i, codec |-> 0, ids |-> Kinds[ks[i]].ids, c |-> Kinds[ks[i]].c]] IN
  [codecs |-> << [id |-> 0, spf |-> Ticks2, rate |-> 48000, bits |-> 16] >>, els |-> els, mats |-> Mats, t0 |-> TRUE, t1 |-> TRUE, on |-> TRUE, ears |-> TRUE,
   mixes |-> << [id |-> 9, subs |-> << [els |-> [i \in 1..Len(ks) |-> [id |-> i, mode |-> 0, pid |-> i, rate |-> 48000, k |-> 0]], pid |-> 7, rate |-> 48000, k |-> g,
                 layouts |-> << [t |-> 2, ss |-> 0, ear |-> TRUE, wet |-> TRUE] >>] >>] >>]
Block(i, g) == IF g = << >> THEN << >> ELSE << [id |-> i, s |-> 0, e |-> Ticks2, g |-> << <<1, g[1]>>, <<Ticks2 - 1, g[2]>> >>] >>
Signals == [1..Ticks2 -> {x - 1 : x \in Amounts}]
Choice == [ks : {<<a>> : a \in 1..Len(Kinds)} \cup {<<a, b>> : a \in 1..Len(Kinds), b \in 1..Len(Kinds)}, out : Levels, g : Gain]
Nothing == [ks |-> << >>, out |-> 0, g |-> << >>]
Init == at = "choose" /\ c = [w |-> Nothing, v |-> << >>, u |-> << >>, cut |-> <<0, 0>>]
Next == \/ at = "choose" /\ at' = "world" /\ \E w \in Choice : c' = [c EXCEPT !.w = w]
        \/ /\ at = "world" /\ at' = "mix"
           /\ \E v \in Signals, u \in Signals, cut \in {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>} :
                /\ (cut[1] > 0 => c.w.g = << >> \/ c.w.g[1] = c.w.g[2]) = TRUE
                /\ c' = [c EXCEPT !.v = v, !.u = u, !.cut = cut]
Spec == Init /\ [][Next]_<<at, c>>
\* of elements ks: the mix of these signals
MixOf(ks, sig, cut) == LET w == TLCEval(World(ks, c.w.out)) p == PlacesOf(w)[1] u == [frames |-> [i \in 1..Len(ks) |-> Frame(i, ks[i], sig[i], cut)], blocks |-> Block(1, c.w.g)] IN
  [ok |-> p.renders /\ Renderable(w, p, u), y |-> IF p.renders /\ Renderable(w, p, u) THEN TLCEval(Mixed(w, p, u)) ELSE << >>]
Ks == c.w.ks
Plus(a, b) == [t \in 1..Ticks2 |-> a[t] + b[t]]
Zero == [t \in 1..Ticks2 |-> 0]
Both(a, b) == [ch \in 1..Len(a) |-> [t \in 1..Len(a[ch]) |-> a[ch][t] + b[ch][t]]]
Close(a, b) == Near(a, b, 1, 400)
Always == at = "mix" => MixOf(Ks, [i \in 1..Len(Ks) |-> c.v], c.cut).ok
Linear == at = "mix" => LET a == MixOf(Ks, [i \in 1..Len(Ks) |-> c.v], c.cut).y b == MixOf(Ks, [i \in 1..Len(Ks) |-> c.u], c.cut).y IN
                        Close(MixOf(Ks, [i \in 1..Len(Ks) |-> Plus(c.v, c.u)], c.cut).y, Both(a, b))
Silent == at = "mix" => \A ch \in 1..2 : \A t \in 1..(Ticks2 - c.cut[1] - c.cut[2]) : MixOf(Ks, [i \in 1..Len(Ks) |-> Zero], c.cut).y[ch][t] = 0
\* a mix of two is what is left when the other is silent, added up
Apart == at = "mix" /\ Len(Ks) = 2 => Close(MixOf(Ks, <<c.v, c.u>>, c.cut).y, Both(MixOf(Ks, <<c.v, Zero>>, c.cut).y, MixOf(Ks, <<Zero, c.u>>, c.cut).y))
\* cutting samples off and mixing, or mixing and then cutting off
Trimmed == at = "mix" => LET n == Ticks2 - c.cut[1] - c.cut[2] a == MixOf(Ks, [i \in 1..Len(Ks) |-> c.v], c.cut).y b == MixOf(Ks, [i \in 1..Len(Ks) |-> c.v], <<0, 0>>).y IN
                         a = [ch \in 1..Len(b) |-> [t \in 1..n |-> b[ch][c.cut[1] + t]]]
\* each tick by itself: changing a tick does not change another
Instant == at = "mix" => LET a == MixOf(Ks, [i \in 1..Len(Ks) |-> c.v], <<0, 0>>).y b == MixOf(Ks, [i \in 1..Len(Ks) |-> c.u], <<0, 0>>).y IN
                         \A t \in 1..Ticks2 : c.v[t] = c.u[t] => \A ch \in 1..2 : a[ch][t] = b[ch][t]
=============================================================================
