------------------------------- MODULE Layers -------------------------------
(* Which channels each substream of an audio element carries. A layout is its
   numbers of surround, low frequency and height channels; each layer of a
   channel-based element codes what the layers before it leave open. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC
Bad == [ok |-> FALSE, subs |-> << >>, gains |-> {}, nums |-> << >>]
Layout == << <<1, 0, 0>>, <<2, 0, 0>>, <<5, 1, 0>>, <<5, 1, 2>>, <<5, 1, 4>>, <<7, 1, 0>>, <<7, 1, 2>>, <<7, 1, 4>>, <<3, 1, 2>>, <<2, 0, 0>> >>
None == <<0, 0, 0>>
\* the channels of a layout: pairs, then single ones
Around(s) == CASE s = 2 -> <<"L2", "R2">> [] s = 3 -> <<"L3", "R3">> [] s = 5 -> <<"L5", "R5", "Ls5", "Rs5">>
              [] s = 7 -> <<"L7", "R7", "Lss7", "Rss7", "Lrs7", "Rrs7">> [] OTHER -> << >>
Height(s, h) == CASE h = 2 /\ s = 3 -> <<"Ltf3", "Rtf3">> [] h = 2 -> <<"Ltf2", "Rtf2">>
                  [] h = 4 -> <<"Ltf4", "Rtf4", "Ltb4", "Rtb4">> [] OTHER -> << >>
Lfe(l) == IF l = 1 THEN <<"LFE">> ELSE << >>
Crosses(p, c, n) == p[1] < n /\ c[1] >= n
\* what a layer adds to the layouts before it: [two: channels in pairs, one: single channels]
Adds(p, c) ==
  IF p = None
  THEN [two |-> Around(c[1]) \o Height(c[1], c[3]),
        one |-> (IF c[1] = 1 THEN <<"M">> ELSE IF c[1] >= 3 THEN <<"C">> ELSE << >>) \o Lfe(c[2])]
  ELSE [two |-> (IF Crosses(p, c, 5) THEN <<"L5", "R5">> ELSE << >>) \o (IF Crosses(p, c, 7) THEN <<"Lss7", "Rss7">> ELSE << >>)
                \o (IF c[3] = p[3] THEN << >> ELSE IF p[3] = 0 THEN Height(c[1], c[3]) ELSE <<"Ltf4", "Rtf4">>),
        one |-> (IF Crosses(p, c, 3) THEN <<"C">> ELSE << >>) \o (IF c[2] > p[2] THEN <<"LFE">> ELSE << >>)
                \o (IF Crosses(p, c, 2) THEN <<"L2">> ELSE << >>)]
\* the layouts of the extended list: pairs, single channels, and the numbers (surround, lfe, height, bottom)
Y(two, one, nums) == <<[two |-> two, one |-> one, nums |-> nums]>>
Expanded ==
  Y(<< >>, <<"LFE">>, <<0, 1, 0, 0>>) \o Y(<<"Ls5", "Rs5">>, << >>, <<2, 0, 0, 0>>) \o Y(<<"Lss7", "Rss7">>, << >>, <<2, 0, 0, 0>>)
  \o Y(<<"Lrs7", "Rrs7">>, << >>, <<2, 0, 0, 0>>) \o Y(<<"Ltf4", "Rtf4">>, << >>, <<0, 0, 2, 0>>) \o Y(<<"Ltb4", "Rtb4">>, << >>, <<0, 0, 2, 0>>)
  \o Y(<<"Ltf4", "Rtf4", "Ltb4", "Rtb4">>, << >>, <<0, 0, 4, 0>>) \o Y(<<"L7", "R7">>, <<"C">>, <<3, 0, 0, 0>>)
  \o Y(<<"FLc", "FRc", "FL", "FR", "SiL", "SiR", "BL", "BR", "TpFL", "TpFR", "TpSiL", "TpSiR", "TpBL", "TpBR">>, <<"FC", "LFE">>, <<9, 1, 6, 0>>)
  \o Y(<<"FL", "FR">>, << >>, <<2, 0, 0, 0>>) \o Y(<<"SiL", "SiR">>, << >>, <<2, 0, 0, 0>>) \o Y(<<"TpSiL", "TpSiR">>, << >>, <<0, 0, 2, 0>>)
  \o Y(<<"TpFL", "TpFR", "TpSiL", "TpSiR", "TpBL", "TpBR">>, << >>, <<0, 0, 6, 0>>)
  \o Y(<<"FLc", "FRc", "FL", "FR", "SiL", "SiR", "BL", "BR", "TpFL", "TpFR", "TpSiL", "TpSiR", "TpBL", "TpBR", "BtFL", "BtFR">>,
       <<"FC", "BC", "TpFC", "TpC", "TpBC", "BtFC", "LFE", "LFE2">>, <<10, 2, 9, 3>>)
  \o Y(<< >>, <<"LFE", "LFE2">>, <<0, 2, 0, 0>>) \o Y(<<"BtFL", "BtFR">>, <<"BtFC">>, <<0, 0, 0, 3>>)
  \o Y(<<"L7", "R7", "Lss7", "Rss7", "Lrs7", "Rrs7", "Ltf4", "Rtf4", "Ltb4", "Rtb4", "BtFL", "BtFR", "BtBL", "BtBR">>, <<"C", "TpC", "LFE">>, <<7, 1, 5, 4>>)
  \o Y(<<"BtFL", "BtFR", "BtBL", "BtBR">>, << >>, <<0, 0, 0, 4>>) \o Y(<< >>, <<"TpC">>, <<0, 0, 1, 0>>)
  \o Y(<<"Ltf4", "Rtf4", "Ltb4", "Rtb4">>, <<"TpC">>, <<0, 0, 5, 0>>)
Pairs(s) == [i \in 1..(Len(s) \div 2) |-> <<s[2 * i - 1], s[2 * i]>>]
Alone(s) == [i \in 1..Len(s) |-> <<s[i]>>]
\* the bit of the flags of an output gain that covers a channel, or -1
GainBit(x) == CASE x \in {"M", "L2", "L3"} -> 5 [] x \in {"R2", "R3"} -> 4 [] x = "Ls5" -> 3 [] x = "Rs5" -> 2
                [] x \in {"Ltf2", "Ltf3"} -> 1 [] x \in {"Rtf2", "Rtf3"} -> 0 [] OTHER -> -1
Covered(flags, x) == GainBit(x) >= 0 /\ (flags \div (2 ^ GainBit(x))) % 2 = 1
\* layer y: layout, x (extended layout), subs and pairs declared, gain present, its flags and value
OfLayer(prev, y, single) ==
  IF y.layout = 15 THEN
    IF ~single \/ y.x < 0 \/ y.x >= Len(Expanded) THEN <<>> ELSE <<Expanded[y.x + 1]>>
  ELSE IF y.layout > 9 THEN <<>>
  ELSE LET c == Layout[y.layout + 1] a == Adds(prev, c) IN
       IF c[1] < prev[1] \/ c[2] < prev[2] \/ c[3] < prev[3] THEN <<>>
       ELSE <<[two |-> a.two, one |-> a.one, nums |-> <<c[1], c[2], c[3], 0>>]>>
StepL(r, y, single) ==
  IF ~r.ok THEN r
  ELSE LET prev == IF r.nums = << >> THEN None ELSE SubSeq(Last(r.nums), 1, 3) m == OfLayer(prev, y, single) IN
       IF m = <<>> THEN Bad
       ELSE LET subs == Pairs(m[1].two) \o Alone(m[1].one) IN
            IF y.pairs # Len(m[1].two) \div 2 \/ y.subs # Len(subs) THEN Bad
            ELSE [ok |-> TRUE, subs |-> r.subs \o subs, nums |-> Append(r.nums, m[1].nums),
                  gains |-> r.gains \cup (IF y.g = 1 THEN {<<x, y.value>> : x \in {z \in ToSet(m[1].two \o m[1].one) : Covered(y.flags, z)}} ELSE {})]
Distinct(ids) == \A i, j \in 1..Len(ids) : ids[i] = ids[j] => i = j
OfChannels(ids, layers) ==
  LET n == Len(layers) IN
  IF n = 0 \/ n > 6 \/ ~Distinct(ids) \/ (n # 1 /\ \E i \in 1..n : layers[i].layout = 9) THEN Bad
  ELSE LET r == FoldLeft(LAMBDA a, y : TLCEval(StepL(a, y, n = 1)), [Bad EXCEPT !.ok = TRUE], layers) IN
       IF r.ok /\ Len(r.subs) = Len(ids) THEN r ELSE Bad
------------------------------------------------------------------------------
\* scene-based elements: ambisonics channel number -> substream (255: left out), or paired substreams first
Label(acn) == "A" \o ToString(acn)
Named == 0..24
Orders == {(k + 1) * (k + 1) : k \in 0..14}
OfMono(ids, count, map) ==
  LET used == {map[i] : i \in 1..Len(map)} \ {255} IN
  IF ~Distinct(ids) \/ Len(map) \notin Orders \/ count = 0 \/ count > Len(map) \/ used # 0..(count - 1) \/ Len(ids) # count
     \/ (\E i \in 1..Len(map) : map[i] # 255 /\ i - 1 \notin Named) THEN Bad
  ELSE [Bad EXCEPT !.ok = TRUE,
        !.subs = [s \in 1..count |-> LET at == SelectSeq([i \in 1..Len(map) |-> i - 1], LAMBDA a : map[a + 1] = s - 1) IN [k \in 1..Len(at) |-> Label(at[k])]]]
OfProjection(ids, channels, count, pairs) ==
  IF ~Distinct(ids) \/ channels \notin Orders \/ pairs > count \/ count + pairs = 0 \/ count + pairs > channels \/ Len(ids) # count
     \/ count + pairs - 1 \notin Named THEN Bad
  ELSE [Bad EXCEPT !.ok = TRUE, !.subs = [s \in 1..count |-> IF s <= pairs THEN <<Label(2 * s - 2), Label(2 * s - 1)>> ELSE <<Label(pairs + s - 1)>>]]
------------------------------------------------------------------------------
\* what demixing makes of the coded channels
Rules == {<<"R2", {"M", "L2"}>>, <<"L3", {"L2", "C"}>>, <<"R3", {"R2", "C"}>>, <<"Ls5", {"L3", "L5"}>>, <<"Rs5", {"R3", "R5"}>>,
          <<"L7", {"L5"}>>, <<"R7", {"R5"}>>, <<"Lrs7", {"Ls5", "Lss7"}>>, <<"Rrs7", {"Rs5", "Rss7"}>>,
          <<"Ltf2", {"Ltf3", "L3", "L5"}>>, <<"Rtf2", {"Rtf3", "R3", "R5"}>>, <<"Ltb4", {"Ltf2", "Ltf4"}>>, <<"Rtb4", {"Rtf2", "Rtf4"}>>}
More(s) == s \cup {r[1] : r \in {q \in Rules : q[2] \subseteq s}}
Available(coded) == More(More(More(More(More(More(coded))))))
ChannelsOf(c) == ToSet(Around(c[1]) \o Height(c[1], c[3]) \o Lfe(c[2])) \cup (IF c[1] = 1 THEN {"M"} ELSE IF c[1] >= 3 THEN {"C"} ELSE {})
=============================================================================
