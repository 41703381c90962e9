------------------------------ MODULE Profiles ------------------------------
(* The limits of the profiles 0 (simple), 1 (base), 2 (base enhanced),
   3 (base advanced), 4 and 5 (advanced). *)
EXTENDS Layers
Profiles == 0..5
Advanced == 3..5
MaxElements == <<1, 2, 28, 18, 18, 28>>
MaxChannels == <<16, 18, 28, 18, 18, 28>>
MaxSubMixes == <<1, 1, 1, 2, 2, 2>>
MaxCodecs == <<1, 1, 1, 2, 2, 2>>
\* extended layouts the base enhanced profile knows
Known == (0..12)
\* the profiles that allow an element of this kind: it.t, and the layout of its first layer
Element(it) ==
  CASE it.t = "channels" ->
         LET y == it.layers[1] IN
         IF y.layout = 15 THEN (IF y.x \in Known THEN {2} ELSE {}) \cup (IF y.x \in 0..19 THEN Advanced ELSE {})
         ELSE IF y.layout <= 9 THEN Profiles ELSE {}
    [] it.t \in {"mono", "projection"} -> Profiles
    [] it.t = "objects" -> Advanced
    [] OTHER -> {}
ChannelCount(it) ==
  CASE it.t = "channels" -> Len(FlattenSeq(OfChannels([i \in 1..FoldLeft(LAMBDA a, y : a + y.subs, 0, it.layers) |-> i], it.layers).subs))
    [] it.t = "mono" -> Cardinality({i \in 1..Len(it.map) : it.map[i] # 255})
    [] it.t = "projection" -> it.count + it.pairs
    [] it.t = "objects" -> it.count
    [] OTHER -> 0
\* els: id -> [it, ch, codec]; codecs: sequence of [frame, rate, lpcm]; a mix: sequence of sub-mixes of [id, hp]
CodecsOf(els, sub) == {els[sub[k].id].codec : k \in 1..Len(sub)}
Mix(els, codecs, subs) ==
  LET all == FlattenSeq(subs)
      used == UNION {CodecsOf(els, subs[s]) : s \in 1..Len(subs)}
      channels == FoldLeft(LAMBDA a, x : a + els[x.id].ch, 0, all)
  IN
  IF \E k \in 1..Len(all) : all[k].id \notin DOMAIN els THEN {}
  ELSE {p \in Profiles :
          /\ Len(subs) <= MaxSubMixes[p + 1]
          /\ Len(all) <= MaxElements[p + 1]
          /\ channels <= MaxChannels[p + 1]
          /\ Cardinality(used) <= MaxCodecs[p + 1]
          /\ Cardinality(CodecsOf(els, subs[1])) = 1
          /\ Cardinality({<<codecs[c + 1].frame, codecs[c + 1].rate>> : c \in used}) = 1
          /\ (Cardinality(used) > 1 => \E c \in used : codecs[c + 1].lpcm)
          /\ \A k \in 1..Len(all) : p \in els[all[k].id].fits /\ all[k].hp # 3 /\ (all[k].hp = 2 => p \in Advanced)}
=============================================================================
