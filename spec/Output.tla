------------------------------- MODULE Output -------------------------------
(* How decoded audio leaves the system: the channels of each output layout,
   the order Android's AudioFormat asks for, the identity of the layouts in
   the public interface and in the bitstream, the interleaved PCM bytes, and
   the common format chosen for a mix. *)
EXTENDS Integers, Sequences, FiniteSets
\* the position of each loudspeaker in Android's channel mask
Mask == <<"FL", "FR", "FC", "LFE", "BL", "BR", "FLC", "FRC", "BC", "SL", "SR", "TC", "TFL", "TFC", "TFR",
          "TBL", "TBC", "TBR", "TSL", "TSR", "BFL", "BFC", "BFR", "LFE2">>
Rank(x) == CHOOSE i \in 1..Len(Mask) : Mask[i] = x
\* ITU-R BS.2051 sound systems (0..9) and IAMF's extensions (10..13), in the order of the bitstream
Speakers(s) ==
  CASE s = 0 -> <<"FL", "FR">>
    [] s = 1 -> <<"FL", "FR", "FC", "LFE", "BL", "BR">>
    [] s = 2 -> <<"FL", "FR", "FC", "LFE", "BL", "BR", "TFL", "TFR">>
    [] s = 3 -> <<"FL", "FR", "FC", "LFE", "BL", "BR", "TFL", "TFR", "TBL", "TBR">>
    [] s = 4 -> <<"FL", "FR", "FC", "LFE", "BL", "BR", "TFL", "TFR", "TBL", "TBR", "BFC">>
    [] s = 5 -> <<"FC", "FL", "FR", "TFL", "TFR", "SL", "SR", "BL", "BR", "TC", "LFE", "LFE2">>
    [] s = 6 -> <<"FL", "FR", "FC", "LFE", "SL", "SR", "BL", "BR", "TFL", "TFR", "TBL", "TBR", "FLC", "FRC">>
    [] s = 7 -> <<"FL", "FR", "FC", "LFE", "BL", "BR", "FLC", "FRC", "BC", "LFE2", "SL", "SR", "TFL", "TFR", "TFC", "TC",
                  "TBL", "TBR", "TSL", "TSR", "TBC", "BFC", "BFL", "BFR">>
    [] s = 8 -> <<"FL", "FR", "FC", "LFE", "SL", "SR", "BL", "BR">>
    [] s = 9 -> <<"FL", "FR", "FC", "LFE", "SL", "SR", "BL", "BR", "TFL", "TFR", "TBL", "TBR">>
    [] s = 10 -> <<"FL", "FR", "FC", "LFE", "SL", "SR", "BL", "BR", "TFL", "TFR">>
    [] s = 11 -> <<"FL", "FR", "FC", "LFE", "TFL", "TFR">>
    [] s = 12 -> <<"FC">>
    [] s = 13 -> <<"FL", "FR", "FC", "LFE", "BL", "BR", "FLC", "FRC", "SL", "SR", "TFL", "TFR", "TBL", "TBR", "TSL", "TSR">>
    [] OTHER -> << >>
Known == 0..13
\* the places (1-based, in the bitstream's order) of the channels in the order asked for
RECURSIVE Sorted(_, _)
Sorted(sp, left) == IF left = {} THEN << >>
                    ELSE LET m == CHOOSE i \in left : \A j \in left : Rank(sp[i]) <= Rank(sp[j]) IN <<m>> \o Sorted(sp, left \ {m})
Order(s) == Sorted(Speakers(s), 1..Len(Speakers(s)))
Identity(n) == [i \in 1..n |-> i]
Place(q, f) == [i \in 1..Len(q) |-> f[q[i]]]
\* frame: any sequence of channels
Reorder(s, android, f) ==
  LET k == Len(Speakers(s)) IN
  IF ~android \/ s \notin Known THEN {[ok |-> TRUE, v |-> f]}
  ELSE IF Order(s) = Identity(k) THEN {[ok |-> TRUE, v |-> f]}
  ELSE IF Len(f) >= k THEN {[ok |-> TRUE, v |-> Place(Order(s), f) \o SubSeq(f, k + 1, Len(f))]}
  \* a frame that lacks channels: refused, or the channels it has are put in order
  ELSE {[ok |-> FALSE, v |-> f],
        [ok |-> TRUE, v |-> Place(Sorted(Speakers(s), 1..Len(f)), f)]}

(* layouts: the public numbers are those of the sound systems; 14 is binaural there and 7.1.5.4 in the bitstream *)
Conv == 2  \* layout_type: loudspeakers by convention
Bin == 3   \* layout_type: binaural
ToInternal(a) == IF a \in 0..13 THEN [type |-> Conv, ss |-> a] ELSE [type |-> Bin, ss |-> -1]
ToPublic(l) == IF l.type = Bin THEN [ok |-> TRUE, v |-> 14]
               ELSE IF l.type = Conv /\ l.ss \in 0..13 THEN [ok |-> TRUE, v |-> l.ss] ELSE [ok |-> FALSE, v |-> -1]
NumChannels(l) == IF l.type = Bin THEN [ok |-> TRUE, v |-> 2]
                  ELSE IF l.type = Conv /\ l.ss \in Known THEN [ok |-> TRUE, v |-> Len(Speakers(l.ss))]
                  ELSE IF l.type = Conv /\ l.ss = 14 THEN [ok |-> TRUE, v |-> 17]
                  ELSE [ok |-> FALSE, v |-> -1]

(* interleaved PCM: a sample is the sequence of its 4 bytes, lowest first; the most significant ones are written *)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Top(x, k, big) == LET t == SubSeq(x, 5 - k, 4) IN IF big THEN Rev(t) ELSE t
RECURSIVE Cat(_)
Cat(q) == IF q = << >> THEN << >> ELSE Head(q) \o Cat(Tail(q))
Pcm(f, bits, big) ==
  LET n == Len(f) t == Len(f[1]) IN
  Cat([i \in 1..(n * t) |-> Top(f[((i - 1) % n) + 1][((i - 1) \div n) + 1], bits \div 8, big)])

(* the common format of a mix *)
Common(rates, depths) ==
  IF rates = {} \/ depths = {} THEN [ok |-> FALSE, rate |-> 0, bits |-> 0, resample |-> FALSE]
  ELSE [ok |-> TRUE, rate |-> IF Cardinality(rates) = 1 THEN CHOOSE r \in rates : TRUE ELSE 48000,
        bits |-> IF Cardinality(depths) = 1 THEN CHOOSE b \in depths : TRUE ELSE 16, resample |-> Cardinality(rates) > 1]
=============================================================================
