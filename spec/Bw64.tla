-------------------------------- MODULE Bw64 --------------------------------
(* A RIFF/WAVE file with ADM metadata. The file is a sequence of bytes; offsets
   count from 0. A chunk is a name, a little-endian size (hi: its top byte, lo:
   the other three) and that many bytes, padded to an even length. *)
EXTENDS Integers, Sequences, TLC

Fmt4 == <<102, 109, 116, 32>>   \* "fmt "
Axml == <<97, 120, 109, 108>>
Data == <<100, 97, 116, 97>>
Dbmd == <<100, 98, 109, 100>>
Riff == <<82, 73, 70, 70>>
Wave == <<87, 65, 86, 69>>

U16(b, o) == b[o + 1] + 256 * b[o + 2]
Size(b, o) == [hi |-> b[o + 4], lo |-> b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3]]
Part(b, o, n) == SubSeq(b, o + 1, o + n)

IsWave(b) == Len(b) >= 12 /\ Part(b, 0, 4) = Riff /\ Part(b, 8, 4) = Wave
\* The chunks from offset o on. Of several with one name, the last counts. A
\* chunk that claims to go on beyond the end of the file is the last one.
RECURSIVE Walk(_, _, _)
Walk(b, o, table) ==
  IF o + 8 > Len(b) THEN table
  ELSE LET s == Size(b, o + 4)
           t == (Part(b, o, 4) :> [size |-> s, offset |-> o]) @@ table
       IN IF s.hi > 0 THEN t ELSE Walk(b, o + 8 + s.lo + (s.lo % 2), t)
Chunks(b) == IF Len(b) < 12 THEN << >> ELSE Walk(b, 12, << >>)
Has(t, n) == n \in DOMAIN t
Inside(b, c) == c.size.hi = 0 /\ c.offset + 8 + c.size.lo <= Len(b)
Bytes(b, c) == Part(b, c.offset + 8, c.size.lo)

FmtAt(b, o) == [tag |-> U16(b, o), channels |-> U16(b, o + 2), rate |-> Size(b, o + 4), avg |-> Size(b, o + 8),
                align |-> U16(b, o + 12), bits |-> U16(b, o + 14)]
FmtOk(b, t) == /\ Has(t, Fmt4) /\ (t[Fmt4].size.hi > 0 \/ t[Fmt4].size.lo >= 16)
               /\ t[Fmt4].offset + 24 <= Len(b)
               /\ LET f == FmtAt(b, t[Fmt4].offset + 8) IN
                  f.channels > 0 /\ f.rate # [hi |-> 0, lo |-> 0] /\ f.bits \in {16, 24, 32}
Rates == {[hi |-> 0, lo |-> 48000], [hi |-> 0, lo |-> 96000]}

(* What a file says, given a reader of its metadata: Doc(x) is << >> when the
   text x is not a metadata document, else a sequence with the document. *)
ReadFile(b, Doc(_)) ==
  LET t == Chunks(b)  bad == [ok |-> FALSE] IN
  IF ~IsWave(b) \/ ~FmtOk(b, t) \/ ~Has(t, Axml) THEN bad
  ELSE IF ~Inside(b, t[Axml]) THEN bad
  ELSE LET f == FmtAt(b, t[Fmt4].offset + 8)  d == Doc(Bytes(b, t[Axml]))  dolby == Has(t, Dbmd) IN
       IF d = << >> \/ (dolby /\ (f.bits # 24 \/ f.rate \notin Rates)) THEN bad
       ELSE [ok |-> TRUE, chunks |-> t, fmt |-> f, doc |-> d[1], dolby |-> dolby]

(* Objects own consecutive tracks of the file, also those that are left out. *)
RECURSIVE TracksBefore(_, _)
TracksBefore(objs, i) == IF i = 1 THEN 0 ELSE TracksBefore(objs, i - 1) + objs[i - 1].tracks
Kept(objs, threshold, dolby) ==
  LET keep(i) == /\ objs[i].importance >= threshold
                 /\ objs[i].pack = (IF dolby THEN "none" ELSE IF objs[i].pack = "none" THEN "none" ELSE "known")
      RECURSIVE K(_)
      K(i) == IF i > Len(objs) THEN << >>
              ELSE (IF keep(i) THEN <<[id |-> objs[i].id, first |-> TracksBefore(objs, i), tracks |-> objs[i].tracks]>> ELSE << >>) \o K(i + 1)
  IN K(1)

\* Tracks first .. first+n-1 of interleaved samples of k bytes in c channels.
Tracks(d, k, c, first, n) ==
  LET frames == Len(d) \div (k * c) IN
  [i \in 1..(frames * n * k) |->
     LET byte == (i - 1) % k  trk == ((i - 1) \div k) % n  fr == (i - 1) \div (k * n) IN
     d[(fr * c + first + trk) * k + byte + 1]]

(* One file per object that is kept. *)
Splice(b, r, kept) ==
  LET bad == [ok |-> FALSE, files |-> << >>]  k == r.fmt.bits \div 8  c == r.fmt.channels IN
  IF ~Has(r.chunks, Data) \/ kept = << >> THEN bad
  ELSE IF ~Inside(b, r.chunks[Data]) THEN bad
  ELSE LET d == Bytes(b, r.chunks[Data]) IN
       IF Len(d) % (k * c) # 0 \/ \E i \in 1..Len(kept) : kept[i].first + kept[i].tracks > c THEN bad
       ELSE [ok |-> TRUE,
             files |-> [i \in 1..Len(kept) |-> [channels |-> kept[i].tracks, pcm |-> Tracks(d, k, c, kept[i].first, kept[i].tracks)]]]
=============================================================================
