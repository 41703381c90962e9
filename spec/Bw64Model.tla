------------------------------ MODULE Bw64Model ------------------------------
(* Every small file of a writer that appends chunks, and every cut of it: what
   is read is what was written, or the file is refused. *)
EXTENDS Bw64
CONSTANTS MaxChunks
VARIABLES written, cut
vars == <<written, cut>>
FmtBody == <<1, 0, 2, 0, 1, 0, 0, 0, 4, 0, 0, 0, 4, 0, 16, 0>>
Bodies == [n \in {Fmt4, Axml, Data} |-> CASE n = Fmt4 -> {FmtBody} [] n = Axml -> {<<60>>, <<60, 62>>} [] n = Data -> {<<1, 2, 3, 4>>, <<1, 2, 3>>}]
Chunk(n, x) == n \o <<Len(x), 0, 0, 0>> \o x \o (IF Len(x) % 2 = 1 THEN <<0>> ELSE << >>)
RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN << >> ELSE Chunk(s[1].n, s[1].x) \o Cat(Tail(s))
File == Riff \o <<0, 0, 0, 0>> \o Wave \o Cat(written)
Cut == SubSeq(File, 1, Len(File) - cut)
Init == written = << >> /\ cut = 0
Next == \/ /\ cut = 0 /\ Len(written) < MaxChunks
           /\ \E n \in DOMAIN Bodies : \E x \in Bodies[n] : written' = Append(written, [n |-> n, x |-> x])
           /\ UNCHANGED cut
        \/ cut < Len(File) /\ cut' = cut + 1 /\ UNCHANGED written
Spec == Init /\ [][Next]_vars
Doc(x) == IF x = <<60, 62>> THEN <<"doc">> ELSE << >>
Last(n) == LET S == {i \in 1..Len(written) : written[i].n = n} IN written[CHOOSE i \in S : \A j \in S : j <= i].x
Named == {written[i].n : i \in 1..Len(written)}
R == ReadFile(Cut, Doc)
WholeTable == cut = 0 => /\ DOMAIN Chunks(Cut) = Named
                         /\ \A n \in Named : Bytes(Cut, Chunks(Cut)[n]) = Last(n)
Accept == cut = 0 => R.ok = (Fmt4 \in Named /\ Axml \in Named /\ Last(Axml) = <<60, 62>>)
Same == R.ok => R.fmt = FmtAt(FmtBody, 0) /\ R.doc = "doc"
\* audio that is spliced was written: no cut or uneven data is passed on
NoInvention == R.ok => LET kept == <<[id |-> "o", first |-> 1, tracks |-> 1]>>
                           s == Splice(Cut, R, kept) IN
                       s.ok => s.files[1].pcm = <<3, 4>>
=============================================================================
