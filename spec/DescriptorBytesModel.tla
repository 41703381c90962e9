------------------------ MODULE DescriptorBytesModel ------------------------
(* Small descriptors of every kind, every way of writing numbers: what can be
   written is read back the same, nothing shorter can be read, and nothing
   after it matters. *)
EXTENDS DescriptorBytes
CONSTANTS Numbers, Modes, Wide
VARIABLES k, x, flag, mode, part, ready
vars == <<k, x, flag, mode, part, ready>>
Id == {Pair(i) : i \in Numbers}
Seqs == {[pp |-> p, ap |-> a] : p \in {0, 2, 5, 6}, a \in {0, 5, 255}}
Stream(rate, ch, tot) == [min |-> 1024, max |-> 1024, minf |-> 0, maxf |-> 0, rate |-> rate, ch |-> ch, bps |-> 23, total |-> tot, md5 |-> NoMd5]
Configs == {<<Lpcm, [flags |-> f, size |-> z, rate |-> Pair(48000)]>> : f \in 0..2, z \in {16, 24, 32, 20}}
           \cup {<<Opus, [version |-> v, ch |-> 2, skip |-> 312, rate |-> <<65535, 65535>>, gain |-> g, map |-> 0]>> : v \in {0, 1, 15}, g \in {0, -1}}
           \cup {<<Aac, [tag |-> 4, obj |-> 64, st |-> 5, up |-> 0, res |-> r, size24 |-> 16777215, max |-> <<1, 2>>, avg |-> <<65535, 0>>, itag |-> 5, aot |-> 2, sfi |-> f, chan |-> 2,
                         ga |-> 0, iext |-> i, ext |-> e]>> : r \in {0, 1}, f \in {0, 12, 13}, i \in {<< >>, <<9, 8>>}, e \in {<< >>, <<7>>}}
           \cup {<<Flac, q>> : q \in {<<[t |-> 0, other |-> FALSE, info |-> Stream(r, c, t)]>> \o more : r \in {8000, 8001}, c \in {1, 0}, t \in {<<0, 0, 0>>, <<15, 65535, 65535>>, <<16, 0, 0>>},
                                     more \in {<< >>, <<[t |-> 127, other |-> FALSE, bytes |-> <<1>>]>>}}}
Codecs == {[id |-> i, codec |-> c[1], frame |-> f, roll |-> RollOf(c[1], f) + e, cfg |-> c[2]] : i \in Id, c \in Configs, f \in {Pair(1024)}, e \in {0, 1}}
Def(kind, id, sch, vals) == [kind |-> kind, id |-> id, rate |-> Pair(48000), res |-> 0, sch |-> sch, vals |-> vals, bytes |-> << >>]
Lasts == [dur |-> Pair(8), const |-> Pair(8), list |-> << >>]
Demix(i) == [t |-> <<0, 1>>, d |-> Def("demix", i, <<Lasts>>, <<2, 0, 10, 0>>)]
Recon(i) == [t |-> <<0, 2>>, d |-> Def("recon", i, <<Lasts>>, << >>)]
Ext(t) == [t |-> t, d |-> [kind |-> "ext", id |-> Zero, rate |-> Zero, res |-> 0, sch |-> << >>, vals |-> << >>, bytes |-> <<5, 6>>]]
Layer(lay, og, sc) == [lay |-> lay, og |-> og, rg |-> ~og, ra |-> 1, sc |-> sc, cc |-> 0, of |-> IF og THEN 63 ELSE 0, rb |-> 0, gain |-> IF og THEN -2 ELSE 0, ex |-> IF lay = 15 THEN 13 ELSE -1]
El(id, type, subs, params, cfg) == [id |-> id, type |-> type, res |-> 3, cc |-> Pair(200), subs |-> subs, params |-> params, cfg |-> cfg]
Params == {<< >>, <<Demix(Pair(3))>>, <<Recon(Pair(3)), Ext(<<9, 9>>)>>, <<Ext(Zero)>>, <<Demix(Pair(3)), Demix(Pair(4))>>}
Layers == UNION {[1..n -> {Layer(lay, og, sc) : lay \in {0, 9, 15}, og \in BOOLEAN, sc \in {1, 2}}] : n \in 1..Wide} \cup {[i \in 1..n |-> Layer(0, FALSE, 1)] : n \in {0, 6, 7}}
Ids1(n) == [i \in 1..n |-> Pair(100 * i)]
Elements == {El(i, 0, Ids1(SumSub(q) + e), p, [res |-> 0, layers |-> q]) : i \in Id, p \in Params, q \in Layers, e \in {0, 1}}
            \cup {El(Zero, 1, Ids1(2), p, [mode |-> 0, ch |-> 4, sub |-> 2, coup |-> 0, map |-> m, mat |-> << >>]) : p \in Params, m \in {<<0, 1, 255, 255>>, <<1, 1, 0, 255>>}}
            \cup {El(Zero, 1, Ids1(1), p, [mode |-> 1, ch |-> 1, sub |-> 1, coup |-> c, map |-> << >>, mat |-> [i \in 1..(1 + c) |-> -i]]) : p \in {<< >>}, c \in {0}}
            \cup {El(i, 2, Ids1(1), << >>, [n |-> n, bytes |-> b]) : i \in Id, n \in {1, 2}, b \in {<< >>, <<4, 5>>}}
            \cup {El(i, 5, Ids1(n), p, [bytes |-> b]) : i \in Id, n \in 0..2, p \in Params, b \in {<< >>, <<4, 5>>}}
Gain(i) == Def("gain", i, << >>, <<-300>>)
Scheduled(i) == Def("gain", i, <<[dur |-> Pair(5), const |-> Zero, list |-> <<Pair(2), Pair(3)>>]>>, <<1>>)
Renders == {[mode |-> m, prof |-> 1, res |-> r, params |-> p, off |-> o, ext |-> e] : m \in {2}, r \in {0, 7, 8}, e \in {<< >>, <<0, 1>>},
              p \in {<< >>, <<[t |-> <<0, 3>>, d |-> Def("polar", Pair(2), << >>, <<-180, 90, 127>>)]>>},
              o \in {<< >>, <<[t |-> 0, v |-> <<-5>>, b |-> << >>]>>, <<[t |-> 1, v |-> <<2, 1, 3>>, b |-> << >>]>>, <<[t |-> 9, v |-> << >>, b |-> <<1, 2>>]>>}}
Layout(t, ss, info) == [t |-> t, ss |-> ss, res |-> 0, info |-> info, il |-> -1, dp |-> 1, tp |-> IF info % 2 = 1 THEN 9 ELSE 0,
                        anch |-> IF Bit(info, 1) THEN <<<<1, -7>>, <<2, 5>>>> ELSE << >>, ext |-> IF info >= 4 THEN <<3, 3, 3>> ELSE << >>]
Layouts == {<<Layout(2, 0, i)>> : i \in {0, 1, 2, 3, 4, 255}} \cup {<<Layout(2, 3, 0), Layout(2, 0, 0)>>, <<Layout(3, 0, 3)>>, <<Layout(2, 0, 0), Layout(0, 0, 7)>>}
Txt == {<< >>, <<101, 110>>}
Mx(i, langs, els, out, lays, tags, opt) ==
  [id |-> i, count |-> Pair(Len(langs)), langs |-> langs, anns |-> langs, subs |-> <<[els |-> els, out |-> out, layouts |-> lays]>>, tags |-> tags, opt |-> opt]
Item(i, langs, rc) == [id |-> i, anns |-> langs, rc |-> rc, gain |-> Gain(Pair(i[2] + 1))]
Langs == {<< >>, <<<<101, 110>>>>, <<<<101>>, <<102>>>>, <<<<101>>, <<101>>>>}
Tags == {<< >>, <<<< >>>>, <<<<<<<<97>>, <<98>>>>>>>>, <<<<<<Language, <<97, 98, 99>>>>>>>>, <<<<<<Language, <<97>>>>>>>>}
Opts == {<< >>, <<[size |-> <<0, 2>>, lr |-> 0, br |-> 9, rest |-> << >>]>>, <<[size |-> <<0, 3>>, lr |-> 0, br |-> 9, rest |-> <<1>>]>>, <<[size |-> <<0, 4>>, lr |-> 0, br |-> 9, rest |-> <<1>>]>>}
Base == [mode |-> 0, prof |-> 0, res |-> 0, params |-> << >>, off |-> << >>, ext |-> << >>]
Mixes == {Mx(Pair(7), g, <<Item(i, g, Base)>>, Scheduled(Pair(8)), <<Layout(2, 0, 0)>>, t, o) : i \in Id, g \in Langs, t \in Tags, o \in Opts}
         \cup {Mx(Pair(7), g, <<Item(Pair(1), g, r), Item(Pair(i), g, Base)>>, Gain(Pair(8)), y, << >>, << >>) : g \in {<< >>, <<<<101, 110>>>>}, r \in Renders, y \in Layouts, i \in {1, 2}}
Domain(j, f) == CASE j = "seq" -> (IF f THEN {} ELSE Seqs)
                  [] j = "codec" -> (IF f THEN {} ELSE Codecs)
                  [] j = "element" -> (IF f THEN {} ELSE Elements)
                  [] j = "mix" -> Mixes
Init == k \in {"seq", "codec", "element", "mix"} /\ mode \in Modes /\ flag \in BOOLEAN /\ x = << >> /\ part \in 0..3 /\ ready = FALSE
\* the parts only spread the work over TLC's workers
Part(y) == IF k = "element" THEN (Len(y.subs) + Len(y.params)) % 4 ELSE IF k = "codec" THEN y.codec[2] % 4 ELSE IF k = "mix" THEN (Len(y.langs) + Len(y.tags) + Len(y.opt) + y.subs[1].layouts[1].info) % 4 ELSE 0
Next == ~ready /\ ready' = TRUE /\ (\E y \in Domain(k, flag) : Part(y) = part /\ x' = y) /\ UNCHANGED <<k, flag, mode, part>>
Spec == Init /\ [][Next]_vars
\* the number of channels is a byte, and optional fields are only written when flagged
Same(y) == IF k = "mix" /\ ~flag THEN y = [x EXCEPT !.opt = << >>] ELSE y = x
Readable == k # "element" \/ Uniq(x.subs)
RoundTrip ==
  (ready /\ PayloadOk(k, x, flag, mode) /\ Readable) =>
    LET d == TLCEval(Payload(k, x, flag, mode)) n == Len(d) r == TLCEval(Read(k, d, n, flag)) e == d \o <<7, 0>>
        f == TLCEval(Read(k, e, n, flag)) g == TLCEval(Read(k, e, n + 2, flag)) IN
    /\ r.st = "OK" /\ Same(r.r.x) /\ r.r.footer = << >> /\ r.p = 8 * n
    /\ f.st = "OK" /\ f.r = r.r
    /\ (k = "mix" /\ x.tags = << >>) \/ (g.st = "OK" /\ Same(g.r.x) /\ g.r.footer = <<7, 0>>)
    /\ \A i \in 0..n - 1 : LET c == TLCEval(Read(k, SubSeq(d, 1, i), i, flag)) IN
         (c.st # "OK" \/ (k = "mix" /\ x.tags # << >> /\ ~flag /\ i = Len(Payload(k, [x EXCEPT !.tags = << >>], flag, mode)))) = TRUE
\* what is wrong in the object cannot be read either
Refused == ready => LET d == TLCEval(Payload(k, x, flag, 0)) IN
           (k \in {"seq", "codec"} /\ ~PayloadOk(k, x, FALSE, 0)) => (Read(k, d, Len(d), FALSE).st # "OK" \/ (k = "codec" /\ x.codec = Flac /\ x.cfg[1].info.total[1] > 15))
\* every prefix of the payload depends on nothing that follows it
ASSUME \A c \in Codecs : Derivable(c) \/ ~PayloadOk("codec", c, FALSE, 0)
ASSUME MonoOk(1, <<0>>) /\ ~MonoOk(2, <<0>>) /\ ~MonoOk(1, <<0, 0>>) /\ ~MonoOk(1, [i \in 1..256 |-> 0]) /\ MonoOk(1, [i \in 1..225 |-> 0])
=============================================================================
