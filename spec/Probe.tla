-------------------------------- MODULE Probe --------------------------------
(* What a probe says of the first n bytes of a bitstream: its descriptors, and
   what a walk over the rest counts. The bitstream is cut into OBUs once; the
   descriptors are those of Descriptors.tla, their contents those of
   DescriptorBytes.tla and the blocks those of Blocks.tla. *)
EXTENDS DescriptorBytes
WD == INSTANCE Wide WITH LB <- 65536
W == INSTANCE Descriptors
Y == INSTANCE Layers
(* --- a bitstream as OBUs. An entry: t, at, need (the size can be read), end, ok (a legal header), h, a payload. The last one is not whole. --- *)
Nowhere == 1000000000
NeedOf(d, at) == LET k == SelectSeq([i \in 1..10 |-> i], LAMBDA i : at + i <= Len(d) /\ Peek(SubSeq(d, at + 1, at + i), 0).st # "EXHAUSTED") IN IF k = << >> THEN Nowhere ELSE at + k[1]
OneObu(d, at) ==
  LET need == NeedOf(d, at)
      pk == IF need = Nowhere THEN Fail("EXHAUSTED") ELSE Peek(SubSeq(d, at + 1, need), 0)
      whole == pk.st = "OK" /\ IsSmall(pk.r.total) /\ at + Small(pk.r.total) <= Len(d)
      end == IF whole THEN at + Small(pk.r.total) ELSE Nowhere
      hd == IF whole THEN RHeader(SubSeq(d, at + 1, end), 0) ELSE Fail("INVALID")
      ok == hd.st = "OK"
      pay == IF ok THEN SubSeq(d, at + (hd.p \div 8) + 1, at + (hd.p \div 8) + hd.r.n) ELSE << >>
  IN [t |-> IF pk.st = "OK" THEN pk.r.type ELSE -1, at |-> at, need |-> need, end |-> end, size |-> pk.st = "OK", ok |-> ok, h |-> IF ok THEN hd.r.h ELSE << >>, pay |-> pay]
NextObu(d, z) == IF ~z.go THEN z ELSE LET o == TLCEval(OneObu(d, z.at)) IN [go |-> o.end # Nowhere, at |-> o.end, acc |-> Append(z.acc, o)]
Cut(d) == FoldLeft(LAMBDA z, k : TLCEval(NextObu(d, z)), [go |-> TRUE, at |-> 0, acc |-> << >>], [k \in 1..(Len(d) \div 2 + 1) |-> k]).acc

(* --- descriptors --- *)
KindOf(t) == CASE t = 31 -> "seq" [] t = 0 -> "codec" [] t = 1 -> "element" [] t = 2 -> "mix" [] OTHER -> ""
AsLayer(l) == [layout |-> l.lay, x |-> l.ex, subs |-> l.sc, pairs |-> l.cc, g |-> B2N(l.og), flags |-> l.of, value |-> l.gain]
Sensible(x) == CASE x.type = 0 -> Y!OfChannels(x.subs, [i \in 1..Len(x.cfg.layers) |-> AsLayer(x.cfg.layers[i])]).ok
                 [] x.type = 1 -> IF x.cfg.mode = 0 THEN Y!OfMono(x.subs, x.cfg.sub, x.cfg.map).ok ELSE Y!OfProjection(x.subs, x.cfg.ch, x.cfg.sub, x.cfg.coup).ok
                 [] OTHER -> TRUE
\* an OBU as Descriptors.tla knows it; tag: its contents
AsDescriptor(o) ==
  LET base == [at |-> o.at, need |-> o.need, end |-> o.end, r |-> o.ok /\ o.h.red, ok |-> FALSE, id |-> Zero, k |-> "skip"]
      k == KindOf(o.t)
  IN IF ~o.size THEN [base EXCEPT !.k = "bad", !.end = o.need]
     ELSE IF TemporalUnitType(o.t) THEN [base EXCEPT !.k = "tu"]
     ELSE IF ~o.ok THEN [base EXCEPT !.k = "bad"]
     ELSE IF k = "" THEN base
     ELSE LET r == TLCEval(Read(k, o.pay, Len(o.pay), o.h.flag)) ok == r.st = "OK" IN
          CASE k = "seq" -> [p |-> IF ok THEN r.r.x.pp ELSE -1, a |-> IF ok THEN r.r.x.ap ELSE -1] @@ [base EXCEPT !.k = "hdr", !.ok = ok]
            [] k = "codec" -> [tag |-> IF ok THEN r.r.x ELSE << >>] @@ [base EXCEPT !.k = "cc", !.ok = ok, !.id = IF ok THEN r.r.x.id ELSE Zero]
            [] k = "element" -> IF ok /\ Sensible(r.r.x) THEN [tag |-> r.r.x, ref |-> r.r.x.cc] @@ [base EXCEPT !.k = "ae", !.ok = TRUE, !.id = r.r.x.id]
                                ELSE [tag |-> << >>, ref |-> Zero] @@ [base EXCEPT !.k = "ae"]
            [] OTHER -> [tag |-> IF ok THEN r.r.x ELSE << >>, refs |-> IF ok THEN Ids(r.r.x) ELSE << >>] @@ [base EXCEPT !.k = "mix", !.ok = ok, !.id = IF ok THEN r.r.x.id ELSE Zero]
\* only the OBUs before the temporal units are looked into
Leading(tab) == LET f == SelectSeq([i \in 1..Len(tab) |-> i], LAMBDA i : TemporalUnitType(tab[i].t)) IN IF f = << >> THEN Len(tab) ELSE f[1]
Heads(tab) == [i \in 1..Leading(tab) |-> AsDescriptor(tab[i])]
Walk(heads, n) == W!Parse(heads, n, FALSE)

(* --- names --- *)
Or(names, v, other) == IF v < Len(names) THEN names[v + 1] ELSE other
Num(s, v) == s \o "(" \o ToString(v) \o ")"
Profile(v) == IF v = 255 THEN "reserved_255" ELSE Or(<<"simple", "base", "base_enhanced", "base_advanced", "advanced1", "advanced2">>, v, Num("unknown", v))
CodecName(c) == CASE c = Opus -> "Opus" [] c = Flac -> "FLAC" [] c = Lpcm -> "LPCM" [] OTHER -> "AAC LC"
FlacName(t) == IF t = 127 THEN "Invalid" ELSE Or(<<"StreamInfo", "Padding", "Application", "Seektable", "VorbisComment", "Cuesheet", "Picture">>, t, Num("reserved", t))
TypeName(t) == Or(<<"channel_based", "scene_based", "object_based">>, t, Num("reserved", t))
LayoutName(v) == IF v = 15 THEN "Expanded" ELSE Or(<<"Mono", "Stereo", "5.1", "5.1.2", "5.1.4", "7.1", "7.1.2", "7.1.4", "3.1.2", "Binaural">>, v, Num("reserved", v))
MoreName(v) == Or(<<"LFE", "StereoS", "StereoSS", "StereoRS", "StereoTF", "StereoTB", "Top4Ch", "3.0", "9.1.6", "StereoF", "StereoSi", "StereoTpSi", "Top6Ch", "10.2.9.3", "LfePair", "Bottom3Ch",
                    "7.1.5.4", "Bottom4Ch", "Top1Ch", "Top5Ch">>, v, Num("reserved", v))
SystemName(v) == Or(<<"Stereo", "5.1", "5.1.2", "5.1.4", "5+4+1", "3+7+0", "9.1.4", "22.2", "7.1", "7.1.4", "7.1.2", "3.1.2", "Mono", "9.1.6", "7.1.5.4">>, v, Num("reserved", v))
OutName(t) == <<"reserved_0", "reserved_1", "loudspeakers_ss_convention", "binaural">>[t + 1]
ParamNames == <<"mix_gain", "demixing", "recon_gain", "polar", "cart8", "cart16", "dual_polar", "dual_cart8", "dual_cart16">>
ParamName(t) == IF t[1] = 0 /\ t[2] < 9 THEN ParamNames[t[2] + 1] ELSE Num("reserved", IF t[1] >= 32768 THEN (t[1] - 65536) * 65536 + t[2] ELSE t[1] * 65536 + t[2])
AacRate(i) == IF i < 13 THEN ToString(AacRates[i + 1]) ELSE Num("reserved", i)
Q8(v) == v  \* a gain in 1/256 dB, logged as such

(* --- the report on the descriptors --- *)
MinOf(q) == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : Leq2(q[i].id, q[j].id)
RECURSIVE Sorted(_)
Sorted(q) == IF q = << >> THEN << >> ELSE LET i == MinOf(q) IN <<q[i]>> \o Sorted(SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)))
Nums(i) == IF i.t = 0 THEN <<FlacName(0), 0, TRUE, i.info.min, i.info.max, i.info.minf, i.info.maxf, i.info.rate, i.info.ch, i.info.bps, i.info.total>>
           ELSE <<FlacName(i.t), i.t, FALSE, 0, 0, 0, 0, 0, 0, 0, <<0, 0, 0>>>>
CodecSays(x) == LET c == x.cfg is(k, v) == IF x.codec = k THEN <<v>> ELSE << >> IN
  <<x.id, CodecName(x.codec), x.codec, x.frame, x.roll, OutRate(x), InRate(x), Bits(x, 16),
    IF x.codec = Opus THEN <<<<c.version, c.ch, c.skip, c.rate, c.gain, Q8(c.gain), c.map>>>> ELSE << >>,
    IF x.codec = Lpcm THEN <<<<IF c.flags % 2 = 1 THEN "little_endian" ELSE "big_endian", c.flags, c.size, c.rate>>>> ELSE << >>,
    IF x.codec = Aac THEN <<<<c.obj, c.st, c.up, c.res, c.size24, c.max, c.avg, c.aot, AacRate(c.sfi), c.sfi, c.chan>>>> ELSE << >>,
    IF x.codec = Flac THEN <<[i \in 1..Len(c) |-> Nums(c[i])]>> ELSE << >>>>
Timing(d) == IF d.sch = << >> THEN <<1, Zero, Zero>> ELSE <<0, d.sch[1].dur, d.sch[1].const>>
ParamSays(p) == <<ParamName(p.t), p.t, p.d.id, p.d.rate>> \o Timing(p.d)
LayerSays(l) == <<LayoutName(l.lay), l.lay, IF l.lay = 15 THEN <<MoreName(l.ex)>> ELSE << >>, IF l.lay = 15 THEN <<l.ex>> ELSE << >>, l.og, l.rg, l.sc, l.cc, l.of, l.gain, Q8(l.gain)>>
Order(ch) == IF ch > 0 /\ \E k \in 0..15 : (k + 1) * (k + 1) = ch THEN <<CHOOSE k \in 0..15 : (k + 1) * (k + 1) = ch>> ELSE << >>
AmbiSays(c) == <<IF c.mode = 0 THEN "mono" ELSE "projection", c.mode, IF c.mode = 0 THEN <<<<c.ch, c.sub, c.map>>>> ELSE << >>,
                 IF c.mode = 1 THEN <<<<c.ch, c.sub, c.coup, c.mat>>>> ELSE << >>, Order(c.ch)>>
Channels(q) == FoldLeft(LAMBDA a, l : a + l.sc + l.cc, 0, q)
ElementSays(x) == LET c == x.cfg top == IF x.type = 0 THEN Last(c.layers) ELSE << >> IN
  <<x.id, TypeName(x.type), x.type, x.cc, Pair(Len(x.subs)), x.subs, [i \in 1..Len(x.params) |-> ParamSays(x.params[i])],
    IF x.type = 0 THEN [i \in 1..Len(c.layers) |-> LayerSays(c.layers[i])] ELSE << >>,
    IF x.type = 1 THEN <<AmbiSays(c)>> ELSE << >>,
    IF x.type = 0 THEN <<LayoutName(top.lay)>> ELSE << >>, IF x.type = 0 THEN <<top.lay>> ELSE << >>, IF x.type = 0 /\ top.lay = 15 THEN <<top.ex>> ELSE << >>,
    IF x.type = 1 THEN Order(c.ch) ELSE << >>, IF x.type = 1 THEN <<c.ch>> ELSE << >>,
    CASE x.type = 0 -> <<Channels(c.layers)>> [] x.type = 1 -> <<c.ch>> [] OTHER -> << >>>>
GainSays(d) == <<d.id, d.rate>> \o Timing(d) \o <<d.vals[1], Q8(d.vals[1])>>
ElSays(e) == <<e.id, e.anns, <<"stereo", "binaural_world_locked", "binaural_head_locked", "reserved_3">>[e.rc.mode + 1], e.rc.mode,
               <<"ambient", "direct", "reverberant", "reserved_3">>[e.rc.prof + 1], e.rc.prof, GainSays(e.gain)>>
AnchorSays(a) == <<Or(<<"unknown", "dialogue", "album">>, a[1], Num("reserved", a[1])), a[1], a[2], Q8(a[2])>>
OutSays(y) == <<OutName(y.t), y.t, IF y.t = 2 THEN <<SystemName(y.ss)>> ELSE << >>, IF y.t = 2 THEN <<y.ss>> ELSE << >>, y.info, Bit(y.info, 0), Bit(y.info, 1), y.info >= 4,
                Q8(y.il), Q8(y.dp), IF Bit(y.info, 0) THEN <<Q8(y.tp)>> ELSE << >>, [i \in 1..Len(y.anch) |-> AnchorSays(y.anch[i])]>>
SubSays(m) == <<[i \in 1..Len(m.els) |-> ElSays(m.els[i])], GainSays(m.out), [i \in 1..Len(m.layouts) |-> OutSays(m.layouts[i])]>>
MixSays(x) == LET one == x.subs[1] y == one.layouts[1] some == one.layouts # << >> IN
  <<x.id, x.count, [i \in 1..Len(x.langs) |-> <<x.langs[i], x.anns[i]>>], Pair(Len(x.subs)), [i \in 1..Len(x.subs) |-> SubSays(x.subs[i])],
    IF x.tags = << >> THEN << >> ELSE x.tags[1], [i \in 1..Len(one.layouts) |-> LET z == one.layouts[i] IN IF z.t = 2 THEN SystemName(z.ss) ELSE OutName(z.t)],
    IF some THEN <<Q8(y.il)>> ELSE << >>, IF some THEN <<Q8(y.dp)>> ELSE << >>, IF some /\ Bit(y.info, 0) THEN <<Q8(y.tp)>> ELSE << >>>>
\* the first FLAC config that knows how long it is
Knows(x) == x.codec = Flac /\ \E i \in 1..Len(x.cfg) : x.cfg[i].t = 0 /\ x.cfg[i].info.total # <<0, 0, 0>>
InfoOf(x) == LET q == SelectSeq(x.cfg, LAMBDA b : b.t = 0 /\ b.info.total # <<0, 0, 0>>) IN q[1].info
Says(d, end) ==
  LET cc == Sorted(d.cc) ae == Sorted(d.ae) know == SelectSeq(cc, LAMBDA c : Knows(c.tag)) IN
  [pp |-> Profile(d.h[1].p), ppr |-> d.h[1].p, ap |-> Profile(d.h[1].a), apr |-> d.h[1].a, end |-> end,
   cc |-> [i \in 1..Len(cc) |-> CodecSays(cc[i].tag)], ae |-> [i \in 1..Len(ae) |-> ElementSays(ae[i].tag)], mix |-> [i \in 1..Len(d.mix) |-> MixSays(d.mix[i].tag)],
   total |-> IF know = << >> THEN << >> ELSE <<InfoOf(know[1].tag).total>>, rate |-> IF know = << >> THEN 0 ELSE InfoOf(know[1].tag).rate]
\* seconds of v samples (bits, most significant first), in whole and 1/10000: within one of them
Half2(v, r) == FoldLeft(LAMBDA z, b : LET x == 2 * z.r + b IN IF x >= r THEN [q |-> IF z.q > 500000000 THEN z.q ELSE 2 * z.q + 1, r |-> x - r] ELSE [q |-> IF z.q > 500000000 THEN z.q ELSE 2 * z.q, r |-> x], [q |-> 0, r |-> 0], v)
BitsOf(limbs) == SeqCat([i \in 1..Len(limbs) |-> ToBits(limbs[i], 16)])
SecondsOk(limbs, r, got) ==   \* limbs: most significant first
  LET z == Half2(BitsOf(limbs), r)
      p == FoldLeft(LAMBDA a, k : LET x == a.r * 10 IN [q |-> a.q * 10 + x \div r, r |-> x % r], [q |-> 0, r |-> z.r], <<1, 2, 3, 4>>).q
  IN \/ r >= 200000000
     \/ got[1] = z.q /\ got[2] \in (p - 1)..(p + 1)
     \/ got[1] = z.q + 1 /\ p = 9999 /\ got[2] = 0
     \/ got[1] = z.q - 1 /\ p = 0 /\ got[2] = 9999

(* --- the walk over the rest --- *)
\* parameter definitions by id; vague: two of them disagree
ReconLayers(x) == [i \in 1..Len(x.cfg.layers) |-> x.cfg.layers[i].rg]
OfElement(x) == LET q == SelectSeq(x.params, LAMBDA p : p.t \in {<<0, 1>>, <<0, 2>>}) IN
  [i \in 1..Len(q) |-> [t |-> q[i].t, on |-> x.type, d |-> ("layers" :> IF q[i].t = <<0, 2>> /\ x.type = 0 THEN ReconLayers(x) ELSE << >>) @@ q[i].d]]
Plain2(d) == ("layers" :> << >>) @@ d
OfEl(e) == [i \in 1..Len(e.rc.params) |-> [t |-> e.rc.params[i].t, on |-> 0, d |-> Plain2(e.rc.params[i].d)]] \o <<[t |-> <<0, 0>>, on |-> 0, d |-> Plain2(e.gain)]>>
OfMix(x) == SeqCat([i \in 1..Len(x.subs) |-> SeqCat([j \in 1..Len(x.subs[i].els) |-> OfEl(x.subs[i].els[j])]) \o <<[t |-> <<0, 0>>, on |-> 0, d |-> Plain2(x.subs[i].out)]>>])
Definitions(d) == SeqCat([i \in 1..Len(d.ae) |-> OfElement(d.ae[i].tag)]) \o SeqCat([i \in 1..Len(d.mix) |-> OfMix(d.mix[i].tag)])
\* the codec config of every substream
Owners(d) == SeqCat([i \in 1..Len(d.ae) |-> [j \in 1..Len(d.ae[i].tag.subs) |-> [id |-> d.ae[i].tag.subs[j], cc |-> d.ae[i].cc]]])
Vague(d, defs) == \/ \E i, j \in 1..Len(defs) : defs[i].d.id = defs[j].d.id /\ (defs[i].t # defs[j].t \/ defs[i].d # defs[j].d)
                  \/ \E i \in 1..Len(defs) : defs[i].t = <<0, 2>> /\ defs[i].on # 0
                  \/ LET q == Owners(d) IN \E i, j \in 1..Len(q) : i < j /\ q[i].id = q[j].id /\ q[i].cc.id # q[j].cc.id
Limb(v) == <<v % 65536, v \div 65536, 0, 0>>
LimbP(p) == <<p[2], p[1], 0, 0>>
Start0 == [go |-> TRUE, why |-> "", pos |-> 0, k |-> 0, calls |-> << >>, fin |-> 0, pend |-> << >>, next |-> -1, by |-> << >>, list |-> << >>, ptime |-> << >>,
           frames |-> 0, blocks |-> 0, delims |-> 0, badf |-> 0, badb |-> 0, units |-> << >>, cum |-> 0]
Fresh(at) == [at |-> at, num |-> 0, ts |-> Zero, te |-> Zero, seen |-> {}]
Note(s, at) == IF s.pend = << >> THEN [s EXCEPT !.pend = <<Fresh(at)>>] ELSE s
Close(s) == IF s.pend = << >> \/ s.pend[1].seen = {} THEN [s EXCEPT !.pend = << >>]
            ELSE LET p == s.pend[1] IN
                 [s EXCEPT !.pend = << >>, !.fin = @ + 1, !.cum = @ + p.num, !.units = Append(@, <<Limb(s.cum), Limb(p.num), p.at, p.ts, p.te>>)]
RECURSIVE AddTo(_, _, _, _)
AddTo(by, id, cc, n) ==
  IF by = << >> THEN <<[id |-> id, cc |-> cc, n |-> 1, total |-> n]>>
  ELSE IF by[1].id = id THEN <<[by[1] EXCEPT !.n = @ + 1, !.total = @ + n]>> \o Tail(by)
  ELSE IF Leq2(by[1].id, id) THEN <<by[1]>> \o AddTo(Tail(by), id, cc, n)
  ELSE <<[id |-> id, cc |-> cc, n |-> 1, total |-> n]>> \o by
FrameId(o) == IF o.t = 5 THEN Run(o.pay, Start(0), <<<<"id", "leb", 0>>>>, -1) ELSE Set(Start(0), "id", <<0, o.t - 6>>)
\* a unit starts where what belongs to it starts: a delimiter, or a block after the frames of the unit before, or its first frame
OnFrame(s, o, at, x) ==
  LET a == FrameId(o) IN
  IF a.st # "OK" THEN [s EXCEPT !.badf = @ + 1]
  ELSE LET id == a.r.id
           again == s.pend # << >> /\ id \in s.pend[1].seen
           from == IF again /\ s.next >= 0 THEN s.next ELSE at
           b == Note(IF again THEN Close(s) ELSE s, from)
           own == SelectSeq(x.owners, LAMBDA q : q.id = id)
           n == IF own = << >> THEN 0 ELSE Small(own[1].cc.frame)
           p == b.pend[1]
           p1 == IF p.seen = {} THEN [p EXCEPT !.ts = o.h.ts, !.te = o.h.te] ELSE p
           p2 == [p1 EXCEPT !.seen = @ \cup {id}, !.num = IF n > @ THEN n ELSE @]
       IN [b EXCEPT !.pend = <<p2>>, !.next = -1, !.frames = @ + 1, !.by = AddTo(@, id, IF own = << >> THEN Zero ELSE own[1].cc.id, n)]
Data(x, v) ==
  LET g == IF x.kind = "gain" THEN LET q == v.v t == v.t IN
             <<<<<<"step", "linear", "bezier">>[t + 1], <<0, t>>, q[1], Q8(q[1]), IF t > 0 THEN <<q[2]>> ELSE << >>, IF t > 0 THEN <<Q8(q[2])>> ELSE << >>,
                 IF t = 2 THEN <<q[3]>> ELSE << >>, IF t = 2 THEN <<Q8(q[3])>> ELSE << >>, IF t = 2 THEN <<q[4]>> ELSE << >>>>>> ELSE << >>
      m == IF x.kind = "demix" THEN <<<<<<"mode1", "mode2", "mode3", "reserved_1", "mode1_n", "mode2_n", "mode3_n", "reserved_2">>[v[1] + 1], v[1], v[2]>>>> ELSE << >>
      lay == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : v[i] # << >>)
      r == IF x.kind = "recon" THEN <<[k \in 1..Len(lay) |-> LET y == v[lay[k]][1] IN <<lay[k] - 1, y.f, SelectSeq([i \in 1..12 |-> IF FlagBit(y.f, i) THEN y.g[i] ELSE -1], LAMBDA z : z >= 0)>>]>> ELSE << >>
  IN <<g, m, r>>
BlockSays(x, t, r, from) ==
  LET s == r.r.sch[1] to == WD!AddM(from, LimbP(s.dur)).m IN
  <<x.id, ParamName(t), t, from, to, s.dur, s.const, [i \in 1..Count(s) |-> <<Long(s, i)>> \o Data(x, r.r.data[i])]>>
OnBlock(s, o, at, x) ==
  LET a == Run(o.pay, Start(0), <<<<"id", "leb", 0>>>>, -1) IN
  IF a.st # "OK" THEN [s EXCEPT !.badb = @ + 1]
  ELSE LET b == IF s.pend # << >> /\ s.pend[1].seen # {} THEN [s EXCEPT !.next = IF @ < 0 THEN at ELSE @] ELSE Note(s, at)
           def == SelectSeq(x.defs, LAMBDA q : q.d.id = a.r.id)
       IN IF def = << >> THEN [b EXCEPT !.badb = @ + 1]
          ELSE IF ~x.full THEN [b EXCEPT !.blocks = @ + 1]
          ELSE LET r == RBlock(def[1].d, o.pay, Len(o.pay)) IN
               IF r.st # "OK" THEN [b EXCEPT !.badb = @ + 1]
               ELSE LET old == SelectSeq(s.ptime, LAMBDA z : z.id = a.r.id)
                        from == IF old = << >> THEN <<0, 0, 0, 0>> ELSE old[1].at
                        y == BlockSays(def[1].d, def[1].t, r, from)
                    IN [b EXCEPT !.blocks = @ + 1, !.list = Append(@, y), !.ptime = <<[id |-> a.r.id, at |-> y[5]]>> \o SelectSeq(@, LAMBDA z : z.id # a.r.id)]
Halt(s, why) == [s EXCEPT !.go = FALSE, !.why = why]
Visit(s, o, n, from, x) ==
  IF ~s.go THEN s
  ELSE LET k == s.k + 1 call == <<o.at - from, s.fin>> s1 == [s EXCEPT !.k = k, !.pos = o.at - from] at == o.at - from IN
    IF x.budget >= 0 /\ k > x.budget THEN Halt(s1, "scan_budget_exceeded")
    ELSE LET s2 == IF x.watch THEN [s1 EXCEPT !.calls = Append(@, call)] ELSE s1 IN
      IF x.watch /\ x.cancel >= 0 /\ k = x.cancel + 1 THEN Halt(s2, "cancelled")
      ELSE IF n < o.need THEN Halt(s2, IF n = o.at THEN "eof" ELSE "truncated")
      ELSE IF ~o.size THEN Halt(s2, "malformed")
      ELSE IF n < o.end THEN Halt(s2, "truncated")
      ELSE IF ~o.ok THEN s2
      ELSE IF IsFrame(o.t) THEN OnFrame(s2, o, at, x)
      ELSE IF o.t = 3 THEN OnBlock(s2, o, at, x)
      ELSE IF o.t = 4 THEN LET b == Note(Close(s2), at) IN [b EXCEPT !.delims = @ + 1, !.next = -1]
      ELSE IF o.t = 31 /\ ~o.h.red THEN Halt(s2, "next_ia_sequence")
      ELSE s2
\* x: owners, defs, full, budget, watch, cancel
Scan(tab, n, from, x) ==
  LET q == SelectSeq(tab, LAMBDA o : o.at >= from)
      s == Close(FoldLeft(LAMBDA a, o : TLCEval(Visit(a, o, n, from, x)), Start0, q))
      most == FoldLeft(LAMBDA a, b : IF b.n > a THEN b.n ELSE a, 0, s.by)
      long == FoldLeft(LAMBDA a, b : IF b.total > a.total THEN b ELSE a, [total |-> 0, id |-> Zero], s.by)
  IN [tus |-> IF most > s.delims THEN most ELSE s.delims, frames |-> s.frames, blocks |-> s.blocks, delims |-> s.delims, badf |-> s.badf, badb |-> s.badb,
      by |-> [i \in 1..Len(s.by) |-> <<s.by[i].id, s.by[i].cc, s.by[i].n, Limb(s.by[i].total)>>], list |-> s.list, units |-> IF x.full THEN s.units ELSE << >>,
      total |-> long.total, rate |-> IF long.total = 0 THEN << >> ELSE <<OutRate(SelectSeq(x.owners, LAMBDA w : w.id = long.id)[1].cc)>>,
      end |-> s.pos, why |-> s.why, calls |-> s.calls]
=============================================================================
