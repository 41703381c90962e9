--------------------------- MODULE DescriptorBytes ---------------------------
(* The bytes of the descriptors: sequence header, codec config, audio element
   and mix presentation. For each, W gives the bytes of an object, WOk whether
   it can be written at all, and R reads n bytes at the start of d. *)
EXTENDS Blocks
U8(v) == v \in 0..255
B16(v) == LET u == IF v < 0 THEN v + 65536 ELSE v IN <<u \div 256, u % 256>>
Out32(v) == B16(v[1]) \o B16(v[2])
Uniq(q) == \A i, j \in 1..Len(q) : (i < j => q[i] # q[j]) = TRUE
Count8(p) == Small(p)
\* is a number of things, each of at least one byte, plausible for what is left ?
Room(d, s, n) == IsSmall(n) /\ Small(n) <= Left(d, s) \div 8

(* --- sequence header: pp, ap --- *)
Code == <<26977, 28006>>
SeqOk(x) == x.pp \in 0..5 /\ U8(x.ap)
WSeq(x) == Out32(Code) \o <<x.pp, x.ap>>
RSeq(d) == Bind(Run(d, Start(0), <<<<"code", "u32", 0>>, <<"pp", "u", 8>>, <<"ap", "u", 8>>>>, -1),
                LAMBDA s : Need(Set(s, "x", [pp |-> s.r.pp, ap |-> s.r.ap]), s.r.code = Code /\ s.r.pp <= 5))

(* --- codec config: id, codec, frame, roll, cfg --- *)
Opus == <<20336, 30067>>
Flac == <<26188, 24899>>
Lpcm == <<26992, 25453>>
Aac == <<28016, 13409>>
FrameRange(f) == Leq2(<<0, 1>>, f) /\ Leq2(f, Pair(96000))
AacRates == <<96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350>>
FlacRates == {88200, 176400, 192000, 8000, 16000, 22050, 24000, 32000, 44100, 48000, 96000}
RollOf(codec, frame) == CASE codec = Opus -> -((3840 + Small(frame) - 1) \div Small(frame)) [] codec = Aac -> -1 [] OTHER -> 0
\* of a FLAC stream: blocks of type t; type 0 has info, the others bytes
InfoOk(i, frame) == /\ i.rate \in FlacRates /\ i.bps \in {15, 23, 31} /\ Pair(i.max) = frame /\ Pair(i.min) = frame
                    /\ i.ch = 1
CfgReadOk(codec, frame, c) ==
  CASE codec = Lpcm -> c.flags \in {0, 1} /\ c.size \in {16, 24, 32} /\ c.rate \in {Pair(16000), Pair(32000), Pair(44100), Pair(48000), Pair(96000)}
    [] codec = Opus -> c.version \in 1..15 /\ c.ch = 2 /\ c.gain = 0 /\ c.map = 0
    [] codec = Aac -> c.tag = 4 /\ c.obj = 64 /\ c.st = 5 /\ c.up = 0 /\ c.res = 1 /\ c.itag = 5 /\ c.aot = 2 /\ c.sfi \in 0..12 /\ c.chan = 2 /\ c.ga = 0
    [] codec = Flac -> Len(c) >= 1 /\ c[1].t = 0 /\ InfoOk(c[1].info, frame) /\ c[1].info.total[1] \in 0..15
    [] OTHER -> FALSE
NoMd5 == [i \in 1..16 |-> 0]
InfoFits(i) == i.minf \in 0..16777215 /\ i.maxf \in 0..16777215 /\ i.rate \in 0..1048575 /\ i.ch \in 0..7 /\ i.bps \in 0..31 /\ i.total[1] \in 0..15
CfgWriteOk(codec, frame, c) ==
  /\ CfgReadOk(codec, frame, c)
  /\ codec = Aac => c.size24 \in 0..16777215
  /\ codec = Flac => /\ c[1].info.minf = 0 /\ c[1].info.maxf = 0 /\ c[1].info.md5 = NoMd5
                     /\ \A i \in 1..Len(c) : c[i].t \in 0..127 /\ (IF c[i].t = 0 THEN ~c[i].other /\ InfoFits(c[i].info) ELSE ~c[i].other) = TRUE
CodecOk(x, mode) == /\ LebFits(x.id, mode) /\ LebFits(x.frame, mode) /\ FrameRange(x.frame)
                    /\ x.codec \in {Opus, Flac, Lpcm, Aac} /\ x.roll = RollOf(x.codec, x.frame) /\ CfgWriteOk(x.codec, x.frame, x.cfg)
RECURSIVE IsoRest(_)
IsoRest(n) == IF n = 0 THEN << >> ELSE IsoRest(n \div 128) \o <<128 + (n % 128)>>
IsoOut(n) == IsoRest(n \div 128) \o <<n % 128>>
RECURSIVE IsoScan(_, _, _, _)
IsoScan(d, o, i, acc) == IF o + i > Len(d) THEN Er("EXHAUSTED")
                         ELSE LET b == d[o + i] IN
                              IF acc > 2097151 \/ (i = 8 /\ b >= 128) THEN Er("INVALID")
                              ELSE IF b >= 128 THEN IsoScan(d, o, i + 1, acc * 128 + (b % 128)) ELSE Ok(acc * 128 + b, 8 * (o + i))
\* the size of what follows, as the position of its end, under name
IsoEnd(d, s, name) == Bind(s, LAMBDA t : LET x == IsoScan(d, t.p \div 8, 1, 0) IN IF x.st # "OK" THEN Fail(x.st) ELSE Set([t EXCEPT !.p = x.p], name, (x.p \div 8) + x.v))
\* the bytes up to that end
UpTo(d, s, name, end) == IF s.st # "OK" THEN s ELSE IF (s.p \div 8) > s.r[end] \/ s.r[end] - (s.p \div 8) > MaxObu THEN Fail("INVALID")
                         ELSE Run(d, s, <<<<name, "bytes", s.r[end] - (s.p \div 8)>>>>, -1)
Info(i) == B16(i.min) \o B16(i.max) \o <<i.minf \div 65536>> \o B16(i.minf % 65536) \o <<i.maxf \div 65536>> \o B16(i.maxf % 65536)
           \o Bytes8(ToBits(i.rate, 20) \o ToBits(i.ch, 3) \o ToBits(i.bps, 5) \o ToBits(i.total[1], 4)) \o B16(i.total[2]) \o B16(i.total[3]) \o i.md5
WCfg(codec, c) ==
  CASE codec = Lpcm -> <<c.flags, c.size>> \o Out32(c.rate)
    [] codec = Opus -> <<c.version, c.ch>> \o B16(c.skip) \o Out32(c.rate) \o B16(c.gain) \o <<c.map>>
    [] codec = Aac -> LET asc == Bytes8(ToBits(c.aot, 5) \o ToBits(c.sfi, 4) \o ToBits(c.chan, 4) \o ToBits(c.ga, 3)) \o c.iext
                          body == <<c.obj, c.st * 4 + c.up * 2 + c.res, c.size24 \div 65536>> \o B16(c.size24 % 65536) \o Out32(c.max) \o Out32(c.avg)
                                  \o <<c.itag>> \o IsoOut(Len(asc)) \o asc \o c.ext
                      IN <<c.tag>> \o IsoOut(Len(body)) \o body
    [] OTHER -> SeqCat([i \in 1..Len(c) |-> LET q == IF c[i].t = 0 THEN Info(c[i].info) ELSE c[i].bytes IN
                                            <<(IF i = Len(c) THEN 128 ELSE 0) + c[i].t, Len(q) \div 65536>> \o B16(Len(q) % 65536) \o q])
WCodec(x, mode) == LebOut(x.id, mode) \o Out32(x.codec) \o LebOut(x.frame, mode) \o B16(x.roll) \o WCfg(x.codec, x.cfg)
NoInfo == << >>
RInfo(d, s) == Bind(Run(d, s, <<<<"min", "u", 16>>, <<"max", "u", 16>>, <<"minf", "u", 24>>, <<"maxf", "u", 24>>, <<"rate", "u", 20>>, <<"ch", "u", 3>>, <<"bps", "u", 5>>,
                                <<"t0", "u", 4>>, <<"t1", "u", 16>>, <<"t2", "u", 16>>, <<"md5", "bytes", 16>>>>, -1),
  LAMBDA a : Set(a, "info", [min |-> a.r.min, max |-> a.r.max, minf |-> a.r.minf, maxf |-> a.r.maxf, rate |-> a.r.rate, ch |-> a.r.ch, bps |-> a.r.bps,
                             total |-> <<a.r.t0, a.r.t1, a.r.t2>>, md5 |-> a.r.md5]))
RECURSIVE RFlac(_, _, _)
RFlac(d, s, acc) == IF Len(acc) = 128 THEN Fail("INVALID") ELSE
  Bind(Run(d, s, <<<<"last", "u", 1>>, <<"t", "u", 7>>, <<"len", "u", 24>>>>, -1), LAMBDA a :
    LET b == IF a.r.t = 0 THEN IF a.r.len # 34 THEN Fail("INVALID") ELSE RInfo(d, a)
             ELSE IF a.r.len > MaxObu THEN Fail("INVALID") ELSE Run(d, a, <<<<"bytes", "bytes", a.r.len>>>>, -1)
    IN Bind(b, LAMBDA c : LET acc2 == Append(acc, IF a.r.t = 0 THEN [t |-> 0, other |-> FALSE, info |-> c.r.info] ELSE [t |-> a.r.t, other |-> FALSE, bytes |-> c.r.bytes]) IN
         IF a.r.last = 1 THEN Set(c, "cfg", acc2) ELSE RFlac(d, [c EXCEPT !.r = s.r], acc2)))
RAac(d, s) ==
  LET a == IsoEnd(d, Run(d, s, <<<<"tag", "u", 8>>>>, -1), "end")
      b == Run(d, a, <<<<"obj", "u", 8>>, <<"st", "u", 6>>, <<"up", "u", 1>>, <<"res", "u", 1>>, <<"size24", "u", 24>>, <<"max", "u32", 0>>, <<"avg", "u32", 0>>, <<"itag", "u", 8>>>>, -1)
      c == IsoEnd(d, b, "iend")
      e == UpTo(d, Run(d, c, <<<<"aot", "u", 5>>, <<"sfi", "u", 4>>, <<"chan", "u", 4>>, <<"ga", "u", 3>>>>, -1), "iext", "iend")
      f == UpTo(d, e, "ext", "end")
  IN Bind(f, LAMBDA t : LET r == t.r IN
       Set(t, "cfg", [tag |-> r.tag, obj |-> r.obj, st |-> r.st, up |-> r.up, res |-> r.res, size24 |-> r.size24, max |-> r.max, avg |-> r.avg,
                      itag |-> r.itag, aot |-> r.aot, sfi |-> r.sfi, chan |-> r.chan, ga |-> r.ga, iext |-> r.iext, ext |-> r.ext]))
RCfg(d, s) ==
  CASE s.r.codec = Lpcm -> Bind(Run(d, s, <<<<"flags", "u", 8>>, <<"size", "u", 8>>, <<"rate", "u32", 0>>>>, -1),
                                LAMBDA a : Set(a, "cfg", [flags |-> a.r.flags, size |-> a.r.size, rate |-> a.r.rate]))
    [] s.r.codec = Opus -> Bind(Run(d, s, <<<<"version", "u", 8>>, <<"ch", "u", 8>>, <<"skip", "u", 16>>, <<"rate", "u32", 0>>, <<"gain", "s", 16>>, <<"map", "u", 8>>>>, -1),
                                LAMBDA a : Set(a, "cfg", [version |-> a.r.version, ch |-> a.r.ch, skip |-> a.r.skip, rate |-> a.r.rate, gain |-> a.r.gain, map |-> a.r.map]))
    [] s.r.codec = Aac -> RAac(d, s)
    [] s.r.codec = Flac -> RFlac(d, s, << >>)
    [] OTHER -> Fail("INVALID")
RCodec(d) ==
  LET a == Bind(Run(d, Start(0), <<<<"id", "leb", 0>>, <<"codec", "u32", 0>>, <<"frame", "leb", 0>>>>, -1), LAMBDA s : Need(s, FrameRange(s.r.frame)))
      b == Run(d, a, <<<<"roll", "s", 16>>>>, -1)
  IN Bind(Bind(b, LAMBDA s : RCfg(d, s)), LAMBDA s :
       Need(Set(s, "x", [id |-> s.r.id, codec |-> s.r.codec, frame |-> s.r.frame, roll |-> s.r.roll, cfg |-> s.r.cfg]),
            s.r.roll = RollOf(s.r.codec, s.r.frame) /\ CfgReadOk(s.r.codec, s.r.frame, s.r.cfg)))
\* what follows from a codec config: sample rates and bits to measure loudness with
OutRate(x) == CASE x.codec = Lpcm -> x.cfg.rate [] x.codec = Opus -> Pair(48000) [] x.codec = Aac -> Pair(AacRates[x.cfg.sfi + 1]) [] OTHER -> Pair(x.cfg[1].info.rate)
InRate(x) == IF x.codec = Opus THEN x.cfg.rate ELSE OutRate(x)
Bits(x, aac) == CASE x.codec = Lpcm -> x.cfg.size [] x.codec = Opus -> 32 [] x.codec = Aac -> aac [] OTHER -> x.cfg[1].info.bps + 1
\* a config from which these cannot be derived is not even created
Derivable(x) == /\ FrameRange(x.frame)
                /\ CASE x.codec = Lpcm -> x.cfg.size \in {16, 24, 32} /\ x.cfg.rate \in {Pair(16000), Pair(32000), Pair(44100), Pair(48000), Pair(96000)}
                     [] x.codec = Opus -> TRUE
                     [] x.codec = Aac -> x.cfg.sfi \in 0..12
                     [] x.codec = Flac -> Len(x.cfg) >= 1 /\ x.cfg[1].t = 0 /\ x.cfg[1].info.rate \in FlacRates /\ x.cfg[1].info.bps \in {15, 23, 31}
                     [] OTHER -> FALSE

(* --- audio element: id, type, res, cc, subs, params, cfg --- *)
TypeOfKind(k) == CASE k = "gain" -> <<0, 0>> [] k = "demix" -> <<0, 1>> [] k = "recon" -> <<0, 2>> [] k = "polar" -> <<0, 3>> [] k = "cart8" -> <<0, 4>>
                   [] k = "cart16" -> <<0, 5>> [] k = "dpolar" -> <<0, 6>> [] k = "dcart8" -> <<0, 7>> [] OTHER -> <<0, 8>>
Squares == {k * k : k \in 1..15}
MonoOk(n, map) == /\ Len(map) \in Squares /\ n \in 1..Len(map)
                  /\ \A i \in 1..Len(map) : map[i] = 255 \/ map[i] < n
                  /\ \A k \in 0..n - 1 : k # 255 /\ \E i \in 1..Len(map) : map[i] = k
ProjOk(ch, sub, coup, size) == ch \in Squares /\ coup <= sub /\ sub + coup \in 1..ch /\ size = (sub + coup) * ch
ObjectsOk(n) == n \in 1..2
SumSub(layers) == FoldLeft(LAMBDA a, l : a + l.sc, 0, layers)
ChannelOk(c, n) == /\ Len(c.layers) \in 1..6 /\ SumSub(c.layers) = n
                   /\ (\E i \in 1..Len(c.layers) : c.layers[i].lay = 9) => Len(c.layers) = 1
LayerFits(l) == /\ l.lay \in 0..15 /\ l.ra \in 0..3 /\ (l.og => l.of \in 0..63 /\ l.rb \in 0..3) /\ (l.lay = 15 => l.ex \in 0..255)
ParamOk(q, mode) == LebFits(q.t, mode) /\ q.t # <<0, 0>> /\ WDefOk(q.d, mode)
ElementOk(x, mode) ==
  /\ Uniq([i \in 1..Len(x.params) |-> x.params[i].t]) /\ Len(x.params) <= 256
  /\ LebFits(x.id, mode) /\ LebFits(x.cc, mode) /\ x.type \in 0..7 /\ x.res \in 0..31
  /\ LebFits(Pair(Len(x.subs)), mode) /\ LebFits(Pair(Len(x.params)), mode)
  /\ \A i \in 1..Len(x.subs) : LebFits(x.subs[i], mode)
  /\ \A i \in 1..Len(x.params) : ParamOk(x.params[i], mode)
  /\ CASE x.type = 0 -> ChannelOk(x.cfg, Len(x.subs)) /\ x.cfg.res \in 0..31 /\ \A i \in 1..Len(x.cfg.layers) : LayerFits(x.cfg.layers[i])
       [] x.type = 1 -> Len(x.subs) = x.cfg.sub
       [] x.type = 2 -> Len(x.cfg.bytes) <= 254
       [] OTHER -> LebFits(Pair(Len(x.cfg.bytes)), mode)

WLayer(l) == <<l.lay * 16 + B2N(l.og) * 8 + B2N(l.rg) * 4 + l.ra, l.sc, l.cc>> \o (IF l.og THEN <<l.of * 4 + l.rb>> \o B16(l.gain) ELSE << >>)
             \o (IF l.lay = 15 THEN <<l.ex>> ELSE << >>)
WAmbi(c, mode) == LebOut(Pair(c.mode), mode) \o (IF c.mode = 0 THEN <<c.ch, c.sub>> \o c.map ELSE <<c.ch, c.sub, c.coup>> \o SeqCat([i \in 1..Len(c.mat) |-> B16(c.mat[i])]))
WElement(x, mode) ==
  LebOut(x.id, mode) \o <<x.type * 32 + x.res>> \o LebOut(x.cc, mode)
  \o LebOut(Pair(Len(x.subs)), mode) \o SeqCat([i \in 1..Len(x.subs) |-> LebOut(x.subs[i], mode)])
  \o LebOut(Pair(Len(x.params)), mode) \o SeqCat([i \in 1..Len(x.params) |-> LebOut(x.params[i].t, mode) \o WDef(x.params[i].d, mode)])
  \o (CASE x.type = 0 -> <<Len(x.cfg.layers) * 32 + x.cfg.res>> \o SeqCat([i \in 1..Len(x.cfg.layers) |-> WLayer(x.cfg.layers[i])])
        [] x.type = 1 -> WAmbi(x.cfg, mode)
        [] x.type = 2 -> <<Len(x.cfg.bytes) + 1, x.cfg.n>> \o x.cfg.bytes
        [] OTHER -> LebOut(Pair(Len(x.cfg.bytes)), mode) \o x.cfg.bytes)
DefOf(k, r) == IF k = "ext" THEN [kind |-> k, id |-> Zero, rate |-> Zero, res |-> 0, sch |-> << >>, vals |-> << >>, bytes |-> r.bytes]
               ELSE [kind |-> k, id |-> r.id, rate |-> r.rate, res |-> r.res, sch |-> r.sch, vals |-> r.vals, bytes |-> << >>]
RTyped(d, s, Kind(_)) == Bind(Run(d, s, <<<<"t", "leb", 0>>>>, -1), LAMBDA a :
  LET k == Kind(a.r.t) IN IF k = "" THEN Fail("INVALID")
  ELSE Bind(RDef(d, a.p, k), LAMBDA b : [a EXCEPT !.p = b.p, !.r = [t |-> a.r.t, d |-> DefOf(k, b.r)]]))
ElementKind(t) == CASE t = <<0, 0>> -> "" [] t = <<0, 1>> -> "demix" [] t = <<0, 2>> -> "recon" [] OTHER -> "ext"
RLayer2(d, s) == Bind(Run(d, s, <<<<"lay", "u", 4>>, <<"og", "u", 1>>, <<"rg", "u", 1>>, <<"ra", "u", 2>>, <<"sc", "u", 8>>, <<"cc", "u", 8>>>>, -1), LAMBDA a :
  LET b == IF a.r.og = 1 THEN Run(d, a, <<<<"of", "u", 6>>, <<"rb", "u", 2>>, <<"gain", "s", 16>>>>, -1) ELSE Set(Set(Set(a, "of", 0), "rb", 0), "gain", 0)
      c == IF b.st # "OK" THEN b ELSE IF a.r.lay = 15 THEN Run(d, b, <<<<"ex", "u", 8>>>>, -1) ELSE Set(b, "ex", -1)
  IN Bind(c, LAMBDA e : [e EXCEPT !.r = [lay |-> e.r.lay, og |-> e.r.og = 1, rg |-> e.r.rg = 1, ra |-> e.r.ra, sc |-> e.r.sc, cc |-> e.r.cc,
                                         of |-> e.r.of, rb |-> e.r.rb, gain |-> e.r.gain, ex |-> e.r.ex]]))
RAmbi(d, s) == Bind(Run(d, s, <<<<"mode", "leb", 0>>>>, -1), LAMBDA a :
  CASE a.r.mode = <<0, 0>> -> Bind(Run(d, a, <<<<"ch", "u", 8>>, <<"sub", "u", 8>>>>, -1), LAMBDA b : Bind(Run(d, b, <<<<"map", "bytes", b.r.ch>>>>, -1), LAMBDA c :
                                Need(Set(c, "cfg", [mode |-> 0, ch |-> c.r.ch, sub |-> c.r.sub, coup |-> 0, map |-> c.r.map, mat |-> << >>]), MonoOk(c.r.sub, c.r.map))))
    [] a.r.mode = <<0, 1>> -> Bind(Run(d, a, <<<<"ch", "u", 8>>, <<"sub", "u", 8>>, <<"coup", "u", 8>>>>, -1), LAMBDA b :
                                LET n == (b.r.sub + b.r.coup) * b.r.ch IN
                                IF ~ProjOk(b.r.ch, b.r.sub, b.r.coup, n) THEN Fail("INVALID")
                                ELSE Bind(Run(d, b, <<<<"raw", "bytes", 2 * n>>>>, -1), LAMBDA c :
                                       Set(c, "cfg", [mode |-> 1, ch |-> c.r.ch, sub |-> c.r.sub, coup |-> c.r.coup, map |-> << >>,
                                                      mat |-> [i \in 1..n |-> Signed(c.r.raw[2 * i - 1] * 256 + c.r.raw[2 * i], 16)]])))
    [] OTHER -> Fail("INVALID"))
RObjects(d, s) == Bind(Run(d, s, <<<<"k", "u", 8>>, <<"n", "u", 8>>>>, -1), LAMBDA a : IF a.r.k = 0 THEN Fail("INVALID") ELSE
                    Bind(Run(d, a, <<<<"bytes", "bytes", a.r.k - 1>>>>, -1), LAMBDA b : Need(Set(b, "cfg", [n |-> b.r.n, bytes |-> b.r.bytes]), ObjectsOk(b.r.n))))
RSized(d, s, name) == Bind(Run(d, s, <<<<"size", "leb", 0>>>>, -1), LAMBDA a : IF ~Room(d, a, a.r.size) THEN Fail("EXHAUSTED") ELSE Run(d, a, <<<<name, "bytes", Small(a.r.size)>>>>, -1))
RElement(d) ==
  LET a == Run(d, Start(0), <<<<"id", "leb", 0>>, <<"type", "u", 3>>, <<"res", "u", 5>>, <<"cc", "leb", 0>>, <<"ns", "leb", 0>>>>, -1)
      b == Bind(a, LAMBDA s : IF ~Room(d, s, s.r.ns) THEN Fail("EXHAUSTED") ELSE
             Bind(List(s, "ids", Small(s.r.ns), LAMBDA t : Run(d, t, <<<<"v", "leb", 0>>>>, -1)), LAMBDA t :
               LET q == [i \in 1..Len(t.r.ids) |-> t.r.ids[i].v] IN Need(Set(t, "subs", q), Uniq(q))))
      c == Bind(Run(d, b, <<<<"np", "leb", 0>>>>, -1), LAMBDA s : IF ~Leq2(s.r.np, Pair(256)) THEN Fail("INVALID") ELSE List(s, "params", Small(s.r.np), LAMBDA t : RTyped(d, t, ElementKind)))
      e == Bind(c, LAMBDA s : Need(s, Uniq([i \in 1..Len(s.r.params) |-> s.r.params[i].t])))
      f == Bind(e, LAMBDA s :
             CASE s.r.type = 0 -> Bind(Run(d, s, <<<<"nl", "u", 3>>, <<"cres", "u", 5>>>>, -1), LAMBDA t :
                                    Bind(List(t, "layers", t.r.nl, LAMBDA u : RLayer2(d, u)), LAMBDA u :
                                      Need(Set(u, "cfg", [res |-> u.r.cres, layers |-> u.r.layers]), ChannelOk([layers |-> u.r.layers], Len(u.r.subs)))))
               [] s.r.type = 1 -> Bind(RAmbi(d, s), LAMBDA t : Need(t, t.r.cfg.sub = Len(t.r.subs)))
               [] s.r.type = 2 -> RObjects(d, s)
               [] OTHER -> Bind(RSized(d, s, "bytes"), LAMBDA t : Set(t, "cfg", [bytes |-> t.r.bytes])))
  IN Bind(f, LAMBDA s : Set(s, "x", [id |-> s.r.id, type |-> s.r.type, res |-> s.r.res, cc |-> s.r.cc, subs |-> s.r.subs, params |-> s.r.params, cfg |-> s.r.cfg]))

(* --- rendering config: mode, prof, res, params, off (or nothing), ext --- *)
OffOk(o) == o.t = 1 => o.v[2] <= o.v[1] /\ o.v[1] <= o.v[3]
OffFits(o, mode) == o.t > 1 => LebFits(Pair(Len(o.b)), mode)
WOff(o, mode) == <<o.t>> \o (IF o.t > 1 THEN LebOut(Pair(Len(o.b)), mode) \o o.b ELSE SeqCat([i \in 1..Len(o.v) |-> B16(o.v[i])]))
ROff(d, s) == Bind(Run(d, s, <<<<"t", "u", 8>>>>, -1), LAMBDA a :
  CASE a.r.t = 0 -> Bind(Run(d, a, <<<<"v1", "s", 16>>>>, -1), LAMBDA b : [b EXCEPT !.r = [t |-> 0, v |-> <<b.r.v1>>, b |-> << >>]])
    [] a.r.t = 1 -> Bind(Run(d, a, <<<<"v1", "s", 16>>, <<"v2", "s", 16>>, <<"v3", "s", 16>>>>, -1), LAMBDA b :
                      LET o == [t |-> 1, v |-> <<b.r.v1, b.r.v2, b.r.v3>>, b |-> << >>] IN IF OffOk(o) THEN [b EXCEPT !.r = o] ELSE Fail("INVALID"))
    [] OTHER -> Bind(RSized(d, a, "b"), LAMBDA b : [b EXCEPT !.r = [t |-> b.r.t, v |-> << >>, b |-> b.r.b]]))
WRest(c, mode) == LebOut(Pair(Len(c.params)), mode) \o SeqCat([i \in 1..Len(c.params) |-> LebOut(c.params[i].t, mode) \o WDef(c.params[i].d, mode)])
                  \o (IF c.off = << >> THEN << >> ELSE WOff(c.off[1], mode)) \o c.ext
Plain(c) == c.params = << >> /\ c.off = << >> /\ c.ext = << >>
RenderOk(c, mode) == /\ c.mode \in 0..3 /\ c.prof \in 0..3 /\ c.res \in 0..7
                     /\ IF Plain(c) THEN LebFits(Zero, mode)
                        ELSE /\ LebFits(Pair(Len(c.params)), mode)
                             /\ \A i \in 1..Len(c.params) : LebFits(c.params[i].t, mode) /\ WDefOk(c.params[i].d, mode)
                             /\ c.off # << >> => OffFits(c.off[1], mode)
                             /\ LebFits(Pair(Len(WRest(c, mode))), mode)
WRender(c, mode) == <<c.mode * 64 + B2N(c.off # << >>) * 32 + c.prof * 8 + c.res>>
                    \o (IF Plain(c) THEN LebOut(Zero, mode) ELSE LET q == WRest(c, mode) IN LebOut(Pair(Len(q)), mode) \o q)
PositionKind(t) == CASE t = <<0, 3>> -> "polar" [] t = <<0, 4>> -> "cart8" [] t = <<0, 5>> -> "cart16" [] t = <<0, 6>> -> "dpolar" [] t = <<0, 7>> -> "dcart8"
                     [] t = <<0, 8>> -> "dcart16" [] OTHER -> ""
\* the known part of an extension; an extension without one is kept as it is
RKnown(e, flag) ==
  LET a == Bind(Run(e, Start(0), <<<<"np", "leb", 0>>>>, -1), LAMBDA s : IF ~Room(e, s, s.r.np) THEN Fail("EXHAUSTED")
                                                                           ELSE List(s, "params", Small(s.r.np), LAMBDA t : RTyped(e, t, PositionKind)))
      b == Bind(a, LAMBDA s : IF flag THEN Sub(s, "o", LAMBDA t : ROff(e, t)) ELSE s)
  IN Bind(b, LAMBDA s : Set(s, "off", IF flag THEN <<s.r.o>> ELSE << >>))
RRender(d, s) ==
  Bind(Run(d, s, <<<<"mode", "u", 2>>, <<"flag", "u", 1>>, <<"prof", "u", 2>>, <<"res", "u", 3>>, <<"size", "leb", 0>>>>, -1), LAMBDA a :
    IF ~Leq2(a.r.size, Pair(MaxObu)) THEN Fail("INVALID")
    ELSE Bind(Run(d, a, <<<<"all", "bytes", Small(a.r.size)>>>>, -1), LAMBDA b :
           LET k == IF b.r.all = << >> THEN Fail("INVALID") ELSE TLCEval(RKnown(b.r.all, b.r.flag = 1))
               ok == k.st = "OK"
           IN [b EXCEPT !.r = [mode |-> b.r.mode, prof |-> b.r.prof, res |-> b.r.res, params |-> IF ok THEN k.r.params ELSE << >>, off |-> IF ok THEN k.r.off ELSE << >>,
                               ext |-> IF ok THEN SubSeq(b.r.all, (k.p \div 8) + 1, Len(b.r.all)) ELSE b.r.all]]))

(* --- mix presentation: id, count, langs, anns, subs, tags, opt --- *)
Bit(v, k) == (v \div Pow2(k)) % 2 = 1
LayoutOk(y, mode) == /\ y.t \in 0..3 /\ (IF y.t = 2 THEN y.ss \in 0..15 /\ y.res \in 0..3 ELSE y.res \in 0..63)
                     /\ Bit(y.info, 1) => Len(y.anch) <= 255 /\ Uniq([i \in 1..Len(y.anch) |-> y.anch[i][1]])
                     /\ y.info >= 4 => LebFits(Pair(Len(y.ext)), mode)
WLayout(y, mode) == <<IF y.t = 2 THEN 128 + y.ss * 4 + y.res ELSE y.t * 64 + y.res, y.info>> \o B16(y.il) \o B16(y.dp)
                    \o (IF Bit(y.info, 0) THEN B16(y.tp) ELSE << >>)
                    \o (IF Bit(y.info, 1) THEN <<Len(y.anch)>> \o SeqCat([i \in 1..Len(y.anch) |-> <<y.anch[i][1]>> \o B16(y.anch[i][2])]) ELSE << >>)
                    \o (IF y.info >= 4 THEN LebOut(Pair(Len(y.ext)), mode) \o y.ext ELSE << >>)
RLayout(d, s) ==
  LET a == Bind(Run(d, s, <<<<"t", "u", 2>>>>, -1), LAMBDA x : IF x.r.t = 2 THEN Run(d, x, <<<<"ss", "u", 4>>, <<"res", "u", 2>>>>, -1) ELSE Run(d, Set(x, "ss", 0), <<<<"res", "u", 6>>>>, -1))
      b == Bind(Run(d, a, <<<<"info", "u", 8>>, <<"il", "s", 16>>, <<"dp", "s", 16>>>>, -1), LAMBDA x : IF Bit(x.r.info, 0) THEN Run(d, x, <<<<"tp", "s", 16>>>>, -1) ELSE Set(x, "tp", 0))
      c == Bind(b, LAMBDA x : IF ~Bit(x.r.info, 1) THEN Set(x, "anch", << >>)
             ELSE Bind(Run(d, x, <<<<"na", "u", 8>>>>, -1), LAMBDA y : Bind(List(y, "an", y.r.na, LAMBDA t : Run(d, t, <<<<"a", "u", 8>>, <<"v", "s", 16>>>>, -1)), LAMBDA z :
                    LET q == [i \in 1..Len(z.r.an) |-> <<z.r.an[i].a, z.r.an[i].v>>] IN Need(Set(z, "anch", q), Uniq([i \in 1..Len(q) |-> q[i][1]])))))
      e == Bind(c, LAMBDA x : IF x.r.info >= 4 THEN RSized(d, x, "ext") ELSE Set(x, "ext", << >>))
  IN Bind(e, LAMBDA x : [x EXCEPT !.r = [t |-> x.r.t, ss |-> x.r.ss, res |-> x.r.res, info |-> x.r.info, il |-> x.r.il, dp |-> x.r.dp, tp |-> x.r.tp, anch |-> x.r.anch, ext |-> x.r.ext]])
Stereo(y) == y.t = 2 /\ y.ss = 0
\* every sub-mix has a stereo layout; one that lacks it is given the loudness of its last layout
Plus(q) == IF \E i \in 1..Len(q) : Stereo(q[i]) THEN q
           ELSE Append(q, IF q = << >> THEN [t |-> 2, ss |-> 0, res |-> 0, info |-> 0, il |-> 0, dp |-> 0, tp |-> 0, anch |-> << >>, ext |-> << >>]
                          ELSE [q[Len(q)] EXCEPT !.t = 2, !.ss = 0, !.res = 0])
StrsOk(q, n) == Pair(Len(q)) = n /\ \A i \in 1..Len(q) : StrFits(q[i])
WStrs(q) == SeqCat([i \in 1..Len(q) |-> q[i] \o <<0>>])
Ids(x) == SeqCat([i \in 1..Len(x.subs) |-> [j \in 1..Len(x.subs[i].els) |-> x.subs[i].els[j].id]])
ElOk(e, n, mode) == LebFits(e.id, mode) /\ StrsOk(e.anns, n) /\ RenderOk(e.rc, mode) /\ WDefOk(e.gain, mode)
SubOk(m, n, mode) == /\ m.els # << >> /\ LebFits(Pair(Len(m.els)), mode) /\ \A i \in 1..Len(m.els) : ElOk(m.els[i], n, mode)
                     /\ WDefOk(m.out, mode) /\ LebFits(Pair(Len(m.layouts)), mode) /\ \A i \in 1..Len(m.layouts) : LayoutOk(m.layouts[i], mode)
                     /\ \E i \in 1..Len(m.layouts) : Stereo(m.layouts[i])
Language == <<99, 111, 110, 116, 101, 110, 116, 95, 108, 97, 110, 103, 117, 97, 103, 101>>  \* content_language
TagsOk(q) == /\ Len(q) <= 255 /\ \A i \in 1..Len(q) : StrFits(q[i][1]) /\ StrFits(q[i][2]) /\ (q[i][1] = Language => Len(q[i][2]) = 3)
             /\ Len(SelectSeq(q, LAMBDA t : t[1] = Language)) <= 1
OptOk(o, mode) == LebFits(o.size, mode) /\ IsSmall(o.size) /\ Small(o.size) = Len(o.rest) + 2
MixOk(x, flag, mode) ==
  /\ LebFits(x.id, mode) /\ LebFits(x.count, mode) /\ Uniq(x.langs) /\ StrsOk(x.langs, x.count) /\ StrsOk(x.anns, x.count)
  /\ x.subs # << >> /\ LebFits(Pair(Len(x.subs)), mode) /\ Uniq(Ids(x)) /\ \A i \in 1..Len(x.subs) : SubOk(x.subs[i], x.count, mode)
  /\ x.tags # << >> => TagsOk(x.tags[1])
  /\ flag => x.tags # << >> /\ x.opt # << >> /\ OptOk(x.opt[1], mode)
WEl(e, mode) == LebOut(e.id, mode) \o WStrs(e.anns) \o WRender(e.rc, mode) \o WDef(e.gain, mode)
WSub(m, mode) == LebOut(Pair(Len(m.els)), mode) \o SeqCat([i \in 1..Len(m.els) |-> WEl(m.els[i], mode)]) \o WDef(m.out, mode)
                 \o LebOut(Pair(Len(m.layouts)), mode) \o SeqCat([i \in 1..Len(m.layouts) |-> WLayout(m.layouts[i], mode)])
WMix(x, flag, mode) ==
  LebOut(x.id, mode) \o LebOut(x.count, mode) \o WStrs(x.langs) \o WStrs(x.anns)
  \o LebOut(Pair(Len(x.subs)), mode) \o SeqCat([i \in 1..Len(x.subs) |-> WSub(x.subs[i], mode)])
  \o (IF x.tags = << >> THEN << >> ELSE <<Len(x.tags[1])>> \o SeqCat([i \in 1..Len(x.tags[1]) |-> x.tags[1][i][1] \o <<0>> \o x.tags[1][i][2] \o <<0>>]))
  \o (IF flag THEN LET o == x.opt[1] IN LebOut(o.size, mode) \o <<o.lr, o.br>> \o o.rest ELSE << >>)
RStrs(d, s, name, n) == Bind(List(s, "list", n, LAMBDA t : Run(d, t, <<<<"v", "str", 0>>>>, -1)), LAMBDA t : Set(t, name, [i \in 1..Len(t.r.list) |-> t.r.list[i].v]))
RGainDef(d, s, name) == Bind(s, LAMBDA t : LET g == RDef(d, t.p, "gain") IN IF g.st # "OK" THEN g ELSE Set([t EXCEPT !.p = g.p], name, DefOf("gain", g.r)))
REl(d, s, n) ==
  LET a == Bind(Run(d, s, <<<<"id", "leb", 0>>>>, -1), LAMBDA t : RStrs(d, t, "anns", n))
      b == RGainDef(d, Bind(a, LAMBDA t : Sub(t, "rc", LAMBDA u : RRender(d, u))), "gain")
  IN Bind(b, LAMBDA t : [t EXCEPT !.r = [id |-> t.r.id, anns |-> t.r.anns, rc |-> t.r.rc, gain |-> t.r.gain]])
RSub(d, s, n) ==
  LET a == Bind(Run(d, s, <<<<"ne", "leb", 0>>>>, -1), LAMBDA t : IF t.r.ne = Zero THEN Fail("INVALID") ELSE IF ~Room(d, t, t.r.ne) THEN Fail("EXHAUSTED")
                                                                    ELSE List(t, "els", Small(t.r.ne), LAMBDA u : REl(d, u, n)))
      b == Bind(Run(d, RGainDef(d, a, "out"), <<<<"nl", "leb", 0>>>>, -1), LAMBDA t : IF ~Room(d, t, t.r.nl) THEN Fail("EXHAUSTED") ELSE List(t, "ls", Small(t.r.nl), LAMBDA u : RLayout(d, u)))
  IN Bind(b, LAMBDA t : [t EXCEPT !.r = [els |-> t.r.els, out |-> t.r.out, layouts |-> Plus(t.r.ls)]])
ROpt(d, s) == Bind(Run(d, s, <<<<"size", "leb", 0>>>>, -1), LAMBDA a : IF ~Leq2(<<0, 2>>, a.r.size) \/ ~Leq2(a.r.size, Pair(MaxObu)) THEN Fail("INVALID")
  ELSE Bind(Run(d, a, <<<<"lr", "u", 8>>, <<"br", "u", 8>>, <<"rest", "bytes", Small(a.r.size) - 2>>>>, -1), LAMBDA b : [b EXCEPT !.r = [size |-> b.r.size, lr |-> b.r.lr, br |-> b.r.br, rest |-> b.r.rest]]))
\* the tags of a presentation, and what follows them, may be missing
RMix(d, n, flag) ==
  LET a == Bind(Run(d, Start(0), <<<<"id", "leb", 0>>, <<"count", "leb", 0>>>>, -1), LAMBDA s : Need(s, Leq2(s.r.count, Pair(256))))
      b == Bind(a, LAMBDA s : Bind(RStrs(d, s, "langs", Small(s.r.count)), LAMBDA t : IF ~Uniq(t.r.langs) THEN Fail("INVALID") ELSE RStrs(d, t, "anns", Small(s.r.count))))
      c == Bind(Run(d, b, <<<<"nm", "leb", 0>>>>, -1), LAMBDA s : IF s.r.nm = Zero \/ ~Leq2(s.r.nm, <<0, 28>>) THEN Fail("INVALID")
                                                                   ELSE List(s, "subs", Small(s.r.nm), LAMBDA t : RSub(d, t, Small(s.r.count))))
      e == Bind(c, LAMBDA s : Need(s, Uniq(Ids(s.r))))
      f == Bind(e, LAMBDA s : IF s.p = 8 * n THEN (IF flag THEN Fail("INVALID") ELSE Set(Set(s, "tags", << >>), "opt", << >>))
             ELSE Bind(Bind(Run(d, s, <<<<"nt", "u", 8>>>>, -1), LAMBDA t : List(t, "ts", t.r.nt, LAMBDA u : Run(d, u, <<<<"n", "str", 0>>, <<"v", "str", 0>>>>, -1))), LAMBDA t :
                    LET g == Set(t, "tags", <<[i \in 1..Len(t.r.ts) |-> <<t.r.ts[i].n, t.r.ts[i].v>>]>>) IN
                    IF flag THEN Bind(Sub(g, "o", LAMBDA u : ROpt(d, u)), LAMBDA u : Set(u, "opt", <<u.r.o>>)) ELSE Set(g, "opt", << >>)))
  IN Bind(f, LAMBDA s : Set(s, "x", [id |-> s.r.id, count |-> s.r.count, langs |-> s.r.langs, anns |-> s.r.anns, subs |-> s.r.subs, tags |-> s.r.tags, opt |-> s.r.opt]))
\* loudspeakers of a layout; 0 when it is not known
Speakers(t, ss) == IF t = 3 THEN 2 ELSE IF t = 2 /\ ss <= 14 THEN <<2, 6, 8, 10, 11, 12, 14, 24, 8, 12, 10, 6, 1, 16, 17>>[ss + 1] ELSE 0

(* --- any of them --- *)
PayloadOk(k, x, flag, mode) == CASE k = "seq" -> SeqOk(x) [] k = "codec" -> CodecOk(x, mode) [] k = "element" -> ElementOk(x, mode) [] OTHER -> MixOk(x, flag, mode)
Payload(k, x, flag, mode) == CASE k = "seq" -> WSeq(x) [] k = "codec" -> WCodec(x, mode) [] k = "element" -> WElement(x, mode) [] OTHER -> WMix(x, flag, mode)
\* n bytes at the start of d: the object under x, the rest under footer
Read(k, d, n, flag) == Finish(d, CASE k = "seq" -> RSeq(d) [] k = "codec" -> RCodec(d) [] k = "element" -> RElement(d) [] OTHER -> RMix(d, n, flag), n)
TypeOf(k) == CASE k = "seq" -> 31 [] k = "codec" -> 0 [] k = "element" -> 1 [] OTHER -> 2
=============================================================================
