------------------------------- MODULE Blocks -------------------------------
(* Parameter definitions, the schedules of their values, parameter blocks and
   the gain of every instant of a mix-gain block.
   Definition: kind, id, rate, sch (a schedule or nothing), res, vals (its
   defaults, in the order of the format), bytes (of an unknown kind).
   Schedule: dur, const, and list: the durations of the subblocks when they
   differ. Block: sch (or nothing) and subs, the data of each subblock. *)
EXTENDS Obu
MaxSubblocks == 192000
Zero == <<0, 0>>
\* quotient, rounded down, and remainder
Bit32(v, i) == IF i >= 16 THEN (v[1] \div Pow2(i - 16)) % 2 ELSE (v[2] \div Pow2(i)) % 2
PairSub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + 65536 - b[2]>>
Twice(r, bit) == PairAdd(<<2 * r[1], 2 * r[2]>>, <<0, bit>>)
DivMod(a, c) == FoldLeft(LAMBDA z, i : LET r == Twice(z.r, Bit32(a, 31 - i)) q == PairAdd(z.q, z.q) IN
                                       TLCEval(IF Leq2(c, r) THEN [q |-> PairAdd(q, <<0, 1>>), r |-> PairSub(r, c)] ELSE [q |-> q, r |-> r]),
                         [q |-> Zero, r |-> Zero], [k \in 1..32 |-> k - 1])
Parts(dur, const) == LET x == DivMod(dur, const) IN IF x.r = Zero THEN x.q ELSE PairAdd(x.q, <<0, 1>>)
SumPairs(q) == FoldLeft(LAMBDA a, x : IF Fits32(a) THEN PairAdd(a, x) ELSE a, Zero, q)
Even(dur, const) == [dur |-> dur, const |-> const, list |-> << >>]
Uneven(list) == [dur |-> SumPairs(list), const |-> Zero, list |-> list]
EvenOk(dur, const) == dur # Zero /\ const # Zero /\ Leq2(const, dur) /\ Leq2(Parts(dur, const), Pair(MaxSubblocks))
UnevenOk(list) == Len(list) \in 1..MaxSubblocks /\ (\A i \in 1..Len(list) : list[i] # Zero) /\ Fits32(SumPairs(list))
Count(s) == IF s.const = Zero THEN Len(s.list) ELSE Small(Parts(s.dur, s.const))
Long(s, i) == IF s.const = Zero THEN s.list[i]
              ELSE LET r == DivMod(s.dur, s.const).r IN IF i = Count(s) /\ r # Zero THEN r ELSE s.const

(* --- definitions --- *)
Kinds == {"gain", "demix", "recon", "polar", "cart8", "cart16", "dpolar", "dcart8", "dcart16", "ext"}
One(k, n) == CASE k = "gain" -> <<<<"v1", "s", 16>>>>
            [] k = "demix" -> <<<<"v1", "u", 3>>, <<"v2", "u", 5>>, <<"v3", "u", 4>>, <<"v4", "u", 4>>>>
            [] k \in {"polar", "dpolar"} -> [i \in 1..n |-> <<<<"v1", "v2", "v3", "v4", "v5", "v6">>[i], <<"s", "s", "u">>[((i - 1) % 3) + 1], <<9, 8, 7>>[((i - 1) % 3) + 1]>>]
            [] k \in {"cart8", "dcart8"} -> [i \in 1..n |-> <<<<"v1", "v2", "v3", "v4", "v5", "v6">>[i], "s", 8>>]
            [] k \in {"cart16", "dcart16"} -> [i \in 1..n |-> <<<<"v1", "v2", "v3", "v4", "v5", "v6">>[i], "s", 16>>]
            [] OTHER -> << >>
NVals(k) == CASE k = "gain" -> 1 [] k = "demix" -> 4 [] k \in {"polar", "cart8", "cart16"} -> 3 [] k \in {"dpolar", "dcart8", "dcart16"} -> 6 [] OTHER -> 0
Fields(k) == One(k, NVals(k))
Clip(v, m) == IF v > m THEN m ELSE IF v < -m THEN -m ELSE v
\* angles are brought into their range
Norm(k, vals) == IF k \in {"polar", "dpolar"} THEN [i \in 1..Len(vals) |-> CASE i % 3 = 1 -> Clip(vals[i], 180) [] i % 3 = 2 -> Clip(vals[i], 90) [] OTHER -> vals[i]] ELSE vals
DefOk(x) == /\ x.rate # Zero
            /\ x.kind \in {"demix", "recon"} => x.sch # << >> /\ x.sch[1].const = x.sch[1].dur
ModeOk(m) == m \notin {3, 7}
Fit(v, f) == f[2] = "s" \/ (v >= 0 /\ v < Pow2(f[3]))
WDefOk(x, mode) ==
  IF x.kind = "ext" THEN LebFits(Pair(Len(x.bytes)), mode)
  ELSE /\ DefOk(x) /\ LebFits(x.id, mode) /\ LebFits(x.rate, mode) /\ x.res < 128
       /\ x.sch # << >> => LET s == x.sch[1] IN LebFits(s.dur, mode) /\ LebFits(s.const, mode)
                             /\ (s.const = Zero => LebFits(Pair(Len(s.list)), mode) /\ \A i \in 1..Len(s.list) : LebFits(s.list[i], mode))
       /\ LET v == Norm(x.kind, x.vals) IN \A i \in 1..Len(v) : Fit(v[i], Fields(x.kind)[i])
       /\ x.kind = "demix" => ModeOk(x.vals[1])
\* bits, most significant first, then whole bytes
ToBits(v, n) == LET u == IF v < 0 THEN v + Pow2(n) ELSE v IN [i \in 1..n |-> (u \div Pow2(n - i)) % 2]
Bytes8(b) == [i \in 1..(Len(b) \div 8) |-> FoldLeft(LAMBDA a, k : 2 * a + b[8 * (i - 1) + k], 0, [k \in 1..8 |-> k])]
PutVals(k, vals) == LET v == Norm(k, vals) IN Bytes8(SeqCat([i \in 1..Len(v) |-> ToBits(v[i], Fields(k)[i][3])]))
PutSch(s, data, mode) ==
  LebOut(s.dur, mode) \o LebOut(s.const, mode)
  \o (IF s.const # Zero THEN SeqCat(data)
      ELSE LebOut(Pair(Len(s.list)), mode) \o SeqCat([i \in 1..Len(s.list) |-> LebOut(s.list[i], mode) \o (IF data = << >> THEN << >> ELSE data[i])]))
WDef(x, mode) ==
  IF x.kind = "ext" THEN LebOut(Pair(Len(x.bytes)), mode) \o x.bytes
  ELSE LebOut(x.id, mode) \o LebOut(x.rate, mode) \o <<(IF x.sch = << >> THEN 128 ELSE 0) + x.res>>
       \o (IF x.sch = << >> THEN << >> ELSE PutSch(x.sch[1], << >>, mode)) \o PutVals(x.kind, x.vals)

(* --- reading a schedule; Data reads what belongs to one subblock --- *)
Left(d, s) == 8 * Len(d) - s.p
RSch(d, s, with, Data(_, _)) ==
  Bind(Run(d, s, <<<<"dur", "leb", 0>>, <<"const", "leb", 0>>>>, -1), LAMBDA a :
    IF a.r.const # Zero
    THEN IF ~EvenOk(a.r.dur, a.r.const) THEN Fail("INVALID")
         ELSE LET n == Small(Parts(a.r.dur, a.r.const)) IN
              IF ~with THEN Set(Set(a, "list", << >>), "subs", << >>)
              ELSE IF n > Left(d, a) + 1 THEN Fail("EXHAUSTED")
              ELSE List(Set(a, "list", << >>), "subs", n, LAMBDA t : Data(d, t))
    ELSE Bind(Run(d, a, <<<<"n", "leb", 0>>>>, -1), LAMBDA b :
           IF b.r.dur = Zero \/ b.r.n = Zero \/ ~Leq2(b.r.n, Pair(MaxSubblocks)) \/ ~Leq2(b.r.n, b.r.dur) THEN Fail("INVALID")
           ELSE IF Small(b.r.n) > Left(d, b) THEN Fail("EXHAUSTED")
           ELSE Bind(List(b, "both", Small(b.r.n), LAMBDA t : Bind(Run(d, t, <<<<"long", "leb", 0>>>>, -1), LAMBDA u : IF with THEN Data(d, u) ELSE u)), LAMBDA c :
                  LET list == [i \in 1..Len(c.r.both) |-> c.r.both[i].long] IN
                  IF ~UnevenOk(list) \/ SumPairs(list) # c.r.dur THEN Fail("INVALID")
                  ELSE Set(Set(c, "list", list), "subs", IF with THEN c.r.both ELSE << >>))))
NoData(d, s) == s
SchOf(r) == [dur |-> r.dur, const |-> r.const, list |-> r.list]
Vals(r, k) == [i \in 1..NVals(k) |-> r[<<"v1", "v2", "v3", "v4", "v5", "v6">>[i]]]
\* demixing and recon gain definitions without a schedule can be read, but neither
\* they nor blocks of them can be written, nor can such a block be read
RDef(d, p, k) ==
  IF k = "ext"
  THEN Bind(Run(d, Start(p), <<<<"n", "leb", 0>>>>, -1), LAMBDA s : IF ~Leq2(s.r.n, Pair(MaxObu)) THEN Fail("INVALID")
                                                                   ELSE Run(d, s, <<<<"bytes", "bytes", Small(s.r.n)>>>>, -1))
  ELSE LET a == Run(d, Start(p), <<<<"id", "leb", 0>>, <<"rate", "leb", 0>>, <<"mode", "u", 1>>, <<"res", "u", 7>>>>, -1)
           b == Bind(a, LAMBDA s : IF s.r.mode = 1 THEN Set(s, "sch", << >>)
                                   ELSE Bind(RSch(d, s, FALSE, NoData), LAMBDA t : Set(t, "sch", <<SchOf(t.r)>>)))
           c == Bind(b, LAMBDA s : Need(s, IF s.r.mode = 1 THEN s.r.rate # Zero ELSE DefOk([kind |-> k, rate |-> s.r.rate, sch |-> s.r.sch])))
           e == Bind(c, LAMBDA s : Run(d, s, Fields(k), -1))
           f == Bind(e, LAMBDA s : IF k = "demix" THEN Need(s, ModeOk(s.r.v1)) ELSE s)
       IN Bind(f, LAMBDA s : Set(s, "vals", Norm(k, Vals(s.r, k))))

(* --- the data of a subblock --- *)
\* of a gain: t 0 step, 1 linear, 2 Bezier; v: start, end, control, its time
GFields(t) == SubSeq(<<<<"g1", "s", 16>>, <<"g2", "s", 16>>, <<"g3", "s", 16>>, <<"g4", "u", 8>>>>, 1, <<1, 2, 4>>[t + 1])
RGain(d, s) == Bind(Run(d, s, <<<<"t", "leb", 0>>>>, -1), LAMBDA a :
  IF a.r.t[1] # 0 \/ a.r.t[2] > 2 THEN Fail("INVALID")
  ELSE Bind(Run(d, a, GFields(a.r.t[2]), -1), LAMBDA b :
         Set(b, "v", [t |-> b.r.t[2], v |-> [i \in 1..<<1, 2, 4>>[b.r.t[2] + 1] |-> b.r[<<"g1", "g2", "g3", "g4">>[i]]]])))
RDemix(d, s) == Bind(Run(d, s, <<<<"m", "u", 3>>, <<"x", "u", 5>>>>, -1), LAMBDA a : Need(Set(a, "v", <<a.r.m, a.r.x>>), ModeOk(a.r.m)))
\* of reconstruction gains: for every layer that has them, a mask and twelve gains
Rank(q, i) == CHOOSE k \in 1..Len(q) : q[k] = i
FlagBit(f, i) == (f[2] \div Pow2(i - 1)) % 2 = 1
RLayer(d, s) == Bind(Run(d, s, <<<<"f", "leb", 0>>>>, -1), LAMBDA a :
  LET set == SelectSeq([i \in 1..12 |-> i], LAMBDA i : FlagBit(a.r.f, i)) IN
  Bind(Run(d, a, <<<<"b", "bytes", Len(set)>>>>, -1), LAMBDA b :
    Set(b, "v", <<[f |-> a.r.f, g |-> [i \in 1..12 |-> IF FlagBit(a.r.f, i) THEN b.r.b[Rank(set, i)] ELSE 0]]>>)))
RRecon(d, s, layers) ==
  Bind(FoldLeft(LAMBDA a, k : IF a.st # "OK" THEN a ELSE IF ~layers[k] THEN Set(a, "acc", Append(a.r.acc, << >>))
                              ELSE Bind(RLayer(d, a), LAMBDA b : [a EXCEPT !.p = b.p, !.r = ("acc" :> Append(a.r.acc, b.r.v)) @@ a.r]),
                Set(s, "acc", << >>), [k \in 1..Len(layers) |-> k]),
       LAMBDA c : Set(c, "v", c.r.acc))
RExt(d, s) == Bind(Run(d, s, <<<<"n", "leb", 0>>>>, -1), LAMBDA a : IF ~Leq2(a.r.n, Pair(MaxObu)) THEN Fail("INVALID")
                                                                   ELSE Run(d, a, <<<<"v", "bytes", Small(a.r.n)>>>>, -1))
RData(x, d, s) == CASE x.kind = "gain" -> RGain(d, s) [] x.kind = "demix" -> RDemix(d, s) [] x.kind = "recon" -> RRecon(d, s, x.layers)
                    [] x.kind = "ext" -> RExt(d, s) [] OTHER -> Fail("INVALID")
\* a block of n bytes, the values of which x defines
RBlock(x, d, n) ==
  LET a == Bind(Run(d, Start(0), <<<<"id", "leb", 0>>>>, -1), LAMBDA s : Need(s, DefOk(x) /\ s.r.id = x.id))
      subs(s) == [i \in 1..Len(s.r.subs) |-> s.r.subs[i].v]
      b == Bind(a, LAMBDA s :
             IF x.sch = << >> THEN Bind(RSch(d, s, TRUE, LAMBDA e, t : RData(x, e, t)), LAMBDA t : Set(Set(t, "sch", <<SchOf(t.r)>>), "data", subs(t)))
             ELSE IF Count(x.sch[1]) > Left(d, s) + 1 THEN Fail("EXHAUSTED")
             ELSE Bind(List(s, "subs", Count(x.sch[1]), LAMBDA t : RData(x, d, t)), LAMBDA t : Set(Set(t, "sch", x.sch), "data", subs(t))))
  IN Finish(d, b, n)
PutData(x, v, mode) ==
  CASE x.kind = "gain" -> LebOut(Pair(v.t), mode) \o Bytes8(SeqCat([i \in 1..Len(v.v) |-> ToBits(v.v[i], IF i = 4 THEN 8 ELSE 16)]))
    [] x.kind = "demix" -> <<v[1] * 32 + v[2]>>
    [] x.kind = "recon" -> SeqCat([k \in 1..Len(v) |-> IF v[k] = << >> THEN << >>
                                   ELSE LebOut(v[k][1].f, mode) \o SeqCat([i \in 1..12 |-> IF FlagBit(v[k][1].f, i) THEN <<v[k][1].g[i]>> ELSE << >>])])
    [] OTHER -> LebOut(Pair(Len(v)), mode) \o v
DataOk(x, v, mode) ==
  CASE x.kind = "gain" -> LebFits(Pair(v.t), mode)
    [] x.kind = "demix" -> v[1] < 8 /\ v[2] < 32 /\ ModeOk(v[1])
    [] x.kind = "recon" -> Len(v) = Len(x.layers) /\ \A k \in 1..Len(v) : (x.layers[k] <=> v[k] # << >>) /\ (v[k] # << >> => LebFits(v[k][1].f, mode))
    [] x.kind = "ext" -> LebFits(Pair(Len(v)), mode)
    [] OTHER -> FALSE
WBlockOk(x, b, mode) ==
  /\ DefOk(x) /\ LebFits(x.id, mode) /\ \A i \in 1..Len(b.subs) : DataOk(x, b.subs[i], mode)
  /\ b.sch # << >> => LET s == b.sch[1] IN LebFits(s.dur, mode) /\ LebFits(s.const, mode) /\ Len(b.subs) = Count(s)
                        /\ (s.const = Zero => LebFits(Pair(Len(s.list)), mode) /\ \A i \in 1..Len(s.list) : LebFits(s.list[i], mode))
WBlock(x, b, mode) == LET data == [i \in 1..Len(b.subs) |-> PutData(x, b.subs[i], mode)] IN
  LebOut(x.id, mode) \o (IF b.sch = << >> THEN SeqCat(data) ELSE PutSch(b.sch[1], data, mode))

(* --- the gain at an instant, in units of 1/4096 dB ---
   long, t: length of the subblock and the instant in it; the points are in 1/256 dB *)
Abs(v) == IF v < 0 THEN -v ELSE v
Mid(a, b, k, K) == a + ((b - a) * k) \div K
Straight(p, q, t, long) == LET z == 16 * (q - p) IN 16 * p + (z \div long) * t + ((z % long) * t) \div long
\* fine enough, and no number of it is too wide
Res(long) == IF long <= 500 THEN 1024 ELSE IF long <= 2000 THEN 512 ELSE IF long <= 8000 THEN 256 ELSE IF long <= 32000 THEN 128 ELSE 64
\* the curve's time at k/K is its control time n1: alpha k^2 + 2 n1 k K, in units of 1/K^2
Time(long, n1, k, K) == (long - 2 * n1) * k * k + 2 * n1 * k * K
RECURSIVE Search(_, _, _, _, _, _)
Search(long, n1, t, lo, hi, K) == IF hi - lo <= 1 THEN lo
                                  ELSE LET m == (lo + hi) \div 2 IN IF Time(long, n1, m, K) <= t * K * K THEN Search(long, n1, t, m, hi, K) ELSE Search(long, n1, t, lo, m, K)
Curve(p0, p1, p2, k, K) == Mid(Mid(16 * p0, 16 * p1, k, K), Mid(16 * p1, 16 * p2, k, K), k, K)
Within(v, a, b, tol) == LET lo == IF a < b THEN a ELSE b hi == IF a < b THEN b ELSE a IN v >= lo - tol /\ v <= hi + tol
GainOk(a, long, t, got) ==
  CASE a.t = 0 -> Abs(got - 16 * a.v[1]) <= 2
    [] a.t = 1 -> Abs(got - Straight(a.v[1], a.v[2], t, long)) <= 4
    [] OTHER -> LET K == Res(long)
                    n1 == (long * a.v[4] + 128) \div 256
                    k == Search(long, n1, t, 0, K, K)
                    bend == Abs(a.v[1] - 2 * a.v[3] + a.v[2]) \div K
                IN Within(got, Curve(a.v[1], a.v[3], a.v[2], k, K), Curve(a.v[1], a.v[3], a.v[2], k + 1, K), 12 + bend)
\* the subblock that holds an instant: its number (0: none) and where it starts
RECURSIVE Holder(_, _, _, _)
Holder(longs, t, i, from) == IF i > Len(longs) THEN [i |-> 0, from |-> from]
                             ELSE IF t < from + longs[i] THEN [i |-> i, from |-> from] ELSE Holder(longs, t, i + 1, from + longs[i])
=============================================================================
