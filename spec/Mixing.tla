------------------------------- MODULE Mixing -------------------------------
(* Rendering audio elements to layouts and mixing them. A mix has sub-mixes, a
   sub-mix elements, an output gain and layouts. For every layout, each element
   is rendered by its gain matrix, multiplied by its gain tick by tick, the
   elements are added up, and the sum is multiplied by the output gain. Samples
   are integers, gains of a matrix are in millionths, those of a mix powers of
   ten; what comes out is in ten thousandths of the unit of what goes in. *)
EXTENDS Layers
Out == << "0+2+0", "0+5+0", "2+5+0", "4+5+0", "4+5+1", "3+7+0", "4+9+0", "9+10+3", "0+7+0", "4+7+0", "7.1.2", "3.1.2", "0+1+0", "9.1.6", "7.1.5.4" >>
Wide == <<2, 6, 8, 10, 11, 12, 14, 24, 8, 12, 10, 6, 1, 16, 17>>
In == << "0+1+0", "0+2+0", "0+5+0", "2+5+0", "4+5+0", "0+7+0", "7.1.2", "4+7+0", "3.1.2" >>
\* the layouts there are of a sound system's shape
Same == << 1, 2, 3, 4, -1, -1, -1, -1, 5, 7, 6, 8, 0, -1, -1 >>
\* loudspeakers of a layout; 0 when it is not known
Speakers(t, ss) == IF t = 3 THEN 2 ELSE IF t = 2 /\ ss <= 14 THEN Wide[ss + 1] ELSE 0

(* --- channels, in the order of the gain matrices --- *)
Hole == "-"
InOrder(c) == IF c[1] = 1 THEN <<"M">> ELSE LET a == Around(c[1]) IN
  SubSeq(a, 1, 2) \o (IF c[1] >= 3 THEN <<"C">> ELSE << >>) \o Lfe(c[2]) \o SubSeq(a, 3, Len(a)) \o Height(c[1], c[3])
Of714 == InOrder(<<7, 1, 4>>)
Of916 == <<"FL", "FR", "FC", "LFE", "BL", "BR", "FLc", "FRc", "SiL", "SiR", "TpFL", "TpFR", "TpBL", "TpBR", "TpSiL", "TpSiR">>
Of10293 == <<"FL", "FR", "FC", "LFE", "BL", "BR", "FLc", "FRc", "BC", "LFE2", "SiL", "SiR", "TpFL", "TpFR", "TpFC", "TpC", "TpBL", "TpBR",
             "TpSiL", "TpSiR", "TpBC", "BtFC", "BtFL", "BtFR">>
Of7154 == Of714 \o <<"TpC", "BtFL", "BtFR", "BtBL", "BtBR">>
\* the full layout an extended one is part of: its channels, its key and its sound system
Part(x) == CASE x = 1 -> [l |-> InOrder(<<5, 1, 4>>), key |-> "4+5+0", ss |-> 3]
             [] x \in {0} \cup 2..7 -> [l |-> Of714, key |-> "4+7+0", ss |-> 9]
             [] x \in 8..12 -> [l |-> Of916, key |-> "9.1.6", ss |-> 13]
             [] x \in 13..15 -> [l |-> Of10293, key |-> "9+10+3", ss |-> 7]
             [] OTHER -> [l |-> Of7154, key |-> "7.1.5.4", ss |-> 14]
Kept(x) == LET y == Expanded[x + 1] keep == ToSet(y.two \o y.one) IN [i \in 1..Len(Part(x).l) |-> IF Part(x).l[i] \in keep THEN Part(x).l[i] ELSE Hole]
ChannelsInOrder(y) == IF y.layout = 15 THEN Kept(y.x) ELSE InOrder(Layout[y.layout + 1])

(* --- which matrix: [ok, labels, m, kind, key, out]; kind: "pass", "gains", "project" --- *)
NoWay == [ok |-> FALSE, labels |-> << >>, m |-> << >>, kind |-> "", d |-> << >>, key |-> "", out |-> ""]
Matrix(mats, in, out) == LET q == SelectSeq(mats, LAMBDA e : e.in = in /\ e.out = out) IN IF q = << >> THEN << >> ELSE q[1].m
Passes(y, t, ss) == IF t = 3 THEN y.layout = 9
                    ELSE \/ y.layout = 9 /\ ss = 0
                         \/ y.layout = 15 /\ Part(y.x).ss = ss
                         \/ y.layout # 15 /\ Same[ss + 1] = y.layout
Root(n) == CHOOSE k \in 0..15 : k * k = n
\* a layout for headphones is stereo for what is not to be rendered for two ears
Way(e, mats, t0, ss0, mode) ==
  LET t == IF t0 = 3 /\ mode # 1 THEN 2 ELSE t0
      ss == IF t0 = 3 THEN 0 ELSE ss0
      out == Out[ss + 1]
  IN CASE e.c.t = "channels" ->
            LET fit == SelectSeq(e.c.layers, LAMBDA y : Passes(y, t, ss)) y == e.c.layers[Len(e.c.layers)] IN
            IF fit # << >> THEN [NoWay EXCEPT !.ok = TRUE, !.labels = ChannelsInOrder(fit[1]), !.kind = "pass"]
            ELSE IF y.layout = 9 THEN NoWay
            ELSE LET key == IF y.layout = 15 THEN Part(y.x).key ELSE In[y.layout + 1] m == Matrix(mats, key, out) IN
                 [NoWay EXCEPT !.ok = m # << >>, !.labels = ChannelsInOrder(y), !.m = m, !.kind = "gains", !.key = key, !.out = out]
       [] e.c.t = "mono" ->
            LET r == OfMono(e.ids, e.c.count, e.c.map) m == Matrix(mats, "A" \o ToString(Root(Len(e.c.map)) - 1), out) IN
            [NoWay EXCEPT !.ok = m # << >> /\ \A i \in 1..Len(r.subs) : Len(r.subs[i]) = 1, !.kind = "gains", !.m = m,
                          !.labels = [i \in 1..Len(e.c.map) |-> IF e.c.map[i] = 255 THEN Hole ELSE r.subs[e.c.map[i] + 1][1]]]
       [] OTHER ->
            LET m == Matrix(mats, "A" \o ToString(Root(e.c.channels) - 1), out) IN
            [NoWay EXCEPT !.ok = m # << >>, !.kind = "project", !.m = m, !.labels = [i \in 1..e.c.count + e.c.pairs |-> Label(i - 1)], !.d = e.c.d]
\* gains that the bitstream gives for mixing 7.1.4 down, in quarters: alpha, beta, gamma, delta, w
Told(w, q) == LET a == q[1] b == q[2] g == q[3] d == q[4] v == q[5]
                  One(n, i) == [k \in 1..n |-> IF k = i THEN 1000000 ELSE 0]
                  Two(n, i, x, j, y) == [k \in 1..n |-> IF k = i THEN x ELSE IF k = j THEN y ELSE 0]
              IN IF w.out = "3.1.2" THEN [i \in 1..4 |-> One(6, i)]
                    \o <<Two(6, 1, 62500 * a * d, 5, 15625 * a * v * d), Two(6, 2, 62500 * a * d, 6, 15625 * a * v * d),
                         Two(6, 1, 62500 * b * d, 5, 15625 * b * v * d), Two(6, 2, 62500 * b * d, 6, 15625 * b * v * d),
                         One(6, 5), One(6, 6), Two(6, 5, 250000 * g, 0, 0), Two(6, 6, 250000 * g, 0, 0)>>
                 ELSE [i \in 1..10 |-> One(10, i)] \o <<Two(10, 9, 250000 * g, 0, 0), Two(10, 10, 250000 * g, 0, 0)>>
Dynamic(w) == w.kind = "gains" /\ w.key = "4+7+0" /\ w.out \in {"3.1.2", "7.1.2"}

(* --- one element's frame: a and z cut off, x: samples by channel, demixed ones under another name --- *)
NameIn(f, l) == IF l \in DOMAIN f.x THEN l ELSE IF ("Demixed" \o l) \in DOMAIN f.x THEN "Demixed" \o l ELSE ""
Used(w) == SelectSeq([i \in 1..Len(w.labels) |-> i], LAMBDA i : w.labels[i] # Hole)
Cut(f, t0, t1) == <<IF t0 THEN f.a ELSE 0, IF t1 THEN f.z ELSE 0>>
Fits(w, f, spf, t0, t1) ==
  LET u == Used(w) names == [k \in 1..Len(u) |-> NameIn(f, w.labels[u[k]])] IN
  /\ \A k \in 1..Len(u) : names[k] # ""
  /\ LET n == Len(f.x[names[1]]) c == Cut(f, t0, t1) IN
     (\A k \in 1..Len(u) : Len(f.x[names[k]]) = n) /\ n <= spf /\ c[1] + c[2] <= n
Ticks(w, f, t0, t1) == LET c == Cut(f, t0, t1) IN Len(f.x[NameIn(f, w.labels[Used(w)[1]])]) - c[1] - c[2]
Sum(n, X(_)) == FoldLeft(LAMBDA s, i : s + X(i), 0, [i \in 1..n |-> i])
\* the rendered samples of w.kind, ch channels of n ticks
Rendered(w, f, ch, t0, t1) ==
  LET u == Used(w)
      off == Cut(f, t0, t1)[1]
      n == Ticks(w, f, t0, t1)
      x == TLCEval([k \in 1..Len(u) |-> LET q == f.x[NameIn(f, w.labels[u[k]])] IN [t \in 1..n |-> q[off + t]]])
      m == TLCEval(IF f.in /\ Dynamic(w) THEN Told(w, f.dm) ELSE w.m)
  IN CASE w.kind = "pass" -> [c \in 1..ch |-> [t \in 1..n |-> IF w.labels[c] = Hole THEN 0 ELSE 10000 * x[CHOOSE k \in 1..Len(u) : u[k] = c][t]]]
       [] w.kind = "gains" -> [c \in 1..ch |-> [t \in 1..n |-> Sum(Len(u), LAMBDA k : x[k][t] * m[u[k]][c]) \div 100]]
       [] OTHER -> LET y == TLCEval([j \in 1..Len(m) |-> [t \in 1..n |-> Sum(Len(u), LAMBDA k : x[k][t] * w.d[k][j])]])
                   IN [c \in 1..ch |-> [t \in 1..n |-> Sum(Len(m), LAMBDA j : y[j][t] * m[j][c]) \div 400]]

(* --- gains: the one that holds at a tick is that of the subblock around it, or the default --- *)
RECURSIVE At(_, _, _)
At(g, t, default) == IF g = << >> THEN default ELSE IF t <= g[1][1] THEN g[1][2] ELSE At(Tail(g), t - g[1][1], default)
GainAt(def, blocks, t) == LET q == SelectSeq(blocks, LAMBDA b : b.id = def.pid) IN IF q = << >> THEN def.k ELSE At(q[Len(q)].g, t, def.k)
Times(v, k) == IF k = 1 THEN 10 * v ELSE IF k = -1 THEN v \div 10 ELSE v
Amplified(y, def, blocks) == [c \in 1..Len(y) |-> [t \in 1..Len(y[c]) |-> Times(y[c][t], GainAt(def, blocks, t))]]
Added(ys) == [c \in 1..Len(ys[1]) |-> [t \in 1..Len(ys[1][c]) |-> Sum(Len(ys), LAMBDA e : ys[e][c][t])]]

(* --- a world: codecs, els, mixes, mats, t0 and t1 (trimming), on (rendering), ears (loudness) --- *)
Has(q, id) == \E i \in 1..Len(q) : q[i].id = id
ById(q, id) == q[CHOOSE i \in 1..Len(q) : q[i].id = id]
CodecOf(w, id) == ById(w.codecs, ById(w.els, id).codec)
SubKnown(w, s) == \A i \in 1..Len(s.els) : Has(w.els, s.els[i].id)
Values(w, s, F(_)) == {F(CodecOf(w, s.els[i].id)) : i \in 1..Len(s.els)}
SubOk(w, s) == SubKnown(w, s) /\ Cardinality(Values(w, s, LAMBDA c : c.spf)) = 1 /\ Cardinality(Values(w, s, LAMBDA c : c.rate)) = 1
CanBegin(w) == w.on => \A i \in 1..Len(w.mixes) : \A j \in 1..Len(w.mixes[i].subs) : SubOk(w, w.mixes[i].subs[j])
SpfOf(w, s) == CodecOf(w, s.els[1].id).spf
RateOf(w, s) == CodecOf(w, s.els[1].id).rate
BitsOf(w, s) == LET b == Values(w, s, LAMBDA c : c.bits) IN IF Cardinality(b) = 1 THEN CHOOSE x \in b : TRUE ELSE 16
\* all layouts, in order: [mix, sub, lay (from 0), s: sub-mix, y: layout, ways: of the elements, live: something of the mix is rendered]
Ways(w, s, y) == [i \in 1..Len(s.els) |-> Way(ById(w.els, s.els[i].id), w.mats, y.t, y.ss, s.els[i].mode)]
Known(y) == Speakers(y.t, y.ss) > 0
PlacesOfSub(w, x, j) == LET s == x.subs[j] IN
  [a \in 1..Len(s.layouts) |-> LET y == s.layouts[a] ways == IF w.on /\ Known(y) THEN TLCEval(Ways(w, s, y)) ELSE << >> IN
     [mix |-> x.id, sub |-> j - 1, lay |-> a - 1, s |-> s, y |-> y, ways |-> ways,
      renders |-> w.on /\ Known(y) /\ \A i \in 1..Len(ways) : ways[i].ok]]
Flat(n, F(_)) == FoldLeft(LAMBDA q, i : q \o F(i), << >>, [i \in 1..n |-> i])
PlacesOf(w) == Flat(Len(w.mixes), LAMBDA i :
  LET q == TLCEval(Flat(Len(w.mixes[i].subs), LAMBDA j : PlacesOfSub(w, w.mixes[i], j))) live == \E k \in 1..Len(q) : q[k].renders IN
  [k \in 1..Len(q) |-> [mix |-> q[k].mix, sub |-> q[k].sub, lay |-> q[k].lay, s |-> q[k].s, y |-> q[k].y, ways |-> q[k].ways, renders |-> q[k].renders, live |-> live]])
\* what is there for a layout
Eared(w, p) == w.on /\ w.ears /\ Known(p.y) /\ p.y.ear
Wet(w, p) == w.on /\ Known(p.y) /\ p.y.wet
\* can this layout be rendered from these frames ?
Renderable(w, p, u) ==
  /\ \A i \in 1..Len(p.s.els) : LET e == p.s.els[i] IN
       Has(u.frames, e.id) /\ Fits(p.ways[i], ById(u.frames, e.id), SpfOf(w, p.s), w.t0, w.t1) /\ e.rate = RateOf(w, p.s)
  /\ Cardinality({Ticks(p.ways[i], ById(u.frames, p.s.els[i].id), w.t0, w.t1) : i \in 1..Len(p.s.els)}) = 1
  /\ p.s.rate = RateOf(w, p.s)
Mixed(w, p, u) ==
  LET ch == Speakers(p.y.t, p.y.ss)
      ys == TLCEval([i \in 1..Len(p.s.els) |-> Amplified(TLCEval(Rendered(p.ways[i], ById(u.frames, p.s.els[i].id), ch, w.t0, w.t1)), p.s.els[i], u.blocks)])
  IN Amplified(TLCEval(Added(ys)), p.s, u.blocks)
\* how far rounding may take it
Slack(p) == 3 * Len(p.s.els) * 100 + 4
Near(y, z, by, slack) == Len(y) = Len(z) /\ \A c \in 1..Len(y) : Len(y[c]) = Len(z[c]) /\ \A t \in 1..Len(y[c]) : LET d == y[c][t] - by * z[c][t] IN (d <= slack /\ -d <= slack) = TRUE
=============================================================================
