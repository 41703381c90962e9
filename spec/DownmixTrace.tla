---------------------------- MODULE DownmixTrace ----------------------------
EXTENDS Downmix, SequencesExt, FiniteSets, TraceKit
L == INSTANCE Layers
VARIABLES i
E == Trace[i]
Is(e) == i <= Len(Trace) /\ E.e = e /\ i' = i + 1
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, t) == Abs(x - y) <= t
Subs(x) == IF x.kind.t = "channels" THEN L!OfChannels(x.ids, x.kind.layers) ELSE L!OfMono(x.ids, x.kind.count, x.kind.map)
Coded(subs) == ToSet(FlattenSeq(subs))
\* in: <<channel, values>>; the signal at a tick
Signal(x, t) == [c \in {x.in[k][1] : k \in 1..Len(x.in)} |-> (CHOOSE y \in ToSet(x.in) : y[1] = c)[2][t]]
GainOf(r, c) == LET g == {y \in r.gains : y[1] = c} IN IF g = {} THEN 0 ELSE (CHOOSE y \in g : TRUE)[2]
Clips(v, f) == Abs(v) * f[2] > 99990 * f[1]
\* what is coded for value v, in hundred-thousandths of full scale
Fits(got, v, f) == IF Clips(v, f) THEN Abs(got) > 99900 /\ (got > 0) = (v > 0)
                   ELSE Near((got * f[1]) \div f[2], v, 8 + f[1] \div f[2] + Abs(v) \div 1500)
Whole(x) == {k \in 1..Len(x.top) : x.top[k] \in {x.in[j][1] : j \in 1..Len(x.in)}} = 1..Len(x.top)
Down(x) ==
  LET r == Subs(x) IN
  IF ~Whole(x) \/ x.lost THEN ~x.down
  ELSE /\ x.down /\ Len(x.raw) = Len(r.subs) /\ Len(x.enc) = Len(r.subs)
       /\ \A k \in 1..Len(r.subs) : Len(x.raw[k]) = Len(r.subs[k]) /\ Len(x.enc[k]) = Len(r.subs[k])
                                    /\ \A c \in 1..Len(r.subs[k]) : Len(x.raw[k][c]) = x.ticks /\ Len(x.enc[k][c]) = x.ticks
       /\ \A t \in 1..x.ticks : LET s == TLCEval(Signal(x, t)) IN
            \A k \in 1..Len(r.subs) : \A c \in 1..Len(r.subs[k]) :
              LET v == Of(s, x.p, x.w, r.subs[k][c]) IN
              Near(x.raw[k][c][t], v, 8) /\ Fits(x.enc[k][c][t], v, Factor(GainOf(r, r.subs[k][c])))
NoClip(x) == LET r == Subs(x) IN \A t \in 1..x.ticks : LET s == TLCEval(Signal(x, t)) IN
   \A c \in Coded(r.subs) : ~Clips(Of(s, x.p, x.w, c), Factor(GainOf(r, c)))
\* every channel that comes out has its value, and none is missing; what was coded as it is comes out as it is
Out(x, out, tol, exact) ==
  /\ ToSet(x.top) \subseteq {out[k][1] : k \in 1..Len(out)}
  /\ \A k \in 1..Len(out) : Len(out[k][2]) = x.ticks
  /\ \A t \in 1..x.ticks : LET s == TLCEval(Signal(x, t)) IN
       \A k \in 1..Len(out) : Near(out[k][2][t], Of(s, x.p, x.w, out[k][1]), tol)
  /\ exact => \A k \in 1..Len(out) : out[k][1] \in ToSet(x.top) /\ out[k][1] \in Coded(Subs(x).subs) => out[k][3]
Sound(x) == ~x.odd /\ (x.kind.t = "channels" => Divides(ToSet(x.top), Coded(Subs(x).subs), x.p))
Same(x) == LET all == \A k \in 1..Len(x.els) : Sound(x.els[k]) IN
  /\ \A k \in 1..Len(x.els) : Down(x.els[k]) = TRUE
  /\ x.tried = (\A k \in 1..Len(x.els) : x.els[k].down)
  /\ x.tried =>
     /\ x.up = all /\ x.up2 = all
     /\ all => \A k \in 1..Len(x.els) : LET y == x.els[k] IN
          /\ Out(y, y.orig, 8, TRUE) = TRUE /\ (NoClip(y) => Out(y, y.dec, 20 , FALSE)) = TRUE
          /\ y.trims = y.said
          /\ y.kind.t = "channels" => y.layouts = [n \in 1..Len(y.kind.layers) |-> y.kind.layers[n].layout]
Mixed == Is("mixed") /\ Same(E) = TRUE
TraceSpec == i = 1 /\ [][Mixed]_<<i>>
TraceAccepted == Accepted
=============================================================================
