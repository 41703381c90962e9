------------------------------- MODULE Decoder -------------------------------
(* The streaming decoder as a user sees it. A bitstream is its descriptors and
   a sequence of OBUs; reading the OBUs in order groups the audio frames into
   temporal units by their time. A unit is closed by the first frame or
   parameter block of another time, by the second temporal delimiter since it
   was begun, or by the end of the data. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

(* cfg: fs, els (per element: lay, subs), rel (elements of the selected mix),
   gel (element whose gain parameter blocks mute it, or 0), tb, te (trimming
   enabled), obus *)
AllSubs(cfg) == UNION {{cfg.els[e].subs[i] : i \in 1..Len(cfg.els[e].subs)} : e \in 1..Len(cfg.els)}
RelSubs(cfg) == UNION {{cfg.els[e].subs[i] : i \in 1..Len(cfg.els[e].subs)} : e \in {cfg.rel[j] : j \in 1..Len(cfg.rel)}}
NoUnit == [t |-> -1, fr |-> << >>, gain |-> << >>, td |-> FALSE]
Scan0(cfg) == [cur |-> NoUnit, clk |-> [s \in AllSubs(cfg) |-> 0], pclk |-> 0, units |-> << >>, stop |-> "none"]

TrimS(cfg, o) == IF cfg.tb THEN o.ts ELSE 0
TrimE(cfg, o) == IF cfg.te THEN o.te ELSE 0
\* every substream of the mix is there, trimmed alike and not beyond its length, and the block fits
Good(cfg, u) ==
  /\ \A s \in RelSubs(cfg) : s \in DOMAIN u.fr
  /\ \A s \in RelSubs(cfg) : TrimS(cfg, u.fr[s]) + TrimE(cfg, u.fr[s]) <= cfg.fs
  /\ \A s, r \in RelSubs(cfg) : TrimS(cfg, u.fr[s]) + TrimE(cfg, u.fr[s]) = TrimS(cfg, u.fr[r]) + TrimE(cfg, u.fr[r])
  /\ \A i \in 1..Len(u.gain) : u.gain[i].dur = cfg.fs
\* a unit that holds nothing audible of any element is no unit; one without audio of the mix is an error
Close(cfg, s) == IF s.cur.t < 0 \/ DOMAIN s.cur.fr = {} THEN [s EXCEPT !.cur = NoUnit]
                 ELSE [s EXCEPT !.cur = NoUnit, !.units = Append(@, [u |-> s.cur, bad |-> ~Good(cfg, s.cur)])]
\* makes t the time of the current unit
At(cfg, s, t) == IF s.cur.t = t THEN s ELSE IF s.cur.t < 0 THEN [s EXCEPT !.cur.t = t]
                 ELSE LET c == TLCEval(Close(cfg, s)) IN [c EXCEPT !.cur.t = t]
Common(s) == \E g \in {s.clk[x] : x \in DOMAIN s.clk} : \A x \in DOMAIN s.clk : s.clk[x] = g
Step(cfg, s, o) ==
  IF s.stop # "none" THEN s ELSE
  CASE o.k = "frame" /\ o.sub \in DOMAIN s.clk ->
         LET a == TLCEval(At(cfg, s, s.clk[o.sub])) IN
         [a EXCEPT !.cur.fr = (o.sub :> o) @@ a.cur.fr, !.clk[o.sub] = @ + cfg.fs]
    [] o.k = "pb" /\ DOMAIN s.clk # {} /\ Common(s) ->
         LET g == s.clk[CHOOSE x \in DOMAIN s.clk : TRUE] IN
         IF s.pclk # g THEN [s EXCEPT !.pclk = @ + o.dur]
         ELSE LET a == TLCEval(At(cfg, s, g)) IN [a EXCEPT !.cur.gain = Append(a.cur.gain, o), !.pclk = @ + o.dur]
    [] o.k = "td" -> IF s.cur.td /\ s.cur.t >= 0 THEN Close(cfg, s) ELSE [s EXCEPT !.cur.td = TRUE]
    [] o.k = "fatal" -> [s EXCEPT !.stop = "fatal"]
    [] o.k = "newseq" -> [s EXCEPT !.stop = "end"]
    [] OTHER -> s   \* unknown substreams, undecodable, reserved and redundant OBUs

(* --- rendering --- *)
\* which substream and channel of an element each channel of its layout comes from
Place(lay) == CASE lay = "mono" -> <<<<1, 1>>>>
                [] lay = "stereo" -> <<<<1, 1>>, <<1, 2>>>>
                [] lay = "5.1" -> <<<<1, 1>>, <<1, 2>>, <<3, 1>>, <<4, 1>>, <<2, 1>>, <<2, 2>>>>
                [] lay = "7.1" -> <<<<1, 1>>, <<1, 2>>, <<4, 1>>, <<5, 1>>, <<2, 1>>, <<2, 2>>, <<3, 1>>, <<3, 2>>>>
\* where each output channel comes from when ordered for the platform
Order(lay, ord) == IF ord = "android" /\ lay = "7.1" THEN <<1, 2, 3, 4, 7, 8, 5, 6>> ELSE [i \in 1..Len(Place(lay)) |-> i]
Muted(cfg, u, e) == e = cfg.gel /\ Len(u.gain) > 0 /\ u.gain[Len(u.gain)].mute
\* the sum of the elements of the mix for one output channel and tick, in steps of the coded samples
RECURSIVE SumAt(_, _, _, _, _)
SumAt(cfg, u, c, t, j) ==
  IF j = 0 THEN 0 ELSE
  LET e == cfg.rel[j]
      p == Place(cfg.els[e].lay)[Order(cfg.els[e].lay, cfg.ord)[c]]
      o == u.fr[cfg.els[e].subs[p[1]]]
  IN (IF Muted(cfg, u, e) THEN 0 ELSE o.x[p[2]][TrimS(cfg, o) + t]) + SumAt(cfg, u, c, t, j - 1)
Ticks(cfg, u) == LET o == u.fr[cfg.els[cfg.rel[1]].subs[1]] IN cfg.fs - TrimS(cfg, o) - TrimE(cfg, o)
Chans(cfg) == Len(Place(cfg.els[cfg.rel[1]].lay))
\* the samples are coded with 24 bits; the output has 16 or 32 and stops at full scale
Out(cfg, v) == IF v >= 8388608 THEN (IF cfg.bits = 16 THEN 32767 ELSE 2147483647)
               ELSE IF v < -8388608 THEN (IF cfg.bits = 16 THEN -32768 ELSE -2147483647 - 1)
               ELSE IF cfg.bits = 16 THEN v \div 256 ELSE v * 256
AnyMuted(cfg, u) == \E j \in 1..Len(cfg.rel) : Muted(cfg, u, cfg.rel[j])
Bytes(cfg, u) == Ticks(cfg, u) * Chans(cfg) * (cfg.bits \div 8)
SamplesOk(cfg, u, x) ==
  LET nt == Ticks(cfg, u) nc == Chans(cfg) tol == IF AnyMuted(cfg, u) THEN (IF cfg.bits = 16 THEN 1 ELSE 1024) ELSE 0 IN
  /\ Len(x) = nt * nc
  /\ \A t \in 1..nt : \A c \in 1..nc :
       LET w == Out(cfg, SumAt(cfg, u, c, t, Len(cfg.rel))) y == x[(t - 1) * nc + c] IN IF tol = 0 THEN y = w ELSE y - w >= 0 /\ y - w <= tol

(* --- calls ---
   d: sc (what was read), handed (units handed out), pend (a unit is ready) *)
\* what decoding the next unit may lead to: the new state and whether it failed
Next1(cfg, d, eos) ==
  LET i == d.handed + 1
      c == TLCEval(IF eos /\ Len(d.sc.units) < i /\ d.sc.stop # "fatal" THEN Close(cfg, d.sc) ELSE d.sc)
      n == Len(c.units)
      ready == [s |-> [d EXCEPT !.sc = c, !.pend = TRUE], ok |-> TRUE]
      failed == [s |-> [d EXCEPT !.sc = c, !.dead = TRUE], ok |-> FALSE]
      none == [s |-> [d EXCEPT !.sc = c], ok |-> TRUE]
  IN IF n >= i THEN {IF c.units[i].bad THEN failed ELSE ready}
     ELSE {IF c.stop = "fatal" THEN failed ELSE none}
Unit(d, i) == d.sc.units[i].u
=============================================================================
