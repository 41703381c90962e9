---------------------------- MODULE DecoderModel ----------------------------
(* A design of the decoder: bytes that were pushed wait in a buffer; a unit is
   assembled in cur, what belongs to the unit after it in next; one rendered
   unit waits in a slot and nothing is read while it does. Every short stream,
   every way to cut it and every order of calls, against the sequence of units
   which reading the whole stream gives. *)
EXTENDS Decoder
CONSTANTS MaxObus, Whole   \* Whole: eos at every call, as after CreateFromDescriptors
VARIABLES obus, at, st, out, eos, tight
vars == <<obus, at, st, out, eos, tight>>
Cfg == [fs |-> 1, els |-> <<[lay |-> "mono", subs |-> <<1>>], [lay |-> "mono", subs |-> <<2>>]>>, rel |-> <<1, 2>>, gel |-> 1,
        tb |-> TRUE, te |-> TRUE]
Frm(s, e) == [k |-> "frame", sub |-> s, ts |-> 0, te |-> e]
Kinds == {Frm(1, 0), Frm(2, 0), Frm(2, 2), [k |-> "td"], [k |-> "pb", dur |-> 1, mute |-> TRUE], [k |-> "fatal"], [k |-> "newseq"]}

Empty == [t |-> -1, fr |-> << >>, gain |-> << >>, td |-> FALSE]
S0 == [cur |-> Empty, next |-> Empty, clk |-> [s \in {1, 2} |-> 0], pclk |-> 0, slot |-> << >>, dead |-> FALSE, over |-> FALSE, read |-> 0]
AddTo(s, t, f(_)) == IF s.cur.t < 0 \/ s.cur.t = t THEN [s EXCEPT !.cur = [f(s.cur) EXCEPT !.t = t]]
                     ELSE [s EXCEPT !.next = [f(s.next) EXCEPT !.t = t]]
Render(s, u) == IF DOMAIN u.fr = {} THEN s
                ELSE IF Good(Cfg, u) THEN [s EXCEPT !.slot = <<u>>] ELSE [s EXCEPT !.dead = TRUE]
Emit(s) == [Render(s, s.cur) EXCEPT !.cur = s.next, !.next = Empty]
\* reads one OBU
Read1(s, o) ==
  LET r == [s EXCEPT !.read = @ + 1] IN
  CASE o.k = "frame" -> LET a == AddTo(r, s.clk[o.sub], LAMBDA u : [u EXCEPT !.fr = (o.sub :> o) @@ u.fr])
                            b == [a EXCEPT !.clk[o.sub] = @ + 1]
                        IN IF b.next.t >= 0 THEN Emit(b) ELSE b
    [] o.k = "pb" /\ s.clk[1] = s.clk[2] ->
         LET q == [r EXCEPT !.pclk = @ + o.dur]
             a == IF s.pclk = s.clk[1] THEN AddTo(q, s.clk[1], LAMBDA u : [u EXCEPT !.gain = Append(u.gain, o)]) ELSE q
         IN IF a.next.t >= 0 THEN Emit(a) ELSE a
    [] o.k = "td" -> IF s.cur.td /\ s.cur.t >= 0 THEN Emit(r) ELSE [r EXCEPT !.cur.td = TRUE]
    [] o.k = "fatal" -> [r EXCEPT !.dead = TRUE]
    [] o.k = "newseq" -> [r EXCEPT !.over = TRUE, !.read = @ - 1]
    [] OTHER -> r
\* reads until there is something in the slot, or nothing left
RECURSIVE Pump(_, _, _)
Pump(s, n, e) ==
  IF s.slot # << >> \/ s.dead THEN s
  ELSE IF s.over \/ s.read = n THEN (IF e /\ s.cur.t >= 0 THEN TLCEval(Emit(s)) ELSE s)
  ELSE Pump(TLCEval(Read1(s, obus[s.read + 1])), n, e)
Init == obus \in UNION {[1..n -> Kinds] : n \in 0..MaxObus} /\ at = 0 /\ st = S0 /\ out = << >> /\ eos = FALSE /\ tight = FALSE
Push(n) == /\ ~eos /\ ~st.dead /\ at + n <= Len(obus) /\ at' = at + n
           /\ st' = TLCEval(Pump(st, at', Whole)) /\ UNCHANGED <<obus, out, eos, tight>>
Get == /\ st.slot # << >> /\ ~st.dead /\ out' = out \o st.slot
       /\ st' = TLCEval(Pump([st EXCEPT !.slot = << >>], at, eos \/ Whole)) /\ tight' = FALSE /\ UNCHANGED <<obus, at, eos>>
\* too little room: nothing may change
GetTight == st.slot # << >> /\ ~tight /\ tight' = TRUE /\ UNCHANGED <<obus, at, st, out, eos>>
Signal == ~eos /\ ~st.dead /\ eos' = TRUE /\ st' = TLCEval(Pump(st, at, TRUE)) /\ UNCHANGED <<obus, at, out, tight>>
Next == (\E n \in 0..2 : Push(n)) \/ Get \/ GetTight \/ Signal
Spec == Init /\ [][Next]_vars

Key(u) == [t |-> u.t, fr |-> u.fr, gain |-> u.gain]
Sc(n) == FoldLeft(LAMBDA s, o : TLCEval(Step(Cfg, s, o)), Scan0(Cfg), SubSeq(obus, 1, n))
Units(s) == [i \in 1..Len(s.units) |-> Key(s.units[i].u)]
Handed == [i \in 1..Len(out \o st.slot) |-> Key((out \o st.slot)[i])]
\* only units of what was pushed, in order, each at most once, none that is not whole
InOrder == ~Whole => LET c == Sc(at) d == Close(Cfg, c) IN IsPrefix(Handed, Units(IF eos THEN d ELSE c))
\* nothing that is ready is held back, however the bytes were cut
NotHeld == ~Whole /\ st.slot = << >> /\ ~st.dead /\ ~eos => Len(out) = Len(Sc(at).units)
Drained == ~Whole /\ eos /\ st.slot = << >> /\ ~st.dead => Handed = Units(Close(Cfg, Sc(at)))
\* a failure is never made up: some unit is bad, or the stream is
Blame == st.dead => LET c == Close(Cfg, Sc(at)) IN c.stop = "fatal" \/ (\E i \in 1..Len(c.units) : c.units[i].bad) \/ Whole
GoodOnly == \A i \in 1..Len(out) : Good(Cfg, out[i])
=============================================================================
