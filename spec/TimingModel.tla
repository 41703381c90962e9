----------------------------- MODULE TimingModel -----------------------------
(* Every interleaving of frames and blocks of a few streams. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
CONSTANTS MaxSteps, Durs
Add(a, b) == a + b
INSTANCE Timing WITH Plus <- Add, Zero <- 0
Els == <<<<1, 2>>, <<3>>>>
Params == <<[id |-> 1, rate |-> 1], [id |-> 2, rate |-> 1]>>
ASSUME Create(<<<<1, 2>>, <<2>>>>, Params) = << >> /\ Create(Els, <<[id |-> 1, rate |-> 0]>>) = << >>
VARIABLES c, log \* log: [kind, id, dur, start, end, ok]
Init == c = Create(Els, Params)[1] /\ log = << >>
Do(kind, id, dur, r) == /\ c' = r.c
                        /\ log' = Append(log, [kind |-> kind, id |-> id, dur |-> dur, ok |-> r.ok,
                                               start |-> IF "start" \in DOMAIN r THEN r.start ELSE -1, end |-> IF "end" \in DOMAIN r THEN r.end ELSE -1])
Next == Len(log) < MaxSteps /\ \E d \in Durs :
          \/ \E s \in 1..4 : Do("a", s, d, Frame(c, s, d))
          \/ \E p \in 1..3 : Common(c).t # << >> /\ Do("p", p, d, Block(c, p, Common(c).t[1], d))
Spec == Init /\ [][Next]_<<c, log>>
Of(kind, id) == SelectSeq(log, LAMBDA x : x.kind = kind /\ x.id = id)
\* each stream's frames tile its own time line, whatever the others do
Tiled == \A kind \in {"a", "p"} : \A id \in 1..4 : LET s == Of(kind, id) IN
           \A k \in 1..Len(s) : IF s[k].end = -1 THEN ~s[k].ok
                                ELSE s[k].end - s[k].start = s[k].dur /\ s[k].start = (IF k = 1 THEN 0 ELSE s[k - 1].end)
Known == \A k \in 1..Len(log) : log[k].kind = "a" => log[k].ok = (log[k].id \in 1..3)
\* an accepted block starts at a time all audio had reached when it came
NoGaps == \A k \in 1..Len(log) : log[k].kind = "p" /\ log[k].ok =>
            \A s \in 1..3 : FoldLeft(LAMBDA a, x : a + x.dur, 0, SelectSeq(SubSeq(log, 1, k), LAMBDA x : x.kind = "a" /\ x.id = s)) = log[k].start
=============================================================================
