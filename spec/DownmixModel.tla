---------------------------- MODULE DownmixModel ----------------------------
(* Every chain of up to three layouts, a few signals: what is coded gives the
   largest layout back. *)
EXTENDS Downmix, SequencesExt, FiniteSets
L == INSTANCE Layers
CONSTANTS Bases, Modes
Rows == <<<<1000, 1000, 707, 707>>, <<707, 707, 707, 707>>, <<1000, 866, 866, 866>>>>
Up(i, j) == LET a == L!Layout[i] b == L!Layout[j] IN i # j /\ a[1] <= b[1] /\ a[2] <= b[2] /\ a[3] <= b[3] /\ a # b
Chains == {<<i>> : i \in 1..9} \cup {<<i, j>> : i \in 1..9, j \in 1..9} \cup {<<i, j, k>> : i \in 1..9, j \in 1..9, k \in 1..9}
Rising(c) == \A k \in 2..Len(c) : Up(c[k - 1], c[k])
Adds(c, k) == L!Adds(IF k = 1 THEN L!None ELSE L!Layout[c[k - 1]], L!Layout[c[k]])
CodedOf(c) == UNION {ToSet(Adds(c, k).two \o Adds(c, k).one) : k \in 1..Len(c)}
TopOf(c) == L!ChannelsOf(L!Layout[Last(c)])
VARIABLES chain, row, w, base
Init == /\ chain \in {c \in Chains : Rising(c)} /\ row \in Modes /\ w \in {0, 1038, 5000} /\ base \in Bases
Next == UNCHANGED <<chain, row, w, base>>
Spec == Init /\ [][Next]_<<chain, row, w, base>>
\* a different value for every channel
Names == <<"M", "L2", "R2", "L3", "R3", "C", "LFE", "L5", "R5", "Ls5", "Rs5", "L7", "R7", "Lss7", "Rss7", "Lrs7", "Rrs7",
           "Ltf3", "Rtf3", "Ltf2", "Rtf2", "Ltf4", "Rtf4", "Ltb4", "Rtb4">>
Place(x) == CHOOSE k \in 1..Len(Names) : Names[k] = x
Signal(top) == [x \in top |-> ((Place(x) * base) % 200001) - 100000]
Abs(x) == IF x < 0 THEN -x ELSE x
Same == LET top == TopOf(chain) coded == CodedOf(chain) s == Signal(top)
            m == [x \in coded |-> Of(s, Rows[row], w, x)]
        IN \A x \in top : Abs(Back(m, Rows[row], w, x) - s[x]) <= 20
\* as many channels are coded as there are
Tight == Cardinality(CodedOf(chain)) = Cardinality(TopOf(chain))
Passed == \A x \in CodedOf(chain) \cap TopOf(chain) : Of(Signal(TopOf(chain)), Rows[row], w, x) = Signal(TopOf(chain))[x]
=============================================================================
