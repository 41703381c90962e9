----------------------------- MODULE SelectModel -----------------------------
(* Every pair of mixes of up to two sub-mixes, and every request. *)
EXTENDS Select
CONSTANTS Lays, Subs2
VARIABLES mixes, want, id
Last0 == (1 :> 1) @@ (2 :> 9)
LaySeqs == {<<a>> : a \in Lays} \cup {<<a, b>> : a \in Lays, b \in Lays}
Els == {<<[id |-> e, hp |-> h]>> : e \in {1, 2, 3}, h \in {0, 1}} \cup {<<[id |-> 1, hp |-> 0], [id |-> 2, hp |-> 0]>>}
SubMixes == {[els |-> e, lays |-> l] : e \in Els, l \in LaySeqs}
Mixes(k) == {[id |-> k, subs |-> <<s>>] : s \in SubMixes}
            \cup (IF Subs2 THEN {[id |-> k, subs |-> <<s, [els |-> <<[id |-> 3, hp |-> 0]>>, lays |-> l]>>] : s \in SubMixes, l \in LaySeqs} ELSE {})
Init == mixes = << >> /\ want \in {<< >>} \cup {<<l>> : l \in Lays \cup {205}} /\ id \in {<< >>, <<2>>, <<7>>}
Next == Len(mixes) < 2 /\ UNCHANGED <<want, id>> /\ \E m \in Mixes(Len(mixes) + 1) : mixes' = Append(mixes, Read(m))
Spec == Init /\ [][Next]_<<mixes, want, id>>
R == Select(mixes, Last0, want, id)
Some == mixes # << >>
\* the requested mix wins, the requested layout is what comes out, and it is one the mix then has
ById == Some /\ id # << >> /\ (\E k \in 1..Len(mixes) : mixes[k].id = id[1]) => mixes[R.k].id = id[1]
AsWanted == Some => (want # << >> => R.layout = want[1]) /\ After(mixes, R)[R.k].subs[R.sub].lays[R.lay] = R.layout
First == Some /\ want = << >> => R.sub = 1 /\ R.lay = 1 /\ (id = << >> => R.k = 1)
\* only the selected mix changes, and only when it lacks the layout
Untouched == Some => \A k \in 1..Len(mixes) : k # R.k \/ want = << >> \/ Has(mixes[k], want[1]) => After(mixes, R)[k] = mixes[k]
\* a mix that is not selected has no say
Irrelevant == Len(mixes) = 2 => Select(<<mixes[R.k]>>, Last0, want, id) = [R EXCEPT !.k = 1]
\* asking again gives the same
Stable == Some => LET a == Select(After(mixes, R), Last0, want, id) IN
                  want # <<Stereo>> /\ want # <<Binaural>> => a = R
\* a mix with the layout is preferred to one without
Prefers == Some /\ want # << >> /\ want[1] # Stereo /\ id = << >> /\ (\E k \in 1..Len(mixes) : Has(mixes[k], want[1]) /\ ~Lone(mixes[k], Last0, 9)) =>
             Has(mixes[R.k], want[1]) \/ Lone(mixes[R.k], Last0, 9)
=============================================================================
