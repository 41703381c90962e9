---------------------------- MODULE ProfilesModel ----------------------------
(* Mixes grow by elements of a few kinds, in either of two sub-mixes. *)
EXTENDS Profiles
CONSTANTS MaxEls, Hps
VARIABLES subs, els
C == <<[frame |-> 2, rate |-> 8, lpcm |-> TRUE], [frame |-> 2, rate |-> 8, lpcm |-> FALSE], [frame |-> 2, rate |-> 8, lpcm |-> FALSE], [frame |-> 1, rate |-> 8, lpcm |-> TRUE]>>
Kinds == {[t |-> "channels", layers |-> <<[layout |-> l, x |-> x]>>] : l \in {1, 10}, x \in {-1}}
         \cup {[t |-> "channels", layers |-> <<[layout |-> 15, x |-> x]>>] : x \in {8, 13, 20}} \cup {[t |-> "objects", count |-> 1]}
Init == subs = << >> /\ els = << >>
Put(x) == \/ Len(subs) > 0 /\ subs' = [subs EXCEPT ![Len(subs)] = Append(@, x)]
          \/ Len(subs) < 3 /\ subs' = Append(subs, <<x>>)
Next == LET n == Cardinality(DOMAIN els) IN
        n < MaxEls /\ \E k \in Kinds, ch \in {1, 8, 16}, c \in 0..3, hp \in Hps :
          els' = els @@ (n :> [fits |-> Element(k), ch |-> ch, codec |-> c]) /\ Put([id |-> n, hp |-> hp])
Spec == Init /\ [][Next]_<<subs, els>>
M == Mix(els, C, subs)
\* what a small profile allows, the larger ones of its family allow too
Nested == subs # << >> => (0 \in M => 1 \in M) /\ (1 \in M => 2 \in M) /\ (3 \in M <=> 4 \in M) /\ (3 \in M => 5 \in M) /\ (1 \in M => 3 \in M)
\* a mix is in no profile that one of its elements is not in
Contained == subs # << >> => M \subseteq {p \in Profiles : \A i \in DOMAIN els : p \in els[i].fits}
\* more elements never fit better
Narrows == [][subs # << >> /\ Len(subs') > 0 => Mix(els', C, subs') \subseteq M]_<<subs, els>>
=============================================================================
