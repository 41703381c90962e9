--------------------------- MODULE ProbeJsonModel ---------------------------
(* Every small document is read back as written, however it is spaced, and no
   text that lacks a character of it is read as the same document. *)
EXTENDS JsonText
CONSTANT Depth
VARIABLES doc, sp
Chars == {"a", "\"", "\\", "x0a", "x01", "xc3"}
Strs == {[k |-> "str", s |-> s] : s \in {<< >>} \cup {<<c>> : c \in Chars} \cup {<<c, d>> : c, d \in {"\\", "\"", "x01"}}}
Nums == {[k |-> "num", neg |-> n, int |-> i, frac |-> << >>, exp |-> << >>, eneg |-> FALSE] : n \in BOOLEAN, i \in {<<"0">>, <<"1", "0">>}}
Leaf == Strs \cup Nums \cup {[k |-> "bool", b |-> b] : b \in BOOLEAN}
Some == {[k |-> "str", s |-> <<"\"">>], [k |-> "bool", b |-> TRUE], [k |-> "arr", a |-> << >>], [k |-> "obj", m |-> << >>]} \cup Nums
Nest(S) == {[k |-> "arr", a |-> a] : a \in {<< >>} \cup {<<x>> : x \in S} \cup {<<x, y>> : x \in S, y \in Some}}
           \cup {[k |-> "obj", m |-> m] : m \in {<< >>} \cup {<<[key |-> "a", val |-> x]>> : x \in S}
                 \cup {<<[key |-> "a", val |-> x], [key |-> "b", val |-> y]>> : x \in Some, y \in S}}
RECURSIVE Docs(_)
Docs(d) == IF d = 0 THEN Leaf ELSE LET S == Docs(d - 1) IN Leaf \cup Nest(S)
Init == doc \in Docs(Depth) /\ sp \in {<< >>, <<" ">>, <<"x0a", " ">>}
Next == UNCHANGED <<doc, sp>>
Spec == Init /\ [][Next]_<<doc, sp>>
Text == WriteV(doc, sp)
RoundTrip == Document(Text) = doc
Without(i) == SubSeq(Text, 1, i - 1) \o SubSeq(Text, i + 1, Len(Text))
NoLoss == \A i \in 1..Len(Text) : Text[i] \in Space \/ Document(Without(i)) # doc
NoMore == \A c \in {"a", ",", "}", "]", "\"", "0"} : Document(Append(Text, c)) # doc
=============================================================================
