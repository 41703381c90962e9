-------------------------- MODULE DescriptorsModel --------------------------
(* The reader of Descriptors.tla, given every short sequence of OBUs one byte
   at a time, against what is meant: what it reports is a matter of the sequence
   alone once enough of it is there, and nothing before. *)
EXTENDS Descriptors
CONSTANTS MaxObus
VARIABLES obus, n
K(k, r, ok, id, ref) == [k |-> k, r |-> r, ok |-> ok, id |-> id, ref |-> ref, refs |-> <<ref>>, p |-> 1, a |-> 1]
Kinds == {K("hdr", FALSE, TRUE, 0, 0), K("hdr", TRUE, TRUE, 0, 0), K("hdr", FALSE, FALSE, 0, 0),
          K("cc", FALSE, TRUE, 1, 0), K("cc", FALSE, TRUE, 2, 0), K("cc", FALSE, FALSE, 1, 0),
          K("ae", FALSE, TRUE, 1, 1), K("ae", FALSE, TRUE, 1, 2), K("mix", FALSE, TRUE, 1, 1),
          K("skip", FALSE, TRUE, 0, 0), K("tu", FALSE, TRUE, 0, 0), K("bad", FALSE, TRUE, 0, 0)}
Size == 3
Placed(s) == [i \in 1..Len(s) |-> s[i] @@ [tag |-> i, at |-> Size * (i - 1), need |-> Size * (i - 1) + 2, end |-> Size * i]]
Init == obus \in {Placed(s) : s \in UNION {[1..m -> Kinds] : m \in 0..MaxObus}} /\ n = 0
Next == n < Size * Len(obus) /\ n' = n + 1 /\ UNCHANGED obus
Spec == Init /\ [][Next]_<<obus, n>>

L == Len(obus)
\* i opens a new sequence: a header that is its own, after one which is its own
Opens(i) == obus[i].k = "hdr" /\ ~obus[i].r /\ \E j \in 1..(i - 1) : obus[j].k = "hdr" /\ ~obus[j].r
              /\ \A m \in (j + 1)..(i - 1) : obus[m].k # "hdr"
Stops(i) == obus[i].k = "tu" \/ Opens(i)
\* i makes the whole illegal
Spoils(i) == \/ obus[i].k = "bad"
             \/ obus[i].k = "hdr" /\ ~obus[i].ok /\ ~Opens(i)
             \/ i = 1 /\ obus[i].k # "hdr"
First(P(_)) == IF \E i \in 1..L : P(i) THEN CHOOSE i \in 1..L : P(i) /\ \A j \in 1..(i - 1) : ~P(j) ELSE L + 1
StopAt == First(Stops)
SpoilAt == First(Spoils)
\* where the reader knows
Known(i) == IF obus[i].k = "tu" THEN obus[i].need ELSE obus[i].end
Verdict == LET e == IF SpoilAt <= StopAt THEN SpoilAt ELSE StopAt IN
           IF e > L THEN "more" ELSE IF n < Known(e) THEN "more" ELSE IF SpoilAt <= StopAt THEN "bad" ELSE "ok"
\* what is known of the OBUs before e
Ccs(e) == {i \in 1..(e - 1) : obus[i].k = "cc" /\ obus[i].ok /\ \A j \in 1..(i - 1) : ~(obus[j].k = "cc" /\ obus[j].ok /\ obus[j].id = obus[i].id)}
CcBefore(i, id) == \E c \in Ccs(i) : obus[c].id = id
Aes(e) == {i \in 1..(e - 1) : obus[i].k = "ae" /\ CcBefore(i, obus[i].ref)
             /\ \A j \in 1..(i - 1) : ~(obus[j].k = "ae" /\ obus[j].id = obus[i].id /\ CcBefore(j, obus[j].ref))}
Mixes(e) == {i \in 1..(e - 1) : obus[i].k = "mix" /\ \A r \in 1..Len(obus[i].refs) : \E a \in Aes(i) : obus[a].id = obus[i].refs[r]}
Tags(s) == {s[i].tag : i \in 1..Len(s)}
Holds(d, e) == Tags(d.cc) = Ccs(e) /\ Len(d.cc) = Cardinality(Ccs(e)) /\ Tags(d.ae) = Aes(e) /\ Len(d.ae) = Cardinality(Aes(e))
               /\ Tags(d.mix) = Mixes(e) /\ d.h # << >>
Open == Parse(obus, n, FALSE)
Meant == /\ Open.st = Verdict
         /\ (Open.st = "ok" => Open.pos = obus[StopAt].at /\ Holds(Open.d, StopAt))
\* with all of it said to be there: legal exactly when n ends an OBU and nothing before is illegal or stops
Whole == LET x == Parse(obus, n, TRUE)
             m == n \div Size
             clean == SpoilAt > m /\ StopAt > m /\ m > 0 /\ n % Size = 0
         IN /\ (clean => x.st = "ok" /\ x.pos = n /\ Holds(x.d, m + 1))
            /\ (x.st = "ok" => x.pos % Size = 0 /\ x.pos <= n /\ (x.pos = n \/ Opens((x.pos \div Size) + 1)))
\* a verdict stands, however much more comes
Stands == n > 0 => LET b == Parse(obus, n - 1, FALSE) IN b.st # "more" => b = Open
=============================================================================
