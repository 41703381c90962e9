--------------------------- MODULE SequencerModel ---------------------------
(* Every order of calls on a sequencer, with descriptors and units of a few
   kinds, an output that refuses any call, with and without delayed descriptors. *)
EXTENDS Sequencer
CONSTANTS Steps, Faults
VARIABLES s, log, taken, file, n, last
vars == <<s, log, taken, file, n, last>>
NoBytes == << >>
O(b) == [w |-> TRUE, b |-> b]
CC(id, rate, b) == [w |-> TRUE, b |-> b, id |-> id, spf |-> 8, rate |-> rate, depth |-> 16]
D(hdr, cc) == [hdr |-> O(hdr), meta |-> << >>, cc |-> cc, el |-> << >>, mix |-> << >>, arbs |-> <<[w |-> TRUE, b |-> <<9>>, hook |-> 3]>>]
Descrs == {D(<<1>>, <<CC(2, 48, <<22>>), CC(1, 48, <<21>>)>>), D(<<3>>, <<CC(1, 48, <<21>>), CC(2, 48, <<22>>)>>), D(<<1>>, <<CC(1, 44, <<21>>), CC(2, 44, <<22>>)>>),
           D(<<1, 1>>, <<CC(1, 48, <<21>>), CC(2, 48, <<22>>)>>), D(<<1>>, <<CC(1, 48, <<21>>), CC(2, 44, <<22>>)>>)}
F(t0, t1, w) == [el |-> 1, sub |-> 1, start |-> 8, end |-> 16, t0 |-> <<0, t0>>, t1 |-> <<0, t1>>, spf |-> 8, w |-> w, b |-> <<100 + t0 * 10 + t1>>]
Block == [id |-> 4, start |-> 8, end |-> 16, w |-> TRUE, b |-> <<50>>]
Us == {View(<<F(0, 0, TRUE)>>, <<Block>>, << >>), View(<<F(8, 0, TRUE)>>, << >>, << >>), View(<<F(3, 1, TRUE)>>, << >>, << >>), View(<<F(0, 8, TRUE)>>, << >>, << >>), View(<<F(0, 0, FALSE)>>, << >>, << >>)}
Init == \E delay \in BOOLEAN, td \in {<< >>, <<32, 0>>} : s = New(delay, td) /\ log = << >> /\ taken = << >> /\ file = [there |-> FALSE, open |-> FALSE, b |-> << >>] /\ n = 0 /\ last = "new"
Do(r, what, more) == n < Steps /\ s' = r.s /\ log' = log \o r.calls /\ file' = Files(file, r.calls) /\ n' = n + 1 /\ last' = (IF r.ok THEN what ELSE "refused") /\ taken' = (IF r.ok THEN taken \o more ELSE taken)
Next == \E k \in Faults \cup {-1 + 0 * Steps} : \/ \E d \in Descrs : Do(Push(s, d, k), "push", << >>) \/ Do(Update(s, d, k), "end", << >>)
                             \/ \E u \in Us : Do(Unit(s, u, k), "unit", <<u>>)
                             \/ Do(Close(s, k), "end", << >>) \/ Do(Abort(s), "abort", << >>)
Spec == Init /\ [][Next]_vars
Pushes == SelectSeq(log, LAMBDA c : c.c = "unit")
Sent == [k \in 1..Len(Pushes) |-> Pushes[k]]
Kept == [k \in 1..Len(taken) |-> TellUnit(taken[k], s.td)]
Cuts(c) == {k \in 1..Len(log) : log[k].c = c}
\* taken units are passed on in their order; all of them by the end (one more, refused by the output, may be the last)
InTurn == \A k \in 1..Len(Sent) : k <= Len(Kept) => Sent[k] = Kept[k]
AllOut == last = "end" => Sent = Kept
DescrFirst == Sent # << >> => log[1].c = "descr"
OnlyOnce == Cardinality(Cuts("descr")) <= 1 /\ Cardinality(Cuts("final")) <= 1 /\ Cardinality(Cuts("close")) <= 1
NothingAfter == \A j, k \in 1..Len(log) : j < k /\ log[j].c \in {"close", "abort"} => log[k].c = "abort"
Left == file.there => \E d \in Descrs : file.b = DescrBytes(d) \o Cat(Sent)
Gone == (s.st = "closed" /\ Cuts("close") = {}) => ~file.there
Timed == Cuts("abort") = {} => \A k \in Cuts("descr") : s.delay /\ log[k].first # <<0>> => \E j \in 1..Len(Sent) : Sent[j].n # 0 /\ (\A m \in 1..(j - 1) : Sent[m].n = 0)
NeverTwo == ~(last = "end" /\ Len(Sent) > 1 /\ s.delay /\ Cuts("final") # {})
=============================================================================
