------------------------------ MODULE LpcmModel ------------------------------
(* Encoding and decoding of every small frame; every order of encoder calls. *)
EXTENDS Lpcm
CONSTANTS MaxFrames, Spf
VARIABLES in, enc, out, given
vars == <<in, enc, out, given>>
Bytes == {0, BB - 1}
Smp == [1..W -> Bytes]
Frames(n) == [1..n -> [1..Spf -> Smp]]
Cfgs == {[size |-> 16, flags |-> b, rate |-> 48000] : b \in {0, 1}} \cup {[size |-> 24, flags |-> b, rate |-> 48000] : b \in {0, 1}}
Init == /\ in \in {[c |-> c, n |-> n] : c \in Cfgs, n \in {1, 2}} /\ enc = NewEnc /\ out = << >> /\ given = << >>
Encode == \E f \in Frames(in.n) :
            LET r == Enc(in.c, in.n, Spf, enc, Len(given) + 1, f) IN
            /\ Len(given) < MaxFrames /\ enc' = r.st
            /\ given' = (IF r.ok THEN Append(given, f) ELSE given) /\ UNCHANGED <<in, out>>
PopF == LET r == Pop(enc) IN enc' = r.st /\ out' = out \o r.got /\ UNCHANGED <<in, given>>
Fin == enc' = Finalize(enc) /\ UNCHANGED <<in, out, given>>
Next == Encode \/ PopF \/ Fin
Spec == Init /\ [][Next]_vars
\* what comes out is what went in, in order, to the precision of the configuration
All == out \o enc.pending
Lossless == /\ Len(All) = Len(given)
            /\ \A i \in 1..Len(All) : /\ All[i].id = i /\ DecOK(All[i].bytes, in.c, in.n, Spf)
                                      /\ DecodeSeq(All[i].bytes, K(in.c), in.n, Big(in.c)) = KeepAll(given[i], K(in.c))
Order == \A i \in 1..Len(out) : out[i].id = i
Ends == Finished(enc) => Len(out) = Len(given)
NoneLater == enc.finished => \A f \in Frames(in.n) : ~Enc(in.c, in.n, Spf, enc, 0, f).ok
=============================================================================
