------------------------------ MODULE ObuModel ------------------------------
(* Every header over a few values: what is written reads back, every proper
   prefix asks for more data, and peeking agrees with reading. *)
EXTENDS Obu
CONSTANTS Lebs, Exts, Sizes, Modes
L == {<<0, 130>>, <<65535, 65535>>}
X == {<< >>, <<7, 255>>}
N == {<<0, 125>>, <<0, 16381>>, <<31, 65530>>, <<31, 65532>>, <<32, 0>>}
M == {0, 3}
VARIABLES h, n, mode, cut
Hdrs == [type : 0..31, red : BOOLEAN, flag : BOOLEAN, te : Lebs, ts : Lebs, has_ext : BOOLEAN, ext : Exts]
Init == h \in Hdrs /\ n \in Sizes /\ mode \in Modes /\ cut = -1 /\ (~h.has_ext => h.ext = << >>)
ext == IF h.has_ext THEN Len(h.ext) ELSE -1
ok == WOk(h, ext, n, mode)
out == WHeader(h, n, mode)
Next == cut < 0 /\ ok /\ cut' \in 0..(Len(out) - 1) /\ UNCHANGED <<h, n, mode>>
Spec == Init /\ [][Next]_<<h, n, mode, cut>>
Shown == [h EXCEPT !.te = IF Trims(h) THEN h.te ELSE <<0, 0>>, !.ts = IF Trims(h) THEN h.ts ELSE <<0, 0>>]
RoundTrip == (cut < 0 /\ ok) => LET x == RHeader(out, 0) IN x.st = "OK" /\ x.r.h = Shown /\ x.r.n = Small(n) /\ x.p = 8 * Len(out)
Total == (cut < 0 /\ ok) => LET x == Peek(out, 0) IN x.st = "OK" /\ x.r.type = h.type /\ Small(x.r.total) = Len(out) + Small(n) /\ Small(x.r.total) <= MaxObu
Prefix == cut >= 0 => RHeader(SubSeq(out, 1, cut), 0).st = "EXHAUSTED"
Refused == (cut < 0 /\ ~ok /\ Leq2(n, Pair(MaxObu)) /\ LebFits(Pair(Small(n) + After(h, ext, mode)), mode) /\ (Trims(h) => LebFits(h.te, mode) /\ LebFits(h.ts, mode)))
           => RHeader(out, 0).st = "INVALID"
=============================================================================
