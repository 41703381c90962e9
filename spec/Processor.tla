----------------------------- MODULE Processor -----------------------------
(* The contract of a sample processor, for every order of calls, and the pure
   arrangement of samples (trimming, ordering, interleaving).
   A frame is a sequence of channels, a channel a sequence of samples. *)
EXTENDS Integers, Sequences
Kinds == {"copy", "delay", "hold", "wav"}

(* cfg: [kind, nch, max, delay].
   s: phase   "taking" | "flushed"
      file    "open" | "closed" | "removed" (only for "wav")
      queue   per channel, the samples accepted and not yet given out
      written the samples written to the file, in order
      out     the valid output of the last accepted call, or "unspecified" *)
Empty(n) == [c \in 1..n |-> << >>]
Start(cfg) == [phase |-> "taking", file |-> IF cfg.kind = "wav" THEN "open" ELSE "none",
               queue |-> Empty(cfg.nch), written |-> << >>, out |-> [any |-> FALSE, v |-> Empty(cfg.nch)]]
Known(v) == [any |-> FALSE, v |-> v]
Unspecified == [any |-> TRUE, v |-> << >>]
Ticks(f) == IF Len(f) = 0 THEN 0 ELSE Len(f[1])
Rect(f) == \A c \in 1..Len(f) : Len(f[c]) = Ticks(f)
GoodFrame(cfg, f) == Len(f) = cfg.nch /\ Rect(f) /\ Ticks(f) <= cfg.max
Join(q, f) == [c \in 1..Len(q) |-> q[c] \o f[c]]
Head_(q, n) == [c \in 1..Len(q) |-> SubSeq(q[c], 1, n)]
Tail_(q, n) == [c \in 1..Len(q) |-> SubSeq(q[c], n + 1, Len(q[c]))]
Max0(x) == IF x > 0 THEN x ELSE 0
Interleave(f) == [i \in 1..(Len(f) * Ticks(f)) |-> f[((i - 1) % Len(f)) + 1][((i - 1) \div Len(f)) + 1]]
\* bad: does the frame hold a sample that cannot be represented (not a number) ?
Push(cfg, s, f, bad) ==
  IF s.phase = "flushed" THEN [status |-> "FAILED_PRECONDITION", reached |-> FALSE, s |-> s]
  ELSE IF ~GoodFrame(cfg, f) THEN [status |-> "INVALID", reached |-> FALSE, s |-> [s EXCEPT !.out = Unspecified]]
  ELSE CASE cfg.kind = "copy" -> [status |-> "OK", reached |-> TRUE, s |-> [s EXCEPT !.out = Known(f)]]
         [] cfg.kind = "hold" -> [status |-> "OK", reached |-> TRUE,
                                  s |-> [s EXCEPT !.out = Known(Empty(cfg.nch)), !.queue = Join(@, f)]]
         [] cfg.kind = "delay" -> LET q == Join(s.queue, f)
                                      n == Max0(Ticks(q) - cfg.delay)
                                  IN [status |-> "OK", reached |-> TRUE,
                                      s |-> [s EXCEPT !.out = Known(Head_(q, n)), !.queue = Tail_(q, n)]]
         [] OTHER -> IF bad THEN [status |-> "INVALID", reached |-> TRUE, s |-> [s EXCEPT !.out = Known(Empty(cfg.nch))]]
                     ELSE IF s.file # "open" THEN [status |-> "FAILED_PRECONDITION", reached |-> TRUE, s |-> [s EXCEPT !.out = Known(Empty(cfg.nch))]]
                     ELSE [status |-> "OK", reached |-> TRUE,
                           s |-> [s EXCEPT !.out = Known(Empty(cfg.nch)), !.written = @ \o Interleave(f)]]
Flush(cfg, s) ==
  IF s.phase = "flushed" THEN [status |-> "FAILED_PRECONDITION", reached |-> FALSE, s |-> s]
  ELSE [status |-> "OK", reached |-> TRUE,
        s |-> [s EXCEPT !.phase = "flushed", !.out = Known(s.queue), !.queue = Empty(cfg.nch),
                        !.file = IF @ = "open" THEN "closed" ELSE @]]
Abort(s) == [s EXCEPT !.file = "removed", !.written = << >>]

(* --- arranging the samples of a frame ------------------------------------
   have: labels present (a function label -> channel). *)
HasDemixed == {"R2", "L3", "R3", "L5", "R5", "Ls5", "Rs5", "Ltf2", "Rtf2", "Ltb4", "Rtb4", "L7", "R7", "Lrs7", "Rrs7"}
Find(have, lab) == IF lab \in DOMAIN have THEN [ok |-> TRUE, v |-> have[lab]]
                   ELSE IF lab \in HasDemixed /\ ("D" \o lab) \in DOMAIN have THEN [ok |-> TRUE, v |-> have["D" \o lab]]
                   ELSE [ok |-> FALSE, v |-> << >>]
\* ordered: labels, "Omitted" standing for silence taken from `silence`.
\* start, end: numbers of ticks to drop; both may be larger than the frame.
Arrange(have, ordered, silence, start, end) ==
  LET real == SelectSeq(ordered, LAMBDA x : x # "Omitted")
      n == Len(Find(have, real[1]).v)
      bad == [ok |-> FALSE, v |-> << >>, n |-> 0]
  IN IF real = << >> THEN bad
     ELSE IF \E i \in 1..Len(real) : ~Find(have, real[i]).ok THEN bad
     ELSE IF \E i \in 1..Len(real) : Len(Find(have, real[i]).v) # n THEN bad
     ELSE IF Len(silence) < n \/ start > n \/ end > n \/ start + end > n THEN bad
     ELSE [ok |-> TRUE, n |-> n - start - end,
           v |-> [i \in 1..Len(ordered) |->
                    SubSeq(IF ordered[i] = "Omitted" THEN silence ELSE Find(have, ordered[i]).v, start + 1, n - end)]]
\* every label there, as it is, and of one length
Present(have, labels) ==
  IF \A i \in 1..Len(labels) : labels[i] \in DOMAIN have /\ Len(have[labels[i]]) = Len(have[labels[1]])
  THEN [ok |-> TRUE, n |-> IF labels = << >> THEN 0 ELSE Len(have[labels[1]])]
  ELSE [ok |-> FALSE, n |-> 0]
Deinterleave(s, n) == [c \in 1..n |-> [t \in 1..(Len(s) \div n) |-> s[(t - 1) * n + c]]]
=============================================================================
