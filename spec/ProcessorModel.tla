--------------------------- MODULE ProcessorModel ---------------------------
(* Every order of pushes, flushes and aborts of small frames, good and bad. *)
EXTENDS Processor, TLC
CONSTANTS MaxIn
VARIABLES cfg, s, accepted, given, refusals, ever
vars == <<cfg, s, accepted, given, refusals, ever>>
Cfgs == [kind : Kinds, nch : {1, 2}, max : {2}, delay : {1, 2}]
\* samples are numbered in the order they are offered, so that order shows
Frame(n, t, k) == [c \in 1..n |-> [i \in 1..t |-> 100 * c + k + i]]
Init == cfg \in Cfgs /\ s = Start(cfg) /\ accepted = Empty(cfg.nch) /\ given = Empty(cfg.nch) /\ refusals = 0 /\ ever = FALSE
DoPush(f) == LET r == Push(cfg, s, f, FALSE) IN
             /\ s' = r.s
             /\ accepted' = IF r.status = "OK" THEN Join(accepted, f) ELSE accepted
             /\ given' = IF r.status = "OK" THEN Join(given, r.s.out.v) ELSE given
             /\ refusals' = IF r.status = "OK" THEN refusals ELSE refusals + 1
             /\ UNCHANGED <<cfg, ever>>
Next == /\ refusals < 2
        /\ \/ \E t \in 0..3 : Ticks(accepted) + t <= MaxIn /\ DoPush(Frame(cfg.nch, t, Ticks(accepted)))
           \/ DoPush(Frame(cfg.nch + 1, 1, 50))
           \/ cfg.nch = 2 /\ DoPush(<< <<1>>, <<1, 2>> >>)
           \/ /\ s.phase = "taking" /\ LET r == Flush(cfg, s) IN s' = r.s /\ given' = Join(given, r.s.out.v)
              /\ UNCHANGED <<cfg, accepted, refusals, ever>>
           \/ s.phase = "flushed" /\ Flush(cfg, s).status = "FAILED_PRECONDITION" /\ refusals' = refusals + 1 /\ UNCHANGED <<cfg, s, accepted, given, ever>>
           \/ s.file = "open" /\ s' = Abort(s) /\ ever' = TRUE /\ UNCHANGED <<cfg, accepted, given, refusals>>
Spec == Init /\ [][Next]_vars
\* nothing is lost, duplicated or reordered
Conserve == cfg.kind # "wav" => Join(given, s.queue) = accepted
AllOut == s.phase = "flushed" => Ticks(s.queue) = 0
Delayed == cfg.kind = "delay" /\ s.phase = "taking" => Ticks(s.queue) <= cfg.delay
Written == cfg.kind = "wav" /\ ~ever => s.written = Interleave(accepted)
Removed == ever => s.file = "removed" /\ s.written = << >>
OutShape == ~s.out.any => Len(s.out.v) = cfg.nch /\ Rect(s.out.v)
\* trimming: what is left is the middle, channel by channel
TrimLaw == \A n \in 0..3, st \in 0..4, en \in 0..4 :
             LET ch == [i \in 1..n |-> i]
                 r == Arrange(("L2" :> ch) @@ ("DR2" :> ch), <<"R2", "Omitted", "L2">>, <<0, 0, 0>>, st, en)
             IN IF st + en > n THEN ~r.ok
                ELSE /\ r.ok /\ \A c \in {1, 3} : [i \in 1..st |-> i] \o r.v[c] \o [i \in 1..en |-> n - en + i] = ch
                     /\ r.v[2] = [i \in 1..(n - st - en) |-> 0]
InterleaveLaw == \A n \in 1..3, t \in 0..2 : Deinterleave(Interleave(Frame(n, t, 0)), n) = Frame(n, t, 0)
ASSUME TrimLaw /\ InterleaveLaw
=============================================================================
