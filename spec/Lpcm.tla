-------------------------------- MODULE Lpcm --------------------------------
(* The LPCM codec. A sample is the little-endian sequence of its W bytes,
   left-justified. A frame is a sequence of channels of samples. *)
EXTENDS Numeric, FiniteSets
CONSTANT W
Valid(c) == c.size \in {16, 24, 32} /\ c.flags \in {0, 1} /\ c.rate \in {16000, 32000, 44100, 48000, 96000}
K(c) == c.size \div 8
Big(c) == c.flags = 0
\* time-major, channel-minor
EncodeSeq(f, k, big) ==
  LET n == Len(f)  t == Len(f[1]) IN
  [i \in 1..(n * t * k) |->
     LET smp == (i - 1) \div k IN Write(f[(smp % n) + 1][(smp \div n) + 1], k, big)[((i - 1) % k) + 1]]
DecodeSeq(b, k, n, big) ==
  [c \in 1..n |-> [t \in 1..(Len(b) \div (k * n)) |->
     LET o == ((t - 1) * n + c - 1) * k IN Read(SubSeq(b, o + 1, o + k), W, big)]]
\* the upper k bytes of a sample
Keep(s, k) == [i \in 1..W |-> IF i <= W - k THEN 0 ELSE s[i]]
KeepAll(f, k) == [c \in 1..Len(f) |-> [t \in 1..Len(f[c]) |-> Keep(f[c][t], k)]]

(* --- an encoder: frames in, frames out in the same order --- *)
NewEnc == [finished |-> FALSE, pending |-> << >>]
GoodFrame(f, nch, spf) == Len(f) = nch /\ \A c \in 1..Len(f) : Len(f[c]) = spf
Enc(c, nch, spf, st, id, f) ==
  IF st.finished \/ ~GoodFrame(f, nch, spf) THEN [ok |-> FALSE, st |-> st]
  ELSE [ok |-> TRUE, st |-> [st EXCEPT !.pending = Append(@, [id |-> id, bytes |-> EncodeSeq(f, K(c), Big(c))])]]
Finalize(st) == [st EXCEPT !.finished = TRUE]
Pop(st) == IF st.pending = << >> THEN [got |-> << >>, st |-> st]
           ELSE [got |-> <<Head(st.pending)>>, st |-> [st EXCEPT !.pending = Tail(@)]]
Finished(st) == st.finished /\ st.pending = << >>

(* --- a decoder: a frame of whole samples for every channel, at most spf of them --- *)
DecOK(b, c, nch, spf) == Len(b) % (K(c) * nch) = 0 /\ Len(b) \div (K(c) * nch) <= spf
=============================================================================
