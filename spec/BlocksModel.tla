---------------------------- MODULE BlocksModel ----------------------------
(* Every small schedule, definition, block and animation: the parts add up,
   what is written is read back and nothing shorter is, and a gain stays
   between its points. *)
EXTENDS Blocks
CONSTANTS MaxDur, MaxLong, Longest, Offsets
Points == {p - 32768 : p \in Offsets}
VARIABLES s, x, b, mode
vars == <<s, x, b, mode>>
Numbers(n) == {Pair(k) : k \in 1..n}
Lists == UNION {[1..n -> Numbers(MaxLong)] : n \in 1..3}
Evens == {Even(d, c) : d \in Numbers(MaxDur), c \in Numbers(MaxDur)}
Schedules == {e \in Evens : EvenOk(e.dur, e.const)} \cup {Uneven(q) : q \in Lists}
Def(kind, id, sch) == [kind |-> kind, id |-> id, rate |-> Pair(48000), res |-> 0, sch |-> sch, bytes |-> << >>,
                       layers |-> IF kind = "recon" THEN <<TRUE, FALSE, TRUE>> ELSE << >>,
                       vals |-> CASE kind = "gain" -> <<-300>> [] kind = "demix" -> <<2, 0, 10, 0>> [] kind = "polar" -> <<-180, 90, 127>> [] OTHER -> << >>]
\* the data of the i-th subblock
Datum(kind, i) == CASE kind = "gain" -> <<[t |-> 0, v |-> <<-i>>], [t |-> 1, v |-> <<i, -32768>>], [t |-> 2, v |-> <<-i, 300, 32767, 255>>]>>[(i % 3) + 1]
                    [] kind = "demix" -> <<i % 3, 0>>
                    [] OTHER -> <<<<[f |-> Pair(2 ^ (i % 12)), g |-> [k \in 1..12 |-> IF k = (i % 12) + 1 THEN 200 + i ELSE 0]]>>, << >>, <<[f |-> Pair(4095), g |-> [k \in 1..12 |-> k + i]]>>>>
Data(kind, n) == [i \in 1..n |-> Datum(kind, i)]
Init == /\ s \in Schedules /\ mode \in {0, 3}
        /\ \E kind \in {"gain", "demix", "recon"}, own \in BOOLEAN :
             /\ x = Def(kind, Pair(200), IF own THEN <<s>> ELSE << >>)
             /\ b = [sch |-> IF own THEN << >> ELSE <<s>>, subs |-> Data(kind, Count(s))]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Adds == SumPairs([i \in 1..Count(s) |-> Long(s, i)]) = s.dur /\ \A i \in 1..Count(s) : Long(s, i) # Zero
Equal == s.const # Zero => \A i \in 1..Count(s) : Leq2(Long(s, i), s.const) /\ (i < Count(s) => Long(s, i) = s.const)
\* demixing and reconstruction gains keep one value for the whole of a block, by their definition
Strict == WDefOk(x, mode) <=> (x.kind \in {"demix", "recon"} => x.sch # << >> /\ s.const = s.dur)
Back == LET d == WDef(x, mode) r == RDef(d, 0, x.kind) IN
        WDefOk(x, mode) => /\ r.st = "OK" /\ r.p = 8 * Len(d) /\ r.r.id = x.id /\ r.r.sch = x.sch /\ r.r.vals = x.vals
                           /\ \A k \in 0..Len(d) - 1 : RDef(SubSeq(d, 1, k), 0, x.kind).st = "EXHAUSTED"
BlockBack == LET d == WBlock(x, b, mode) r == RBlock(x, d, Len(d)) IN
             WBlockOk(x, b, mode) => /\ r.st = "OK" /\ r.r.data = b.subs /\ r.r.sch = <<s>> /\ r.r.footer = << >>
                                     /\ \A k \in 0..Len(d) - 1 : RBlock(x, SubSeq(d, 1, k), k).st # "OK"
                                     /\ LET e == d \o <<7>> f == RBlock(x, e, Len(e)) IN f.st = "OK" /\ f.r.footer = <<7>>
Writable == DefOk(x) => WBlockOk(x, b, mode)
\* gains: every animation between these points, at every tick
Anims == {[t |-> 0, v |-> <<p>>] : p \in Points} \cup {[t |-> 1, v |-> <<p, q>>] : p \in Points, q \in Points}
         \cup {[t |-> 2, v |-> <<p, q, c, n>>] : p \in Points, q \in Points, c \in Points, n \in {0, 64, 128, 255}}
Least(a) == 16 * CHOOSE v \in {a.v[i] : i \in 1..(IF a.t = 2 THEN 3 ELSE Len(a.v))} : \A i \in 1..(IF a.t = 2 THEN 3 ELSE Len(a.v)) : a.v[i] >= v
Most(a) == 16 * CHOOSE v \in {a.v[i] : i \in 1..(IF a.t = 2 THEN 3 ELSE Len(a.v))} : \A i \in 1..(IF a.t = 2 THEN 3 ELSE Len(a.v)) : a.v[i] <= v
Slack(a, n) == 64 + (IF a.t = 2 THEN Abs(a.v[1] - 2 * a.v[3] + a.v[2]) \div Res(n) ELSE 0)
ASSUME \A a \in Anims : GainOk(a, 1, 0, 16 * a.v[1])
ASSUME \A a \in Anims, n \in 1..Longest : GainOk(a, n, 0, 16 * a.v[1]) /\ (a.t < 2 => ~GainOk(a, n, 0, 16 * a.v[1] + 256))
ASSUME \A a \in Anims, n \in 1..Longest : \A t \in 0..n - 1 : ~GainOk(a, n, t, Least(a) - Slack(a, n)) /\ ~GainOk(a, n, t, Most(a) + Slack(a, n))
\* time never runs backwards along a curve, and ends at the end
ASSUME \A n \in {1, 7, 960, 2000}, c \in {0, 3, 128, 255} : LET K == Res(n) n1 == (n * c + 128) \div 256 IN
         Time(n, n1, 0, K) = 0 /\ Time(n, n1, K, K) = n * K * K /\ \A k \in 0..K - 1 : Time(n, n1, k, K) <= Time(n, n1, k + 1, K)
\* a curve with its control in the middle is a line
ASSUME \A p \in Points, q \in Points, n \in 1..Longest : \A t \in 0..n - 1 :
         (p - q) % 2 = 0 => GainOk([t |-> 2, v |-> <<p, q, (p + q) \div 2, 128>>], 2 * n, 2 * t, Straight(p, q, 2 * t, 2 * n))
\* every instant is held by exactly one subblock
ASSUME \A q \in {<<1>>, <<2, 3>>, <<1, 1, 5>>} : \A t \in 0..FoldLeft(LAMBDA a, c : a + c, 0, q) : LET h == Holder(q, t, 1, 0) IN
         IF t = FoldLeft(LAMBDA a, c : a + c, 0, q) THEN h.i = 0 ELSE h.i > 0 /\ h.from <= t /\ t < h.from + q[h.i]
=============================================================================
