------------------------------ MODULE WavModel ------------------------------
(* Every small file read by two elements in every order: each gets every tick of
   its channels once, in order, and learns of the end with the last tick; a file
   that is cut ends with the first read that falls short. *)
EXTENDS Wav
CONSTANTS Ticks, Frames
VARIABLES f, rs, got, dones, q
vars == <<f, rs, got, dones, q>>
Bytes(n) == [i \in 1..n |-> (i * 37) % 256]
Files == {[good |-> TRUE, ch |-> 2, rate |-> 1, depth |-> d, float |-> fl, ticks |-> t, told |-> t + x, bytes |-> Bytes(t * 2 * (d \div 8))] :
            d \in {16, 24, 32}, fl \in {FALSE}, t \in 0..Ticks, x \in {0, 1, 2}}
M(id, chs) == [id |-> id, file |-> 1, chs |-> chs]
E == {<<[id |-> 1, codec |-> TRUE, frame |-> a, rate |-> 1, out |-> 1, depth |-> 32], [id |-> 2, codec |-> TRUE, frame |-> b, rate |-> 1, out |-> 1, depth |-> 32]>> : a \in 1..Frames, b \in 1..Frames}
Md == <<M(1, <<[label |-> "L", at |-> 0], [label |-> "R", at |-> 1]>>), M(2, <<[label |-> "C", at |-> 1]>>)>>
Init == /\ f \in Files /\ \E e \in E : Valid(<<f>>, e, Md) /\ rs = [i \in 1..2 |-> Reader(e, Md[i])]
        /\ got = [i \in 1..2 |-> << >>] /\ dones = [i \in 1..2 |-> FALSE] /\ q = [i \in 1..2 |-> 0]
Of(r, s) == (CHOOSE p \in s : p[1] = r.m.chs[1].label)[2]
Next == \E i \in 1..2 : /\ ~dones[i] /\ q' = [q EXCEPT ![i] = @ + 1]
          /\ got' = [got EXCEPT ![i] = @ \o Of(rs[i], Given(f, rs[i]))]
          /\ rs' = [rs EXCEPT ![i] = After(f, @)] /\ dones' = [dones EXCEPT ![i] = Done(f, After(f, rs[i]))] /\ UNCHANGED f
Spec == Init /\ [][Next]_vars
InOrder == \A i \in 1..2 : /\ Len(got[i]) = rs[i].pos
                          /\ \A t \in 1..Len(got[i]) : got[i][t] = Sample(f, rs[i].m.chs[1].at, t - 1)
AllThere == \A i \in 1..2 : dones[i] => rs[i].pos = f.ticks
Ends == \A i \in 1..2 : q[i] <= f.ticks \div rs[i].frame + 1
\* floats: exact where they fit, symmetric, growing, clamped
Grid == {<<e, m>> : e \in {0, 50, 95, 96, 97, 118, 119, 120, 125, 126, 127, 128, 254}, m \in {0, 1, 63, 127}}
V(s, p, lo) == FloatValue(s * 32768 + p[1] * 128 + p[2], lo)
ASSUME \A p \in Grid : V(0, p, 0) >= 0 /\ (V(0, p, 0) = Highest => V(1, p, 0) = Lowest) /\ (V(0, p, 0) # Highest => V(1, p, 0) = -V(0, p, 0))
ASSUME \A p, r \in Grid : p[1] * 128 + p[2] <= r[1] * 128 + r[2] => V(0, p, 65535) <= V(0, r, 65535)
ASSUME V(0, <<127, 0>>, 0) = Highest /\ V(1, <<127, 0>>, 0) = Lowest /\ V(0, <<126, 0>>, 0) = Pow2(30) /\ V(0, <<255, 1>>, 0) = 0 /\ V(0, <<255, 0>>, 0) = Highest /\ V(0, <<126, 127>>, 65535) = Highest - 127
=============================================================================
