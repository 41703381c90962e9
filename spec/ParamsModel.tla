----------------------------- MODULE ParamsModel -----------------------------
(* Two elements, which may share a parameter, over a few frames, each with a
   block or without, right or late. *)
EXTENDS Params, SequencesExt, FiniteSets
CONSTANTS Frames, Modes
VARIABLES s, t, seen, got \* seen: the modes of the blocks used up, per element; got: what they reported in this frame
Els == {1, 2}
Default == [id |-> 5, mode |-> 1, w |-> 4]
Init == /\ s \in [Els -> {New(<<Default>>, << >>, 1), New(<<[Default EXCEPT !.id = 6]>>, << >>, 1), New(<< >>, << >>, 1)}]
        /\ t = 0 /\ seen = [e \in Els |-> << >>] /\ got = [e \in Els |-> << >>]
Put(id, mode, late) == /\ \E e \in Els : s[e].dm # << >> /\ s[e].dm[1].id = id
                       /\ \A e \in Els : s[e].dm # << >> /\ s[e].b # << >> => s[e].dm[1].id # id
                       /\ got = [e \in Els |-> << >>]
                       /\ s' = [e \in Els |-> AddDemixing(s[e], id, [start |-> t + late, end |-> t + 1 + late, mode |-> mode])]
                       /\ UNCHANGED <<t, seen, got>>
Look == LET r == [e \in Els |-> GetDemixing(s[e])] IN
        /\ s' = [e \in Els |-> r[e].s] /\ got' = [e \in Els |-> <<r[e].v>>] /\ UNCHANGED <<t, seen>>
End == /\ \A e \in Els : got[e] # << >> /\ got[e][1] # << >> \* a caller that was refused stops there
       /\ LET r == [e \in Els |-> UpdateDemixing(s[e], t + 1)] IN
          /\ s' = [e \in Els |-> r[e].s] /\ t' = t + 1
          /\ seen' = [e \in Els |-> IF s[e].b # << >> /\ r[e].ok THEN Append(seen[e], s[e].b[1].mode) ELSE seen[e]]
       /\ got' = [e \in Els |-> << >>]
Next == t < Frames /\ ((\E id \in {5, 6}, m \in Modes, late \in {0, 1} : (late = 0 \/ (t = 1 /\ id = 5)) /\ Put(id, m, late)) \/ Look \/ End)
Spec == Init /\ [][Next]_<<s, t, seen, got>>
Walk(modes) == FoldLeft(LAMBDA a, m : IF a = -1 THEN 0 ELSE Clamp(a + Rows[m + 1][5]), -1, modes)
\* the weight is where the blocks so far have led it
Followed == \A e \in Els : s[e].first = (seen[e] = << >>) /\ (seen[e] # << >> => s[e].prev = Walk(seen[e]))
InRange == \A e \in Els : s[e].prev \in 0..10 /\ s[e].cur \in 0..10
\* a value reported is the covering block's, and otherwise the default; never both, never another frame's
Covered == \A e \in Els : got[e] # << >> /\ got[e][1] # << >> =>
             LET v == got[e][1][1] IN
             IF s[e].dm = << >> THEN v = Sensible
             ELSE IF s[e].b # << >> THEN s[e].b[1].start = s[e].next /\ v = Make(s[e].b[1].mode, Walk(Append(seen[e], s[e].b[1].mode)))[1]
             ELSE v = Make(1, 4)[1]
Current == \A e \in Els : got[e] # << >> /\ got[e][1] # << >> /\ s[e].b # << >> /\ Len(seen[e]) = t => s[e].b[1].start = t
\* elements that name the same parameter agree
Agree == s[1].dm = s[2].dm => s[1] = s[2] /\ got[1] = got[2]
=============================================================================
