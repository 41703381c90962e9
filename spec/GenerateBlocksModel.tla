------------------------- MODULE GenerateBlocksModel -------------------------
(* Blocks of a few definitions made from small metadata in every order: what is
   accepted follows without a gap, can be written, reads back as it was made,
   and the metadata made of its data says the same again. *)
EXTENDS GenerateBlocks
CONSTANTS Most
VARIABLES at, done, q
vars == <<at, done, q>>
Def(kind, id, sch, layers) == [kind |-> kind, id |-> Pair(id), rate |-> Pair(48000), res |-> 0, sch |-> sch, vals |-> IF kind = "gain" THEN <<0>> ELSE IF kind = "demix" THEN <<0, 0, 0, 0>> ELSE << >>, bytes |-> << >>, layers |-> layers]
Defs == {Def("gain", 1, <<Even(Pair(3), Pair(2))>>, << >>), Def("gain", 2, << >>, << >>), Def("demix", 3, <<Even(Pair(8), Pair(8))>>, << >>), Def("recon", 4, <<Even(Pair(8), Pair(8))>>, <<FALSE, TRUE>>)}
H == [obu_redundant_copy |-> FALSE, obu_trimming_status_flag |-> FALSE, obu_extension_flag |-> FALSE, extension_header_bytes |-> << >>, num_samples_to_trim_at_end |-> Zero, num_samples_to_trim_at_start |-> Zero]
No == [subblock_duration |-> Zero, has_mix_gain_parameter_data |-> FALSE, has_demixing_info_parameter_data |-> FALSE, has_recon_gain_info_parameter_data |-> FALSE, has_parameter_data_extension |-> FALSE]
Gain(s, e, b) == ("has_mix_gain_parameter_data" :> TRUE) @@ ("mix_gain_parameter_data" :> [param_data |-> ("has_step" :> (s # << >>)) @@ ("has_linear" :> (e # << >>)) @@ ("has_bezier" :> (b # << >>))
                   @@ (IF s # << >> THEN "step" :> [start_point_value |-> s[1]] ELSE << >>) @@ (IF e # << >> THEN "linear" :> [start_point_value |-> e[1], end_point_value |-> e[2]] ELSE << >>)
                   @@ (IF b # << >> THEN "bezier" :> [start_point_value |-> b[1], end_point_value |-> b[2], control_point_value |-> b[3], control_point_relative_time |-> b[4]] ELSE << >>)]) @@ No
Recon(g) == ("has_recon_gain_info_parameter_data" :> TRUE) @@ ("recon_gain_info_parameter_data" :> [recon_gains_for_layer |-> g]) @@ No
DemixMd(mode, res) == ("has_demixing_info_parameter_data" :> TRUE) @@ ("demixing_info_parameter_data" :> [dmixp_mode |-> mode, reserved |-> res]) @@ No
Lay(e) == [recon_gain |-> e]
Subs(kind) == CASE kind = "gain" -> {Gain(<<-5>>, << >>, << >>), Gain(<< >>, <<32767, -32768>>, << >>), Gain(<< >>, << >>, <<0, 1, 2, <<0, 200>>>>), Gain(<<40000>>, << >>, << >>), Gain(<< >>, << >>, <<0, 1, 2, <<0, 256>>>>), Gain(<< >>, << >>, << >>)}
                [] kind = "demix" -> {DemixMd(1, Zero), DemixMd(7, <<0, 31>>), DemixMd(4, Zero), DemixMd(0, Zero), DemixMd(2, <<0, 256>>)}
                [] OTHER -> {Recon(<<Lay(<< >>), Lay(e)>>) : e \in {<< >>, <<<<Pair(0), Pair(255)>>, <<Pair(11), Pair(1)>>>>, <<<<Pair(12), Pair(1)>>>>, <<<<Pair(5), Pair(256)>>>>}} \cup {Recon(<<Lay(<< >>)>>)}
Md(def, subs, dur, c, t) == [parameter_id |-> def.id, obu_header |-> H, duration |-> dur, constant_subblock_duration |-> c, subblocks |-> subs, start_timestamp |-> t]
Times == {<<0, 0, 0, i>> : i \in {0, 3, 8}}
Lists(def) == UNION {[1..n -> Subs(def.kind)] : n \in 1..(IF def.kind = "gain" THEN 2 ELSE 1)} \cup {[i \in 1..2 |-> x] : x \in Subs(def.kind)}
Timed(def) == {[i \in 1..Len(s) |-> [s[i] EXCEPT !.subblock_duration = Pair(d)]] : s \in Lists(def), d \in {0, 1}}
Init == at = [d \in Defs |-> <<0, 0, 0, 0>>] /\ done = << >> /\ q = 0
Next == /\ q < Most /\ q' = q + 1
        /\ \E def \in Defs, t \in Times : \E subs \in Timed(def), dur \in (IF Own(def) THEN {Pair(1), Pair(2), Pair(3)} ELSE {Zero}), c \in (IF Own(def) THEN {Zero, Pair(2)} ELSE {Zero}) :
             LET m == Md(def, subs, dur, c, t) IN
             /\ BlockSaid(def, m, at[def], TRUE)
             /\ done' = <<[def |-> def, m |-> m, b |-> GBlock(def, m, at[def])]>> \o done
             /\ at' = [at EXCEPT ![def] = Later(@, BlockDur(def, m))]
Spec == Init /\ [][Next]_vars
Body(x) == [sch |-> IF Own(x.def) THEN <<[dur |-> x.b.dur, const |-> x.b.const, list |-> IF x.b.const = Zero THEN x.b.longs ELSE << >>]>> ELSE << >>, subs |-> x.b.subs]
NoGap == \A i \in 1..Len(done) : LET later == SelectSeq(SubSeq(done, 1, i - 1), LAMBDA y : y.def = done[i].def) IN
           /\ done[i].b.e = (IF later = << >> THEN at[done[i].def] ELSE later[Len(later)].b.s)
           /\ SumPairs(done[i].b.longs) = done[i].b.dur /\ done[i].b.e = Later(done[i].b.s, done[i].b.dur)
Written == done # << >> => LET x == done[1] y == Body(x) IN
           /\ (x.def.kind # "demix" \/ ModeOk(x.b.subs[1][1])) => WBlockOk(x.def, y, 0)
           /\ WBlockOk(x.def, y, 0) => LET d == TLCEval(WBlock(x.def, y, 0)) r == TLCEval(RBlock(x.def, d, Len(d))) IN r.st = "OK" /\ r.r.data = x.b.subs
\* data -> metadata -> data
Again == done # << >> => LET x == done[1] IN \A i \in 1..Len(x.b.subs) :
           BackOk(x.def.kind, x.b.subs[i]) /\ SaysBack(x.def.kind, x.b.subs[i], <<x.m.subblocks[i].subblock_duration>>, x.m.subblocks[i])
Refused == \A def \in Defs : \A s \in Subs(def.kind) : DataSaid(def, s, TRUE) => GData(def, s) # << >>
=============================================================================
