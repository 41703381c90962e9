---------------------------- MODULE GenerateBlocks ----------------------------
(* Parameter blocks, metadata OBUs and arbitrary OBUs made from the metadata a
   user writes, and the metadata made of what there is. A subblock of metadata,
   the data of a subblock and the value of a definition are as in Generate and
   Blocks; instants are four halves of 16 bits. *)
EXTENDS Generate
HeadOf(h, type) == [type |-> type, red |-> h.obu_redundant_copy, flag |-> h.obu_trimming_status_flag, te |-> h.num_samples_to_trim_at_end, ts |-> h.num_samples_to_trim_at_start,
                    has_ext |-> h.obu_extension_flag, ext |-> IF h.obu_extension_flag THEN h.extension_header_bytes ELSE << >>]
PlainHead(type) == [type |-> type, red |-> FALSE, flag |-> FALSE, te |-> Zero, ts |-> Zero, has_ext |-> FALSE, ext |-> << >>]
Later(q, p) == LET a == q[4] + p[2] b == q[3] + p[1] + a \div 65536 c == q[2] + b \div 65536 IN <<q[1] + c \div 65536, c % 65536, b % 65536, a % 65536>>

(* --- the data of a subblock --- *)
Anim(m) == m.mix_gain_parameter_data.param_data
StepSaid(a) == S16(a.start_point_value)
LineSaid(a) == S16(a.start_point_value) /\ S16(a.end_point_value)
GainData(m) == m.has_mix_gain_parameter_data
               /\ LET a == Anim(m) IN CASE a.has_step -> StepSaid(a.step) [] a.has_linear -> LineSaid(a.linear)
                                        [] a.has_bezier -> LineSaid(a.bezier) /\ S16(a.bezier.control_point_value) /\ N8(a.bezier.control_point_relative_time)
                                        [] OTHER -> FALSE
DemixData(m) == m.has_demixing_info_parameter_data /\ LET d == m.demixing_info_parameter_data IN d.dmixp_mode \in 1..8 /\ N8(d.reserved)
Given(m) == IF m.has_recon_gain_info_parameter_data THEN m.recon_gain_info_parameter_data.recon_gains_for_layer ELSE << >>
Entry(e) == IsSmall(e[1]) /\ Small(e[1]) \in 0..11 /\ N8(e[2])
\* computed gains need the audio of the element
ReconData(m, layers, over) ==
  LET q == Given(m) n == Len(layers) IN
  /\ n > 1 => Len(q) = n
  /\ \A i \in 1..n : layers[i] => i <= Len(q) /\ over /\ All(q[i].recon_gain, Entry)
DataSaid(def, m, over) == CASE def.kind = "gain" -> GainData(m) [] def.kind = "demix" -> DemixData(m) [] OTHER -> ReconData(m, def.layers, over)
\* gains given for a layer without any
DataOpen(def, m) == def.kind = "recon" /\ LET q == Given(m) n == Len(def.layers) IN Len(q) # n \/ \E i \in 1..n : ~def.layers[i] /\ q[i].recon_gain # << >>
GainsOf(q, i) == LET e == SelectSeq(q, LAMBDA x : x[1] = Pair(i - 1)) IN IF e = << >> THEN 0 ELSE Small(e[1][2])
FlagOf(q) == FoldLeft(LAMBDA a, x : a + Pow2(Small(x[1])), 0, q)
GData(def, m) ==
  CASE def.kind = "gain" -> (LET a == Anim(m) IN
         CASE a.has_step -> [t |-> 0, v |-> <<a.step.start_point_value>>]
           [] a.has_linear -> [t |-> 1, v |-> <<a.linear.start_point_value, a.linear.end_point_value>>]
           [] OTHER -> LET b == a.bezier IN [t |-> 2, v |-> <<b.start_point_value, b.end_point_value, b.control_point_value, Small(b.control_point_relative_time)>>])
    [] def.kind = "demix" -> LET d == m.demixing_info_parameter_data IN <<d.dmixp_mode - 1, Small(d.reserved)>>
    [] OTHER -> [i \in 1..Len(def.layers) |-> IF def.layers[i] THEN LET q == Given(m)[i].recon_gain IN <<[f |-> Pair(FlagOf(q)), g |-> [k \in 1..12 |-> GainsOf(q, k)]]>> ELSE << >>]

(* --- a parameter block: what the definition lays down, or what it says itself --- *)
Own(def) == def.sch = << >>
BlockDur(def, m) == IF Own(def) THEN m.duration ELSE def.sch[1].dur
Durs(m) == Each(m.subblocks, LAMBDA s : s.subblock_duration)
OwnOk(m) == IF m.constant_subblock_duration # Zero
            THEN EvenOk(m.duration, m.constant_subblock_duration) /\ Parts(m.duration, m.constant_subblock_duration) = Pair(Len(m.subblocks))
            ELSE UnevenOk(Durs(m)) /\ SumPairs(Durs(m)) = m.duration
SchOfBlock(def, m) == IF ~Own(def) THEN def.sch[1] ELSE IF m.constant_subblock_duration # Zero THEN Even(m.duration, m.constant_subblock_duration) ELSE Uneven(Durs(m))
BlockSaid(def, m, at, over) ==
  /\ m.start_timestamp = at /\ (Own(def) => OwnOk(m))
  /\ Count(SchOfBlock(def, m)) = Len(m.subblocks)
  /\ def.kind \in {"demix", "recon"} => Len(m.subblocks) <= 1
  /\ All(m.subblocks, LAMBDA s : DataSaid(def, s, over))
BlockOpen(def, m) == \E i \in 1..Len(m.subblocks) : DataOpen(def, m.subblocks[i])
GBlock(def, m, at) ==
  LET s == SchOfBlock(def, m) IN
  [h |-> HeadOf(m.obu_header, 3), id |-> def.id, s |-> at, e |-> Later(at, s.dur), dur |-> s.dur, const |-> s.const, longs |-> [i \in 1..Count(s) |-> Long(s, i)], subs |-> Each(m.subblocks, LAMBDA x : GData(def, x))]

(* --- metadata of the data of a subblock --- *)
Only(m, f) == /\ m.has_mix_gain_parameter_data = (f = "gain") /\ m.has_demixing_info_parameter_data = (f = "demix")
              /\ m.has_recon_gain_info_parameter_data = (f = "recon") /\ m.has_parameter_data_extension = (f = "ext")
BackOk(kind, v) == kind = "demix" => v[1] \in 0..7
Entries(e) == IF e = << >> THEN {} ELSE {<<Pair(i - 1), Pair(e[1].g[i])>> : i \in {k \in 1..12 : FlagBit(e[1].f, k)}}
Set2(q) == {q[i] : i \in 1..Len(q)}
SaysBack(kind, v, dur, m) ==
  /\ m.subblock_duration = (IF dur = << >> THEN Zero ELSE dur[1])
  /\ CASE kind = "gain" -> Only(m, "gain") /\ GainData(m) /\ GData([kind |-> "gain"], m) = v
       [] kind = "demix" -> Only(m, "demix") /\ m.demixing_info_parameter_data.dmixp_mode = v[1] + 1 /\ m.demixing_info_parameter_data.reserved = Pair(v[2])
       [] kind = "recon" -> IF v = << >> THEN Only(m, "recon") \/ Only(m, "none")
                            ELSE /\ Only(m, "recon") /\ Len(Given(m)) = Len(v)
                                 /\ \A i \in 1..Len(v) : Set2(Given(m)[i].recon_gain) = Entries(v[i]) /\ Len(Given(m)[i].recon_gain) = Cardinality(Entries(v[i]))
       [] OTHER -> Only(m, "ext") /\ m.parameter_data_extension.parameter_data_bytes = v
HeadBack(h, m) == /\ m.obu_redundant_copy = h.red /\ m.obu_trimming_status_flag = h.flag /\ m.num_samples_to_trim_at_end = h.te /\ m.num_samples_to_trim_at_start = h.ts
                  /\ m.obu_extension_flag = h.has_ext /\ m.extension_header_bytes = h.ext

(* --- arbitrary OBUs, and metadata OBUs --- *)
ExtraSaid(m) == m.insertion_hook \in 1..9 /\ m.obu_type \in 1..32
GExtra(m) == [h |-> HeadOf(m.obu_header, m.obu_type - 1), payload |-> m.payload, hook |-> m.insertion_hook - 1, tick |-> IF m.insertion_hook >= 7 THEN <<m.insertion_tick>> ELSE << >>, bad |-> m.invalidates_bitstream]
More(t) == t.itu_t_t35_country_code = <<0, 255>> /\ t.has_itu_t_t35_country_code_extension_byte
MetaSaid(m) == CASE m.has_metadata_itu_t_t35 -> LET t == m.metadata_itu_t_t35 IN N8(t.itu_t_t35_country_code) /\ (More(t) => N8(t.itu_t_t35_country_code_extension_byte))
                 [] OTHER -> m.has_metadata_iamf_tags
GMeta(m) == IF m.has_metadata_itu_t_t35
            THEN LET t == m.metadata_itu_t_t35 IN [h |-> PlainHead(24), t |-> 1, code |-> Small(t.itu_t_t35_country_code), more |-> IF More(t) THEN <<Small(t.itu_t_t35_country_code_extension_byte)>> ELSE << >>,
                                                   bytes |-> t.itu_t_t35_payload_bytes]
            ELSE LET t == m.metadata_iamf_tags.tags IN [h |-> PlainHead(24), t |-> 2, tags |-> [i \in 1..Len(t) |-> <<t[i].name, t[i].value>>]]
=============================================================================
