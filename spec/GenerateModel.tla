---------------------------- MODULE GenerateModel ----------------------------
(* Small metadata with values at and beyond the bounds of what a descriptor
   holds: what is valid and can be written reads back as what it says, and no
   two metadata that say different things make the same descriptor. *)
EXTENDS Generate
VARIABLES k, m, o, ready
vars == <<k, m, o, ready>>
Edge == {Zero, <<0, 3>>, <<0, 255>>, <<0, 256>>, <<1, 0>>, <<65535, 65535>>}
Head0(f) == [obu_redundant_copy |-> FALSE, obu_trimming_status_flag |-> f, obu_extension_flag |-> FALSE, extension_header_bytes |-> << >>]
(* layers of a channel-based element *)
LayerMd(lay, x, og, rg, sc, cc, fl, res, g) ==
  [has_deprecated_loudspeaker_layout |-> FALSE, loudspeaker_layout |-> lay, expanded_loudspeaker_layout |-> x, output_gain_is_present_flag |-> og, recon_gain_is_present_flag |-> rg,
   reserved_a |-> res, substream_count |-> sc, coupled_substream_count |-> cc, output_gain_flag |-> fl, reserved_b |-> Zero, output_gain |-> g]
One1 == <<0, 1>>
LayerMds == {LayerMd(lay, x, og, Zero, sc, cc, fl, Zero, g) : lay \in {0, 1, 2, 16}, x \in {0, 1, 13}, og \in {Zero, One1, <<0, 2>>}, sc \in {Zero, One1, <<1, 1>>}, cc \in {Zero, One1, <<0, 257>>},
                                                            fl \in {Zero, <<0, 63>>, <<0, 320>>}, g \in {0, -7, 40000}}
\* what a layer says, leaving aside what it need not say
MeaningL(l) == <<l.loudspeaker_layout, IF l.loudspeaker_layout = 16 THEN l.expanded_loudspeaker_layout ELSE 0, l.output_gain_is_present_flag, l.recon_gain_is_present_flag, l.substream_count, l.coupled_substream_count,
                 l.reserved_a, IF l.output_gain_is_present_flag = One1 THEN <<l.output_gain_flag, l.reserved_b, l.output_gain>> ELSE << >>>>
(* position parameters *)
Arg(mode, dur, c, list, res) == [parameter_id |-> <<0, 9>>, parameter_rate |-> <<0, 48000>>, reserved |-> res, param_definition_mode |-> mode, duration |-> dur, constant_subblock_duration |-> c, subblock_durations |-> list]
Args == {Arg(md, <<0, 6>>, c, l, r) : md \in BOOLEAN, c \in {Zero, <<0, 6>>, <<0, 4>>, <<0, 7>>}, l \in {<< >>, <<<<0, 2>>, <<0, 4>>>>, <<<<0, 6>>, Zero>>}, r \in {Zero, <<0, 127>>, <<0, 256>>}}
MeaningA(a) == <<a.reserved, a.param_definition_mode, IF a.param_definition_mode THEN << >> ELSE IF a.constant_subblock_duration # Zero THEN <<a.duration, a.constant_subblock_duration>> ELSE a.subblock_durations>>
Vs == {0, 127, -128, 128, 255, -129, 256, 32767, -32768, 32768}
PosMds == {[param_definition_type |-> 5, cart8_param_definition |-> [param_definition |-> a, default_x |-> v, default_y |-> w, default_z |-> 0]] : a \in {Arg(TRUE, Zero, Zero, << >>, Zero)}, v \in Vs, w \in Vs}
          \cup {[param_definition_type |-> 4, polar_param_definition |-> [param_definition |-> a, default_azimuth |-> v, default_elevation |-> w, default_distance |-> w]] : a \in {Arg(TRUE, Zero, Zero, << >>, Zero)}, v \in Vs, w \in Vs}
          \cup {[param_definition_type |-> 6, cart16_param_definition |-> [param_definition |-> a, default_x |-> 1, default_y |-> v, default_z |-> -1]] : a \in Args, v \in {5, 70000}}
MeaningP(p) == <<p.param_definition_type, PosVals(p.param_definition_type, PosOf(p)), MeaningA(PosOf(p).param_definition)>>
(* codec configs of linear samples *)
Lpcms == {[codec_config_id |-> i, obu_header |-> Head0(FALSE),
           codec_config |-> [has_deprecated_codec_id |-> FALSE, codec_id |-> 1819304813, num_samples_per_frame |-> f, audio_roll_distance |-> r, automatically_override_audio_roll_distance |-> a,
                             automatically_override_codec_delay |-> FALSE, has_decoder_config_lpcm |-> h, decoder_config_lpcm |-> [sample_format_flags |-> s, sample_size |-> z, sample_rate |-> <<0, 48000>>]]] :
           i \in {Zero, <<3, 4>>}, f \in {<<0, 8>>, Zero}, r \in {0, -1, 40000}, a \in BOOLEAN, h \in {TRUE}, s \in 0..2, z \in {<<0, 16>>, <<0, 24>>, <<0, 272>>, <<0, 17>>}}
MeaningC(x) == LET c == x.codec_config d == c.decoder_config_lpcm IN <<x.codec_config_id, c.num_samples_per_frame, IF c.automatically_override_audio_roll_distance THEN 0 ELSE c.audio_roll_distance, d>>
(* object-based and mono elements *)
Elems == {[audio_element_id |-> <<0, 7>>, obu_header |-> Head0(FALSE), audio_element_type |-> 3, reserved |-> r, codec_config_id |-> Zero, audio_substream_ids |-> s, audio_element_params |-> << >>,
           has_objects_config |-> TRUE, objects_config |-> [num_objects |-> n, objects_config_extension_bytes |-> e]] : r \in Edge, s \in {<<Zero>>, <<Zero, <<0, 1>>>>}, n \in {Zero, One1, <<0, 2>>, <<0, 257>>, <<1, 1>>}, e \in {<< >>, <<1, 2>>}}
MeaningE(x) == <<x.reserved, x.audio_substream_ids, x.objects_config>>
Domain == [layer |-> LayerMds, pos |-> PosMds, codec |-> Lpcms, element |-> Elems]
Valid(j, x) == CASE j = "layer" -> LayerSaid(x) [] j = "pos" -> PosSaid(x) [] j = "codec" -> CodecValid(x, TRUE) [] OTHER -> ElementValid(x, [frame |-> <<0, 8>>, ll |-> TRUE], << >>)
Made(j, x) == CASE j = "layer" -> GLayer(x) [] j = "pos" -> GPos(x) [] j = "codec" -> GCodec(x, 0) [] OTHER -> GElement(x, << >>)
Meaning(j, x) == CASE j = "layer" -> MeaningL(x) [] j = "pos" -> MeaningP(x) [] j = "codec" -> MeaningC(x) [] OTHER -> MeaningE(x)
Init == k \in {"layer", "pos", "codec", "element"} /\ m \in Domain[k] /\ Valid(k, m) /\ o = m /\ ready = FALSE
\* another with the same descriptor, of the ones that can be said
Next == ~ready /\ ready' = TRUE /\ (\E x \in Domain[k] : Valid(k, x) /\ x # m /\ Made(k, x) = Made(k, m) /\ o' = x) /\ UNCHANGED <<k, m>>
Spec == Init /\ [][Next]_vars
NothingLost == Meaning(k, m) = Meaning(k, o)
\* in an element of its own a layer, in a mix of its own a position, is written and read
El(l) == [id |-> <<0, 7>>, type |-> 0, res |-> 0, cc |-> Zero, subs |-> [i \in 1..l.sc |-> Pair(i)], params |-> << >>, cfg |-> [res |-> 0, layers |-> <<l>>]]
GainDef == [kind |-> "gain", id |-> <<0, 5>>, rate |-> <<0, 48000>>, res |-> 0, sch |-> << >>, vals |-> <<3>>, bytes |-> << >>]
Mx(p) == [id |-> Zero, count |-> Zero, langs |-> << >>, anns |-> << >>, tags |-> << >>, opt |-> << >>,
          subs |-> <<[els |-> <<[id |-> Zero, anns |-> << >>, gain |-> [GainDef EXCEPT !.id = <<0, 6>>], rc |-> [mode |-> 0, prof |-> 0, res |-> 0, params |-> <<p>>, off |-> << >>, ext |-> << >>]]>>, out |-> GainDef,
                      layouts |-> <<[t |-> 2, ss |-> 0, res |-> 0, info |-> 0, il |-> 0, dp |-> 0, tp |-> 0, anch |-> << >>, ext |-> << >>]>>]>>]
Kind == CASE k \in {"layer", "element"} -> "element" [] k = "codec" -> "codec" [] OTHER -> "mix"
Whole == CASE k = "layer" -> El(Made(k, m)) [] k = "pos" -> Mx(Made(k, m)) [] OTHER -> Made(k, m)
Clipped(x) == IF k # "pos" THEN x ELSE [x EXCEPT !.subs[1].els[1].rc.params[1].d.vals = Norm(x.subs[1].els[1].rc.params[1].d.kind, @)]
ReadBack == PayloadOk(Kind, Whole, FALSE, 0) => LET d == TLCEval(Payload(Kind, Whole, FALSE, 0)) r == TLCEval(Read(Kind, d, Len(d), FALSE)) IN r.st = "OK" /\ r.r.x = Clipped(Whole)
ASSUME \E x \in LayerMds : ~LayerSaid(x) /\ LayerSaid([x EXCEPT !.output_gain = 0])
ASSUME ~\E x \in Elems : ElementValid(x, [frame |-> <<0, 8>>, ll |-> TRUE], << >>) /\ x.objects_config.num_objects[1] # 0
=============================================================================
