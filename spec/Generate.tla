------------------------------ MODULE Generate ------------------------------
(* Descriptors made from the metadata a user writes: which metadata can be said
   in a descriptor, and the descriptor that says it. Metadata are records with
   the names of their fields; numbers without a sign are pairs of 16-bit halves,
   has_f tells whether f was written. *)
EXTENDS DescriptorBytes
L == INSTANCE Layers
N8(v) == IsSmall(v) /\ Small(v) <= 255
N16(v) == IsSmall(v) /\ Small(v) <= 65535
S16(v) == v \in -32768..32767
S8(v) == v \in -128..127
\* a 32-bit number as a signed one
AsInt(v) == IF v[1] < 32768 THEN v[1] * 65536 + v[2] ELSE (v[1] - 65536) * 65536 + v[2]
All(q, P(_)) == \A i \in 1..Len(q) : P(q[i])
Each(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]

GHead(h, type) == [type |-> type, red |-> h.obu_redundant_copy, flag |-> h.obu_trimming_status_flag, te |-> Zero, ts |-> Zero, has_ext |-> h.obu_extension_flag,
                   ext |-> IF h.obu_extension_flag THEN h.extension_header_bytes ELSE << >>]

(* --- sequence header: nothing without both profiles, and never the reserved one --- *)
SeqSaid(m) == m.has_primary_profile /\ m.has_additional_profile
SeqValid(m) == \A p \in {m.primary_profile, m.additional_profile} : p \in 1..6
GSeq(m) == [pp |-> m.primary_profile - 1, ap |-> m.additional_profile - 1]

(* --- codec config --- *)
RateAt(v) == CHOOSE i \in 1..Len(AacRates) : AacRates[i] = v
Sfi(i) == IF i.sample_frequency_index = 16 THEN RateAt(Small(i.sampling_frequency)) - 1 ELSE i.sample_frequency_index - 1
SfiOk(i) == IF i.sample_frequency_index = 16 THEN i.has_sampling_frequency /\ IsSmall(i.sampling_frequency) /\ \E k \in 1..Len(AacRates) : AacRates[k] = Small(i.sampling_frequency)
            ELSE i.sample_frequency_index \in 1..15
FlacBlockOk(b) == CASE b.header.block_type = 1 -> b.has_stream_info /\ N16(b.stream_info.minimum_block_size) /\ N16(b.stream_info.maximum_block_size)
                                                  /\ N8(b.stream_info.number_of_channels) /\ N8(b.stream_info.bits_per_sample) /\ Len(b.stream_info.md5_signature) = 16
                    [] b.header.block_type \in 2..7 -> b.has_generic_block
                    [] OTHER -> FALSE
CodecSaid(c) ==
  /\ ~c.has_deprecated_codec_id /\ S16(c.audio_roll_distance)
  /\ LET k == Pair(c.codec_id) IN
     CASE k = Lpcm -> /\ c.has_decoder_config_lpcm
                      /\ c.decoder_config_lpcm.sample_format_flags \in {1, 2} /\ N8(c.decoder_config_lpcm.sample_size)
       [] k = Opus -> /\ c.has_decoder_config_opus
                      /\ LET o == c.decoder_config_opus IN N8(o.version) /\ N8(o.output_channel_count) /\ N16(o.pre_skip) /\ S16(o.output_gain) /\ N8(o.mapping_family)
       [] k = Aac -> /\ c.has_decoder_config_aac
                     /\ LET a == c.decoder_config_aac i == a.decoder_specific_info IN
                        /\ N8(a.decoder_config_descriptor_tag) /\ N8(a.object_type_indication) /\ N8(a.stream_type) /\ a.has_decoder_specific_info
                        /\ N8(i.decoder_specific_info_descriptor_tag) /\ N8(i.audio_object_type) /\ N8(i.channel_configuration) /\ SfiOk(i)
       [] k = Flac -> c.has_decoder_config_flac /\ All(c.decoder_config_flac.metadata_blocks, FlacBlockOk)
       [] OTHER -> FALSE
GStream(s) == [min |-> Small(s.minimum_block_size), max |-> Small(s.maximum_block_size), minf |-> AsInt(s.minimum_frame_size), maxf |-> AsInt(s.maximum_frame_size),
               rate |-> AsInt(s.sample_rate), ch |-> Small(s.number_of_channels), bps |-> Small(s.bits_per_sample), total |-> s.total_samples_in_stream, md5 |-> s.md5_signature]
GFlac(b) == IF b.header.block_type = 1 THEN [t |-> 0, other |-> FALSE, info |-> GStream(b.stream_info)] ELSE [t |-> b.header.block_type - 1, other |-> FALSE, bytes |-> b.generic_block]
GCfg(c) ==
  LET k == Pair(c.codec_id) IN
  CASE k = Lpcm -> LET p == c.decoder_config_lpcm IN [flags |-> p.sample_format_flags - 1, size |-> Small(p.sample_size), rate |-> p.sample_rate]
    [] k = Opus -> LET o == c.decoder_config_opus IN [version |-> Small(o.version), ch |-> Small(o.output_channel_count), skip |-> Small(o.pre_skip), rate |-> o.input_sample_rate,
                                                      gain |-> o.output_gain, map |-> Small(o.mapping_family)]
    [] k = Aac -> LET a == c.decoder_config_aac i == a.decoder_specific_info g == a.ga_specific_config IN
                  [tag |-> Small(a.decoder_config_descriptor_tag), obj |-> Small(a.object_type_indication), st |-> Small(a.stream_type), up |-> B2N(a.upstream), res |-> B2N(a.reserved),
                   size24 |-> AsInt(a.buffer_size_db), max |-> a.max_bitrate, avg |-> a.average_bit_rate, itag |-> Small(i.decoder_specific_info_descriptor_tag),
                   aot |-> Small(i.audio_object_type), sfi |-> Sfi(i), chan |-> Small(i.channel_configuration),
                   ga |-> 4 * B2N(g.frame_length_flag) + 2 * B2N(g.depends_on_core_coder) + B2N(g.extension_flag), iext |-> << >>, ext |-> << >>]
    [] OTHER -> Each(c.decoder_config_flac.metadata_blocks, GFlac)
\* the roll distance is the codec's and the delay the encoder's unless the user keeps his own
GCodecRaw(m) == LET c == m.codec_config IN [id |-> m.codec_config_id, codec |-> Pair(c.codec_id), frame |-> c.num_samples_per_frame, roll |-> c.audio_roll_distance, cfg |-> GCfg(c)]
GCodec(m, delay) ==
  LET c == m.codec_config x == GCodecRaw(m)
      r == IF c.automatically_override_audio_roll_distance THEN [x EXCEPT !.roll = RollOf(x.codec, x.frame)] ELSE x
  IN IF c.automatically_override_codec_delay /\ r.codec = Opus THEN [r EXCEPT !.cfg.skip = delay] ELSE r
CodecValid(m, encodes) == CodecSaid(m.codec_config) /\ Derivable(GCodecRaw(m)) /\ encodes

(* --- parameter definitions --- *)
SchSaid(p) == IF p.constant_subblock_duration # Zero THEN EvenOk(p.duration, p.constant_subblock_duration) ELSE UnevenOk(p.subblock_durations)
ArgsOk(p) == N8(p.reserved) /\ (p.param_definition_mode \/ SchSaid(p))
\* whether a total that is not the sum of the subblocks is worth a refusal was never settled
ArgsOpen(p) == ~p.param_definition_mode /\ p.constant_subblock_duration = Zero /\ UnevenOk(p.subblock_durations) /\ p.duration # SumPairs(p.subblock_durations)
GDef(kind, p, vals) ==
  [kind |-> kind, id |-> p.parameter_id, rate |-> p.parameter_rate, res |-> Small(p.reserved),
   sch |-> IF p.param_definition_mode THEN << >> ELSE IF p.constant_subblock_duration # Zero THEN <<Even(p.duration, p.constant_subblock_duration)>> ELSE <<Uneven(p.subblock_durations)>>,
   vals |-> vals, bytes |-> << >>]
DurOf(d) == IF d.sch = << >> THEN Zero ELSE d.sch[1].dur

(* --- audio element --- *)
LayerSaid(l) == /\ ~l.has_deprecated_loudspeaker_layout /\ l.loudspeaker_layout \in 1..16
                /\ l.loudspeaker_layout = 16 => l.expanded_loudspeaker_layout # 0
                /\ \A v \in {l.output_gain_is_present_flag, l.recon_gain_is_present_flag} : v \in {Zero, <<0, 1>>}
                /\ N8(l.reserved_a) /\ N8(l.substream_count) /\ N8(l.coupled_substream_count)
                /\ l.output_gain_is_present_flag = <<0, 1>> => N8(l.output_gain_flag) /\ N8(l.reserved_b) /\ S16(l.output_gain)
GLayer(l) == LET og == l.output_gain_is_present_flag = <<0, 1>> IN
  [lay |-> l.loudspeaker_layout - 1, og |-> og, rg |-> l.recon_gain_is_present_flag = <<0, 1>>, ra |-> Small(l.reserved_a), sc |-> Small(l.substream_count), cc |-> Small(l.coupled_substream_count),
   of |-> IF og THEN Small(l.output_gain_flag) ELSE 0, rb |-> IF og THEN Small(l.reserved_b) ELSE 0, gain |-> IF og THEN l.output_gain ELSE 0,
   ex |-> IF l.loudspeaker_layout = 16 THEN l.expanded_loudspeaker_layout - 1 ELSE -1]
ForLayers(y) == [layout |-> y.lay, x |-> y.ex, subs |-> y.sc, pairs |-> y.cc, g |-> B2N(y.og), flags |-> y.of, value |-> y.gain]
DemixOf(p) == LET d == p.default_demixing_info_parameter_data IN <<d.dmixp_mode - 1, Small(d.reserved), Small(p.default_w), Small(p.reserved)>>
ParamSaid(p, frame) ==
  /\ ~p.has_deprecated_param_definition_type /\ p.has_param_definition_type
  /\ CASE p.param_definition_type = 2 -> LET d == p.demixing_param i == d.default_demixing_info_parameter_data IN
                                         /\ ArgsOk(d.param_definition) /\ i.dmixp_mode \in 1..8 /\ N8(i.reserved) /\ N8(d.default_w) /\ N8(d.reserved)
                                         /\ DurOf(GDef("demix", d.param_definition, << >>)) = frame
       [] p.param_definition_type = 3 -> LET d == p.recon_gain_param.param_definition IN ArgsOk(d) /\ DurOf(GDef("recon", d, << >>)) = frame
       [] p.param_definition_type = 256 -> TRUE
       [] OTHER -> FALSE
GParam(p) ==
  CASE p.param_definition_type = 2 -> [t |-> <<0, 1>>, d |-> GDef("demix", p.demixing_param.param_definition, DemixOf(p.demixing_param))]
    [] p.param_definition_type = 3 -> [t |-> <<0, 2>>, d |-> GDef("recon", p.recon_gain_param.param_definition, << >>)]
    [] OTHER -> [t |-> <<65535, 65535>>, d |-> [kind |-> "ext", id |-> Zero, rate |-> Zero, res |-> 0, sch |-> << >>, vals |-> << >>, bytes |-> p.param_definition_extension.param_definition_bytes]]
\* a parameter that says one type and gives another
ParamOpen(p) == CASE p.param_definition_type = 2 -> (IF p.has_demixing_param THEN ArgsOpen(p.demixing_param.param_definition) ELSE TRUE)
                  [] p.param_definition_type = 3 -> (IF p.has_recon_gain_param THEN ArgsOpen(p.recon_gain_param.param_definition) ELSE TRUE)
                  [] p.param_definition_type = 256 -> ~p.has_param_definition_extension
                  [] OTHER -> FALSE
\* every layer after the first needs recon gain, unless the codec loses nothing
ReconSaid(layers, params, lossless) ==
  /\ \A i \in 1..Len(layers) : layers[i].rg = (i > 1 /\ ~lossless)
  /\ (\E i \in 1..Len(params) : params[i].param_definition_type = 3) = (Len(layers) > 1 /\ ~lossless)
ChannelValid(m, lossless) ==
  /\ m.has_scalable_channel_layout_config
  /\ LET c == m.scalable_channel_layout_config IN
     /\ N8(c.reserved) /\ All(c.channel_audio_layer_configs, LayerSaid)
     /\ LET q == TLCEval(Each(c.channel_audio_layer_configs, GLayer)) IN
        /\ ChannelOk([layers |-> q], Len(m.audio_substream_ids)) /\ ReconSaid(q, m.audio_element_params, lossless)
        /\ L!OfChannels(m.audio_substream_ids, Each(q, ForLayers)).ok
AmbiSaid(c, preset) ==
  CASE c.has_ambisonics_mono_config -> LET a == c.ambisonics_mono_config IN
         N8(a.output_channel_count) /\ Len(a.channel_mapping) = Small(a.output_channel_count) /\ N8(a.substream_count) /\ All(a.channel_mapping, N8)
         /\ MonoOk(Small(a.substream_count), Each(a.channel_mapping, Small))
    [] c.has_ambisonics_projection_config -> LET a == c.ambisonics_projection_config IN
         N8(a.output_channel_count) /\ N8(a.substream_count) /\ N8(a.coupled_substream_count) /\ All(a.demixing_matrix, S16)
         /\ ProjOk(Small(a.output_channel_count), Small(a.substream_count), Small(a.coupled_substream_count), Len(a.demixing_matrix))
    [] c.has_ambisonics_preset_config -> preset # << >>
    [] OTHER -> FALSE
GAmbi(c, preset) ==
  CASE c.has_ambisonics_mono_config -> LET a == c.ambisonics_mono_config IN
         [mode |-> 0, ch |-> Small(a.output_channel_count), sub |-> Small(a.substream_count), coup |-> 0, map |-> Each(a.channel_mapping, Small), mat |-> << >>]
    [] c.has_ambisonics_projection_config -> LET a == c.ambisonics_projection_config IN
         [mode |-> 1, ch |-> Small(a.output_channel_count), sub |-> Small(a.substream_count), coup |-> Small(a.coupled_substream_count), map |-> << >>, mat |-> a.demixing_matrix]
    [] OTHER -> preset[1]
AmbiValid(m, preset) ==
  /\ m.has_ambisonics_config /\ AmbiSaid(m.ambisonics_config, preset)
  /\ LET g == GAmbi(m.ambisonics_config, preset) IN
     IF g.mode = 0 THEN L!OfMono(m.audio_substream_ids, g.sub, g.map).ok ELSE L!OfProjection(m.audio_substream_ids, g.ch, g.sub, g.coup).ok
ObjectsValid(m) == /\ m.has_objects_config /\ IsSmall(m.objects_config.num_objects) /\ ObjectsOk(Small(m.objects_config.num_objects)) /\ Len(m.audio_substream_ids) = 1
\* c: the codec config referred to, its frame size and whether it loses nothing
ElementValid(m, c, preset) ==
  /\ N8(m.reserved) /\ All(m.audio_element_params, LAMBDA p : ParamSaid(p, c.frame))
  /\ CASE m.audio_element_type = 1 -> ChannelValid(m, c.ll) [] m.audio_element_type = 2 -> AmbiValid(m, preset) [] m.audio_element_type = 3 -> ObjectsValid(m) [] OTHER -> FALSE
ElementOpen(m) == \E i \in 1..Len(m.audio_element_params) : ParamOpen(m.audio_element_params[i])
GElement(m, preset) ==
  [id |-> m.audio_element_id, type |-> m.audio_element_type - 1, res |-> Small(m.reserved), cc |-> m.codec_config_id, subs |-> m.audio_substream_ids, params |-> Each(m.audio_element_params, GParam),
   cfg |-> CASE m.audio_element_type = 1 -> LET c == m.scalable_channel_layout_config IN [res |-> Small(c.reserved), layers |-> Each(c.channel_audio_layer_configs, GLayer)]
             [] m.audio_element_type = 2 -> GAmbi(m.ambisonics_config, preset)
             [] OTHER -> [n |-> Small(m.objects_config.num_objects), bytes |-> m.objects_config.objects_config_extension_bytes]]

(* --- mix presentation --- *)
QOk(q) == (q.has_q7_dot8 => S16(q.q7_dot8)) /\ (q.has_floating_point => S16(q.floating_point))
Q(q) == IF q.has_q7_dot8 THEN q.q7_dot8 ELSE IF q.has_floating_point THEN q.floating_point ELSE 0
OffSaid(o) == CASE o.has_value_type -> QOk(o.value_type.element_gain_offset)
                [] o.has_range_type -> LET r == o.range_type IN
                     /\ QOk(r.default_element_gain_offset) /\ QOk(r.min_element_gain_offset) /\ QOk(r.max_element_gain_offset)
                     /\ OffOk([t |-> 1, v |-> <<Q(r.default_element_gain_offset), Q(r.min_element_gain_offset), Q(r.max_element_gain_offset)>>])
                [] OTHER -> FALSE
GOff(o) == IF o.has_value_type THEN [t |-> 0, v |-> <<Q(o.value_type.element_gain_offset)>>, b |-> << >>]
           ELSE LET r == o.range_type IN [t |-> 1, v |-> <<Q(r.default_element_gain_offset), Q(r.min_element_gain_offset), Q(r.max_element_gain_offset)>>, b |-> << >>]
PosKind(t) == <<"polar", "cart8", "cart16", "dpolar", "dcart8", "dcart16">>[t - 3]
PosHas(p) == CASE p.param_definition_type = 4 -> p.has_polar_param_definition [] p.param_definition_type = 5 -> p.has_cart8_param_definition
               [] p.param_definition_type = 6 -> p.has_cart16_param_definition [] p.param_definition_type = 7 -> p.has_dual_polar_param_definition
               [] p.param_definition_type = 8 -> p.has_dual_cart8_param_definition [] OTHER -> p.has_dual_cart16_param_definition
PosOf(p) == CASE p.param_definition_type = 4 -> p.polar_param_definition [] p.param_definition_type = 5 -> p.cart8_param_definition
              [] p.param_definition_type = 6 -> p.cart16_param_definition [] p.param_definition_type = 7 -> p.dual_polar_param_definition
              [] p.param_definition_type = 8 -> p.dual_cart8_param_definition [] OTHER -> p.dual_cart16_param_definition
PosVals(t, d) ==
  CASE t = 4 -> <<d.default_azimuth, d.default_elevation, d.default_distance>>
    [] t \in {5, 6} -> <<d.default_x, d.default_y, d.default_z>>
    [] t = 7 -> <<d.default_first_azimuth, d.default_first_elevation, d.default_first_distance, d.default_second_azimuth, d.default_second_elevation, d.default_second_distance>>
    [] OTHER -> <<d.default_first_x, d.default_first_y, d.default_first_z, d.default_second_x, d.default_second_y, d.default_second_z>>
Axis(i) == ((i - 1) % 3) + 1
\* a value has to be one of the type that holds it
PosFit(t, v, i) == CASE t \in {4, 7} -> (CASE Axis(i) = 1 -> S16(v) [] Axis(i) = 2 -> S8(v) [] OTHER -> v \in 0..255) [] t \in {5, 8} -> S8(v) [] OTHER -> S16(v)
PosSaid(p) == /\ p.param_definition_type \in 4..9
              /\ LET d == PosOf(p) v == PosVals(p.param_definition_type, d) IN ArgsOk(d.param_definition) /\ \A i \in 1..Len(v) : PosFit(p.param_definition_type, v[i], i)
PosOpen(p) == p.param_definition_type \in 4..9 /\ (IF PosHas(p) THEN ArgsOpen(PosOf(p).param_definition) ELSE TRUE)
GPos(p) == LET t == p.param_definition_type k == PosKind(t) d == PosOf(p) IN [t |-> TypeOfKind(k), d |-> GDef(k, d.param_definition, PosVals(t, d))]
RenderSaid(c) == /\ c.headphones_rendering_mode \in 1..4 /\ c.binaural_filter_profile \in 1..4 /\ N8(c.reserved)
                 /\ All(c.rendering_config_param_definitions, PosSaid) /\ (c.has_element_gain_offset_config => OffSaid(c.element_gain_offset_config))
GRender(c) == [mode |-> c.headphones_rendering_mode - 1, prof |-> c.binaural_filter_profile - 1, res |-> Small(c.reserved), params |-> Each(c.rendering_config_param_definitions, GPos),
               off |-> IF c.has_element_gain_offset_config THEN <<GOff(c.element_gain_offset_config)>> ELSE << >>, ext |-> c.rendering_config_extension_bytes]
GainSaid(g) == ArgsOk(g.param_definition) /\ S16(g.default_mix_gain)
GGain(g) == GDef("gain", g.param_definition, <<g.default_mix_gain>>)
Masks(q) == {q[i] : i \in 1..Len(q)}
Sum(S) == FoldLeft(LAMBDA a, b : IF b \in S THEN a + b ELSE a, 0, <<1, 2, 4, 8, 16, 32, 64, 128>>)
LayoutSaid(y) ==
  LET l == y.loudness_layout q == y.loudness info == Sum(Masks(q.info_type_bit_masks)) IN
  /\ CASE l.layout_type = 3 -> l.has_ss_layout /\ l.ss_layout.sound_system \in 1..15 /\ N8(l.ss_layout.reserved)
       [] l.layout_type \in {1, 2, 4} -> l.has_reserved_or_binaural_layout => N8(l.reserved_or_binaural_layout.reserved)
       [] OTHER -> FALSE
  /\ 0 \notin Masks(q.info_type_bit_masks) /\ S16(q.integrated_loudness) /\ S16(q.digital_peak) /\ (Bit(info, 0) => S16(q.true_peak))
  /\ Bit(info, 1) => LET a == q.anchored_loudness.anchor_elements IN Len(a) <= 255 /\ \A i \in 1..Len(a) : a[i].anchor_element \in 1..3 /\ S16(a[i].anchored_loudness)
GLayout(y) ==
  LET l == y.loudness_layout q == y.loudness info == Sum(Masks(q.info_type_bit_masks)) a == q.anchored_loudness.anchor_elements IN
  [t |-> l.layout_type - 1, ss |-> IF l.layout_type = 3 THEN l.ss_layout.sound_system - 1 ELSE 0,
   res |-> IF l.layout_type = 3 THEN Small(l.ss_layout.reserved) ELSE IF l.has_reserved_or_binaural_layout THEN Small(l.reserved_or_binaural_layout.reserved) ELSE 0,
   info |-> info, il |-> q.integrated_loudness, dp |-> q.digital_peak, tp |-> IF Bit(info, 0) THEN q.true_peak ELSE 0,
   anch |-> IF Bit(info, 1) THEN [i \in 1..Len(a) |-> <<a[i].anchor_element - 1, a[i].anchored_loudness>>] ELSE << >>, ext |-> IF info >= 4 THEN q.info_type_bytes ELSE << >>]
ElSaid(e, n) == Len(e.localized_element_annotations) = n /\ RenderSaid(e.rendering_config) /\ GainSaid(e.element_mix_gain)
GEl(e) == [id |-> e.audio_element_id, anns |-> e.localized_element_annotations, rc |-> GRender(e.rendering_config), gain |-> GGain(e.element_mix_gain)]
SubSaid(s, n) == All(s.audio_elements, LAMBDA e : ElSaid(e, n)) /\ GainSaid(s.output_mix_gain) /\ All(s.layouts, LayoutSaid)
GSub(s) == [els |-> Each(s.audio_elements, GEl), out |-> GGain(s.output_mix_gain), layouts |-> Each(s.layouts, GLayout)]
Tagged(m, append) == m.include_mix_presentation_tags \/ append
EncoderTag == <<<<105, 97, 109, 102, 95, 101, 110, 99, 111, 100, 101, 114>>, <<71, 105, 116, 72, 117, 98, 47, 105, 97, 109, 102, 45, 116, 111, 111, 108, 115>>>>
GTags(m, append) == LET t == m.mix_presentation_tags.tags IN [i \in 1..Len(t) |-> <<t[i].tag_name, t[i].tag_value>>] \o (IF append THEN <<EncoderTag>> ELSE << >>)
MixValid(m, append) ==
  LET n == Len(m.annotations_language) flag == m.obu_header.obu_trimming_status_flag IN
  /\ Len(m.localized_presentation_annotations) = n /\ All(m.sub_mixes, LAMBDA s : SubSaid(s, n))
  /\ Tagged(m, append) => Len(GTags(m, append)) <= 255
  /\ flag => Tagged(m, append) /\ m.optional_fields.preferred_loudspeaker_renderer # 0 /\ m.optional_fields.preferred_binaural_renderer # 0
GainOpen(g) == ArgsOpen(g.param_definition)
MixOpen(m) == \E i \in 1..Len(m.sub_mixes) : LET s == m.sub_mixes[i] IN
                \/ GainOpen(s.output_mix_gain)
                \/ \E j \in 1..Len(s.audio_elements) : LET e == s.audio_elements[j] IN
                     GainOpen(e.element_mix_gain) \/ \E k \in 1..Len(e.rendering_config.rendering_config_param_definitions) : PosOpen(e.rendering_config.rendering_config_param_definitions[k])
                \/ \E j \in 1..Len(s.layouts) : s.layouts[j].loudness_layout.layout_type = 3 /\ ~s.layouts[j].loudness_layout.has_ss_layout
GMix(m, append) ==
  LET o == m.optional_fields IN
  [id |-> m.mix_presentation_id, count |-> Pair(Len(m.annotations_language)), langs |-> m.annotations_language, anns |-> m.localized_presentation_annotations, subs |-> Each(m.sub_mixes, GSub),
   tags |-> IF Tagged(m, append) THEN <<GTags(m, append)>> ELSE << >>,
   opt |-> IF m.obu_header.obu_trimming_status_flag
           THEN <<[size |-> Pair(Len(o.optional_fields_remaining_bytes) + 2), lr |-> o.preferred_loudspeaker_renderer - 1,
                   br |-> o.preferred_binaural_renderer - 1, rest |-> o.optional_fields_remaining_bytes]>> ELSE << >>]

(* --- what came of it. What can be said but not written may be refused early --- *)
Judge(open, valid, writes, ok, same) == open \/ (IF ~valid THEN ~ok ELSE (ok => same) /\ (writes => ok))
=============================================================================
