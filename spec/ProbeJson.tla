------------------------------ MODULE ProbeJson ------------------------------
(* What the JSON form of a probe report says. Schema: for each structure its
   fields and their kinds; a field the report does not have is not in the
   document; a list keeps its order and length. *)
EXTENDS JsonText, FiniteSets
Schema(s) ==
  CASE s = "Report" -> [primary_profile |-> "str", primary_profile_raw |-> "int", additional_profile |-> "str", additional_profile_raw |-> "int",
         descriptor_bytes_consumed |-> "int", descriptor_total_samples |-> "int", descriptor_duration_seconds |-> "float",
         codec_configs |-> "Codec*", audio_elements |-> "Element*", mix_presentations |-> "Mix*", temporal_unit_scan |-> "Scan"]
    [] s = "Codec" -> [id |-> "int", codec_id |-> "str", codec_id_raw |-> "int", num_samples_per_frame |-> "int", audio_roll_distance |-> "int",
         output_sample_rate |-> "int", input_sample_rate |-> "int", bit_depth |-> "int", opus |-> "Opus", lpcm |-> "Lpcm", aac |-> "Aac", flac |-> "Flac"]
    [] s = "Opus" -> [version |-> "int", output_channel_count |-> "int", pre_skip |-> "int", input_sample_rate |-> "int", output_gain |-> "float",
         output_gain_q7_8 |-> "int", mapping_family |-> "int"]
    [] s = "Lpcm" -> [sample_format |-> "str", sample_format_raw |-> "int", sample_size |-> "int", sample_rate |-> "int"]
    [] s = "Aac" -> [object_type_indication |-> "int", stream_type |-> "int", upstream |-> "bool", reserved |-> "bool", buffer_size_db |-> "int",
         max_bitrate |-> "int", average_bit_rate |-> "int", audio_object_type |-> "int", sample_frequency_index |-> "str",
         sample_frequency_index_raw |-> "int", channel_configuration |-> "int"]
    [] s = "Flac" -> [metadata_blocks |-> "Block*"]
    [] s = "Block" -> [block_type |-> "str", block_type_raw |-> "int", minimum_block_size |-> "int", maximum_block_size |-> "int",
         minimum_frame_size |-> "int", maximum_frame_size |-> "int", sample_rate |-> "int", number_of_channels |-> "int",
         bits_per_sample |-> "int", total_samples_in_stream |-> "int"]
    [] s = "Element" -> [id |-> "int", type |-> "str", type_raw |-> "int", reserved |-> "int", codec_config_id |-> "int", num_substreams |-> "int",
         substream_ids |-> "int*", params |-> "Param*", scalable_layers |-> "Layer*", ambisonics |-> "Ambisonics", channel_layout |-> "str",
         channel_layout_raw |-> "int", expanded_channel_layout_raw |-> "int", ambisonics_order |-> "int", ambisonics_channels |-> "int",
         num_channels |-> "int"]
    [] s = "Param" -> [param_type |-> "str", param_type_raw |-> "int", parameter_id |-> "int", parameter_rate |-> "int",
         param_definition_mode |-> "int", duration |-> "int", constant_subblock_duration |-> "int"]
    [] s = "Layer" -> [loudspeaker_layout |-> "str", loudspeaker_layout_raw |-> "int", substream_count |-> "int", coupled_substream_count |-> "int",
         output_gain_is_present_flag |-> "bool", recon_gain_is_present_flag |-> "bool", output_gain_flag |-> "int", output_gain |-> "float",
         output_gain_q7_8 |-> "int", expanded_loudspeaker_layout |-> "str", expanded_loudspeaker_layout_raw |-> "int"]
    [] s = "Ambisonics" -> [mode |-> "str", mode_raw |-> "int", order |-> "int", mono |-> "Mono", projection |-> "Projection"]
    [] s = "Mono" -> [output_channel_count |-> "int", substream_count |-> "int", channel_mapping |-> "int*"]
    [] s = "Projection" -> [output_channel_count |-> "int", substream_count |-> "int", coupled_substream_count |-> "int", demixing_matrix |-> "int*"]
    [] s = "ParamDef" -> [parameter_id |-> "int", parameter_rate |-> "int", param_definition_mode |-> "int", duration |-> "int",
         constant_subblock_duration |-> "int"]
    [] s = "MixGain" -> [param_definition |-> "ParamDef", default_mix_gain |-> "float", default_mix_gain_q7_8 |-> "int"]
    [] s = "Loudness" -> [info_type |-> "int", true_peak_present |-> "bool", anchored_loudness_present |-> "bool", has_layout_extension |-> "bool",
         integrated_loudness |-> "float", digital_peak |-> "float", true_peak |-> "float", anchored_loudness_elements |-> "Anchor*"]
    [] s = "Anchor" -> [anchor_element |-> "str", anchor_element_raw |-> "int", anchored_loudness |-> "float", anchored_loudness_q7_8 |-> "int"]
    [] s = "Layout" -> [loudness_layout |-> "LoudLayout", loudness |-> "Loudness"]
    [] s = "LoudLayout" -> [layout_type |-> "str", layout_type_raw |-> "int", sound_system |-> "str", sound_system_raw |-> "int"]
    [] s = "SubMix" -> [audio_elements |-> "SubElement*", output_mix_gain |-> "MixGain", layouts |-> "Layout*"]
    [] s = "SubElement" -> [audio_element_id |-> "int", localized_element_annotations |-> "str*", rendering_config |-> "Rendering",
         element_mix_gain |-> "MixGain"]
    [] s = "Rendering" -> [headphones_rendering_mode |-> "str", headphones_rendering_mode_raw |-> "int", binaural_filter_profile |-> "str",
         binaural_filter_profile_raw |-> "int"]
    [] s = "Annotation" -> [language |-> "str", label |-> "str"]
    [] s = "Tag" -> [tag_name |-> "str", tag_value |-> "str"]
    [] s = "Mix" -> [id |-> "int", count_label |-> "int", num_sub_mixes |-> "int", annotations |-> "Annotation*", sub_mixes |-> "SubMix*",
         tags |-> "Tag*", layouts |-> "str*", integrated_loudness_lkfs |-> "float", digital_peak_dbfs |-> "float", true_peak_dbfs |-> "float"]
    [] s = "Scan" -> [temporal_unit_count |-> "int", audio_frame_count |-> "int", parameter_block_count |-> "int", temporal_delimiter_count |-> "int",
         audio_frame_parse_errors |-> "int", parameter_block_parse_errors |-> "int", bytes_consumed |-> "int", stopped_reason |-> "str",
         total_samples |-> "int", output_sample_rate |-> "int", duration_seconds |-> "float", audio_frames_by_substream |-> "Frames*",
         parameter_blocks |-> "PBlock*"]
    [] s = "Frames" -> [substream_id |-> "int", codec_config_id |-> "int", frame_count |-> "int", total_samples |-> "int"]
    [] s = "PBlock" -> [parameter_id |-> "int", param_type |-> "str", param_type_raw |-> "int", start_timestamp |-> "int", end_timestamp |-> "int",
         duration |-> "int", constant_subblock_duration |-> "int", subblocks |-> "Sub*"]
    [] s = "Sub" -> [subblock_duration |-> "int", mix_gain |-> "Gain", demixing |-> "Demixing", recon_gain |-> "Recon"]
    [] s = "Gain" -> [animation_type |-> "str", animation_type_raw |-> "int", start_point_value |-> "float", start_point_value_q7_8 |-> "int",
         end_point_value |-> "float", end_point_value_q7_8 |-> "int", control_point_value |-> "float", control_point_value_q7_8 |-> "int",
         control_point_relative_time |-> "int"]
    [] s = "Demixing" -> [dmixp_mode |-> "str", dmixp_mode_raw |-> "int", reserved |-> "int"]
    [] s = "Recon" -> [layers |-> "ReconLayer*"]
    [] s = "ReconLayer" -> [layer_index |-> "int", recon_gain_flag |-> "int", recon_gain |-> "int*"]
ListOf(k) == CASE k = "Codec*" -> "Codec" [] k = "Element*" -> "Element" [] k = "Mix*" -> "Mix" [] k = "Block*" -> "Block" [] k = "int*" -> "int"
               [] k = "str*" -> "str" [] k = "Param*" -> "Param" [] k = "Layer*" -> "Layer" [] k = "Anchor*" -> "Anchor" [] k = "SubElement*" -> "SubElement"
               [] k = "Layout*" -> "Layout" [] k = "Annotation*" -> "Annotation" [] k = "SubMix*" -> "SubMix" [] k = "Tag*" -> "Tag"
               [] k = "Frames*" -> "Frames" [] k = "PBlock*" -> "PBlock" [] k = "Sub*" -> "Sub" [] k = "ReconLayer*" -> "ReconLayer" [] OTHER -> ""

RECURSIVE ToInt(_, _)
ToInt(ds, i) == IF i = 0 THEN 0 ELSE DigitVal[ds[i]] + 10 * ToInt(ds, i - 1)
Ten(n) == IF n = 0 THEN 1 ELSE LET RECURSIVE P(_) P(k) == IF k = 0 THEN 1 ELSE 10 * P(k - 1) IN P(n)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Strip(_)
Strip(ds) == IF ds # << >> /\ Head(ds) = "0" THEN Strip(Tail(ds)) ELSE ds
\* the number v.int.frac*10^exp is n/256, to six significant digits at least
IsFloat(v, n) ==
  LET ds == Strip(v.int \o v.frac)
      e == (IF v.eneg THEN -1 ELSE 1) * ToInt(v.exp, Len(v.exp)) - Len(v.frac)
      pad == 6 - Len(ds)
      m == ToInt(ds, Len(ds)) * Ten(pad)  \* six digits
      f == e - pad
  IN IF Len(ds) > 6 \/ Len(v.exp) > 3 THEN FALSE
     ELSE IF n = 0 \/ m = 0 THEN n = 0 /\ m = 0
     ELSE /\ v.neg = (n < 0) /\ f \in -8..1
          /\ IF f >= 0 THEN Abs(m * 256 * Ten(f) - Abs(n)) <= 128 * Ten(f)
             ELSE Abs(m * 256 - Abs(n) * Ten(-f)) <= 128
RECURSIVE Says(_, _, _)
Says(kind, r, v) ==
  CASE kind = "int" -> v.k = "num" /\ v.frac = << >> /\ v.exp = << >> /\ (IF v.neg THEN "-" ELSE "") \o Cat(v.int) = r
    [] kind = "str" -> v.k = "str" /\ v.s = r
    [] kind = "bool" -> v.k = "bool" /\ v.b = r
    [] kind = "float" -> v.k = "num" /\ IsFloat(v, r)
    [] ListOf(kind) # "" -> v.k = "arr" /\ Len(v.a) = Len(r) /\ \A i \in 1..Len(r) : Says(ListOf(kind), r[i], v.a[i])
    [] OTHER -> LET sch == Schema(kind) IN
                /\ v.k = "obj"
                /\ \A i, j \in 1..Len(v.m) : i # j => v.m[i].key # v.m[j].key
                /\ \A i \in 1..Len(v.m) : /\ v.m[i].key \in DOMAIN sch /\ v.m[i].key \in DOMAIN r
                                          /\ Says(sch[v.m[i].key], r[v.m[i].key], v.m[i].val)
                \* an empty list may be left out
                /\ \A k \in DOMAIN r : \/ \E i \in 1..Len(v.m) : v.m[i].key = k
                                       \/ k \in DOMAIN sch /\ ListOf(sch[k]) # "" /\ r[k] = << >>
=============================================================================
