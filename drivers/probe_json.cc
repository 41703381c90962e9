// P02: the JSON form of a probe report.
#include <optional>
#include "iamf/cli/probe.h"
#include "iamf/cli/probe_json.h"
#include "vtrace.h"
using namespace iamf_tools;
using namespace vt;
static Rng* R;
static std::vector<std::string> Chars(const std::string& s) {
  std::vector<std::string> r;
  for (unsigned char c : s) { char b[8]; if (c < 32 || c > 126) std::snprintf(b, sizeof b, "x%02x", c); else b[0] = c, b[1] = 0; r.push_back(b); }
  return r;
}
static std::string MkStr() {
  std::string s; int n = R->P(30) ? R->In(0, 2) : R->In(0, 9);
  static const char* pieces[] = {"\"", "\\", "\n", "\r", "\t", "\b", "\f", "/", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x8e\xb5", "{", "}", ",", ":", "u0041", "\\n", " "};
  for (int i = 0; i < n; ++i) {
    if (R->P(45)) s += pieces[R->In(0, 18)];
    else if (R->P(25)) s += (char)R->In(0, 31);
    else s += (char)R->In(32, 126);
  }
  return s;
}
// Fills a structure and writes down what was put there.
struct O {
  Obj o;
  template <class T> void I(const char* k, T& v) {
    uint64_t x = R->Next() >> R->In(0, 63);
    if (R->P(15)) x = R->P(50) ? 0 : ~uint64_t{0};
    if (R->P(10)) x = uint64_t{1} << (sizeof(T) * 8 - 1);
    v = (T)x; o.f(k, std::to_string(+v));
  }
  template <class T> void I(const char* k, std::optional<T>& v) { v.reset(); if (R->P(60)) { v.emplace(); I(k, *v); } }
  template <class E> void En(const char* k, E& v) { int x = R->In(0, 255); v = (E)x; o.f(k, std::to_string((int)v)); }
  void S(const char* k, std::string& v) { v = MkStr(); o.f(k, Chars(v)); }
  void S(const char* k, std::optional<std::string>& v) { v.reset(); if (R->P(60)) { v.emplace(); S(k, *v); } }
  void B(const char* k, bool& v) { v = R->P(50); o.f(k, v); }
  template <class T> void F(const char* k, T& v) {  // a multiple of 1/256
    int n = R->P(70) ? R->In(-32768, 32767) : R->P(50) ? R->In(-3, 3) * 256 : sizeof(T) > 4 ? R->In(0, 2000000000) : R->In(-800, 800);
    v = n / 256.0; o.f(k, n);
  }
  template <class T> void F(const char* k, std::optional<T>& v) { v.reset(); if (R->P(60)) { v.emplace(); F(k, *v); } }
  template <class T> void IV(const char* k, std::vector<T>& v) {
    v.clear(); std::vector<std::string> s; int n = R->P(40) ? 0 : R->In(1, 4);
    for (int i = 0; i < n; ++i) { v.push_back((T)(R->Next() >> R->In(0, 63))); s.push_back(std::to_string(+v.back())); }
    o.f(k, s);
  }
  void SV(const char* k, std::vector<std::string>& v) {
    v.clear(); std::string s = "["; int n = R->In(0, 2);
    for (int i = 0; i < n; ++i) { v.push_back(MkStr()); s += (i ? "," : "") + Js(Chars(v.back())); }
    o.raw(k, s + "]");
  }
  template <class T> void Sub(const char* k, T& v);
  template <class T> void Opt(const char* k, std::optional<T>& v, int pct = 50) { v.reset(); if (R->P(pct)) { v.emplace(); Sub(k, *v); } }
  template <class T> void L(const char* k, std::vector<T>& v, int lo = 0, int hi = 2);
};
static void Fill(O& o, OpusDecoderConfigReport& r) { o.I("version", r.version); o.I("output_channel_count", r.output_channel_count); o.I("pre_skip", r.pre_skip); o.I("input_sample_rate", r.input_sample_rate); o.F("output_gain", r.output_gain); o.I("output_gain_q7_8", r.output_gain_q7_8); o.I("mapping_family", r.mapping_family); }
static void Fill(O& o, LpcmDecoderConfigReport& r) { o.S("sample_format", r.sample_format); o.I("sample_format_raw", r.sample_format_raw); o.I("sample_size", r.sample_size); o.I("sample_rate", r.sample_rate); }
static void Fill(O& o, AacDecoderConfigReport& r) { o.I("object_type_indication", r.object_type_indication); o.I("stream_type", r.stream_type); o.B("upstream", r.upstream); o.B("reserved", r.reserved); o.I("buffer_size_db", r.buffer_size_db); o.I("max_bitrate", r.max_bitrate); o.I("average_bit_rate", r.average_bit_rate); o.I("audio_object_type", r.audio_object_type); o.S("sample_frequency_index", r.sample_frequency_index); o.I("sample_frequency_index_raw", r.sample_frequency_index_raw); o.I("channel_configuration", r.channel_configuration); }
static void Fill(O& o, FlacMetaBlockReport& r) {
  o.S("block_type", r.block_type); o.I("block_type_raw", r.block_type_raw); r.is_stream_info = R->P(60);
  if (!r.is_stream_info) return;
  o.I("minimum_block_size", r.minimum_block_size); o.I("maximum_block_size", r.maximum_block_size); o.I("minimum_frame_size", r.minimum_frame_size); o.I("maximum_frame_size", r.maximum_frame_size); o.I("sample_rate", r.sample_rate); o.I("number_of_channels", r.number_of_channels); o.I("bits_per_sample", r.bits_per_sample); o.I("total_samples_in_stream", r.total_samples_in_stream);
}
static void Fill(O& o, FlacDecoderConfigReport& r) { o.L("metadata_blocks", r.metadata_blocks); }
static void Fill(O& o, CodecConfigReport& r) {
  o.I("id", r.id); o.S("codec_id", r.codec_id); o.I("codec_id_raw", r.codec_id_raw); o.I("num_samples_per_frame", r.num_samples_per_frame); o.I("audio_roll_distance", r.audio_roll_distance);
  o.I("output_sample_rate", r.output_sample_rate); o.I("input_sample_rate", r.input_sample_rate); o.I("bit_depth", r.bit_depth);
  o.Opt("opus", r.opus, 35); o.Opt("lpcm", r.lpcm, 35); o.Opt("aac", r.aac, 35); o.Opt("flac", r.flac, 35);
}
static void Fill(O& o, AudioElementParamReport& r) { o.S("param_type", r.param_type); o.I("param_type_raw", r.param_type_raw); o.I("parameter_id", r.parameter_id); o.I("parameter_rate", r.parameter_rate); o.I("param_definition_mode", r.param_definition_mode); o.I("duration", r.duration); o.I("constant_subblock_duration", r.constant_subblock_duration); }
static void Fill(O& o, ChannelAudioLayerReport& r) {
  o.S("loudspeaker_layout", r.loudspeaker_layout); o.I("loudspeaker_layout_raw", r.loudspeaker_layout_raw); o.S("expanded_loudspeaker_layout", r.expanded_loudspeaker_layout); o.I("expanded_loudspeaker_layout_raw", r.expanded_loudspeaker_layout_raw);
  o.B("output_gain_is_present_flag", r.output_gain_is_present_flag); o.B("recon_gain_is_present_flag", r.recon_gain_is_present_flag); o.I("substream_count", r.substream_count); o.I("coupled_substream_count", r.coupled_substream_count); o.I("output_gain_flag", r.output_gain_flag); o.I("output_gain_q7_8", r.output_gain_q7_8); o.F("output_gain", r.output_gain);
}
static void Fill(O& o, AmbisonicsMonoReport& r) { o.I("output_channel_count", r.output_channel_count); o.I("substream_count", r.substream_count); o.IV("channel_mapping", r.channel_mapping); }
static void Fill(O& o, AmbisonicsProjectionReport& r) { o.I("output_channel_count", r.output_channel_count); o.I("substream_count", r.substream_count); o.I("coupled_substream_count", r.coupled_substream_count); o.IV("demixing_matrix", r.demixing_matrix); }
static void Fill(O& o, AmbisonicsReport& r) { o.S("mode", r.mode); o.I("mode_raw", r.mode_raw); o.Opt("mono", r.mono); o.Opt("projection", r.projection); o.I("order", r.order); }
static void Fill(O& o, AudioElementReport& r) {
  o.I("id", r.id); o.S("type", r.type); o.I("type_raw", r.type_raw); o.I("reserved", r.reserved); o.I("codec_config_id", r.codec_config_id); o.I("num_substreams", r.num_substreams); o.IV("substream_ids", r.substream_ids);
  o.L("params", r.params); o.L("scalable_layers", r.scalable_layers); o.Opt("ambisonics", r.ambisonics); o.S("channel_layout", r.channel_layout); o.I("channel_layout_raw", r.channel_layout_raw); o.I("expanded_channel_layout_raw", r.expanded_channel_layout_raw);
  o.I("ambisonics_order", r.ambisonics_order); o.I("ambisonics_channels", r.ambisonics_channels); o.I("num_channels", r.num_channels);
}
static void Fill(O& o, ParamDefinitionReport& r) { o.I("parameter_id", r.parameter_id); o.I("parameter_rate", r.parameter_rate); o.I("param_definition_mode", r.param_definition_mode); o.I("duration", r.duration); o.I("constant_subblock_duration", r.constant_subblock_duration); }
static void Fill(O& o, MixGainParamDefinitionReport& r) { o.Sub("param_definition", r.param_definition); o.I("default_mix_gain_q7_8", r.default_mix_gain_q7_8); o.F("default_mix_gain", r.default_mix_gain); }
static void Fill(O& o, RenderingConfigReport& r) { o.S("headphones_rendering_mode", r.headphones_rendering_mode); o.I("headphones_rendering_mode_raw", r.headphones_rendering_mode_raw); o.S("binaural_filter_profile", r.binaural_filter_profile); o.I("binaural_filter_profile_raw", r.binaural_filter_profile_raw); }
static void Fill(O& o, SubMixAudioElementReport& r) { o.I("audio_element_id", r.audio_element_id); o.SV("localized_element_annotations", r.localized_element_annotations); o.Sub("rendering_config", r.rendering_config); o.Sub("element_mix_gain", r.element_mix_gain); }
static void Fill(O& o, AnchoredLoudnessElementReport& r) { o.S("anchor_element", r.anchor_element); o.I("anchor_element_raw", r.anchor_element_raw); o.I("anchored_loudness_q7_8", r.anchored_loudness_q7_8); o.F("anchored_loudness", r.anchored_loudness); }
static void Fill(O& o, LayoutReport& r) { o.S("layout_type", r.layout_type); o.I("layout_type_raw", r.layout_type_raw); o.S("sound_system", r.sound_system); o.I("sound_system_raw", r.sound_system_raw); }
static void Fill(O& o, LoudnessInfoReport& r) { o.I("info_type", r.info_type); o.B("true_peak_present", r.true_peak_present); o.B("anchored_loudness_present", r.anchored_loudness_present); o.B("has_layout_extension", r.has_layout_extension); o.F("integrated_loudness", r.integrated_loudness); o.F("digital_peak", r.digital_peak); o.F("true_peak", r.true_peak); o.L("anchored_loudness_elements", r.anchored_loudness_elements); }
static void Fill(O& o, MixPresentationLayoutReport& r) { o.Sub("loudness_layout", r.loudness_layout); o.Sub("loudness", r.loudness); }
static void Fill(O& o, SubMixReport& r) { o.L("audio_elements", r.audio_elements); o.Sub("output_mix_gain", r.output_mix_gain); o.L("layouts", r.layouts); }
static void Fill(O& o, MixPresentationTagReport& r) { o.S("tag_name", r.tag_name); o.S("tag_value", r.tag_value); }
static void Fill(O& o, std::pair<std::string, std::string>& r) { o.S("language", r.first); o.S("label", r.second); }
static void Fill(O& o, MixPresentationReport& r) {
  o.I("id", r.id); o.I("count_label", r.count_label); o.L("annotations", r.annotations); o.I("num_sub_mixes", r.num_sub_mixes); o.L("sub_mixes", r.sub_mixes, 0, 2); o.L("tags", r.tags); o.SV("layouts", r.layouts);
  o.F("integrated_loudness_lkfs", r.integrated_loudness_lkfs); o.F("digital_peak_dbfs", r.digital_peak_dbfs); o.F("true_peak_dbfs", r.true_peak_dbfs);
}
static void Fill(O& o, AudioFrameSummaryReport& r) { o.I("substream_id", r.substream_id); o.I("codec_config_id", r.codec_config_id); o.I("frame_count", r.frame_count); o.I("total_samples", r.total_samples); }
static void Fill(O& o, MixGainAnimationReport& r) {
  o.S("animation_type", r.animation_type); o.I("animation_type_raw", r.animation_type_raw); o.F("start_point_value", r.start_point_value); o.I("start_point_value_q7_8", r.start_point_value_q7_8);
  if (R->P(50)) { r.end_point_value.emplace(); r.end_point_value_q7_8.emplace(); o.F("end_point_value", *r.end_point_value); o.I("end_point_value_q7_8", *r.end_point_value_q7_8); }
  if (R->P(50)) { r.control_point_value.emplace(); r.control_point_value_q7_8.emplace(); o.F("control_point_value", *r.control_point_value); o.I("control_point_value_q7_8", *r.control_point_value_q7_8); }
  o.I("control_point_relative_time", r.control_point_relative_time);
}
static void Fill(O& o, DemixingInfoReport& r) { o.S("dmixp_mode", r.dmixp_mode); o.I("dmixp_mode_raw", r.dmixp_mode_raw); o.I("reserved", r.reserved); }
static void Fill(O& o, ReconGainForLayerReport& r) { o.I("layer_index", r.layer_index); o.I("recon_gain_flag", r.recon_gain_flag); o.IV("recon_gain", r.recon_gain); }
static void Fill(O& o, ReconGainInfoReport& r) { o.L("layers", r.layers); }
static void Fill(O& o, ParameterSubblockReport& r) { o.I("subblock_duration", r.subblock_duration); o.Opt("mix_gain", r.mix_gain); o.Opt("demixing", r.demixing); o.Opt("recon_gain", r.recon_gain); }
static void Fill(O& o, ParameterBlockReport& r) { o.I("parameter_id", r.parameter_id); o.S("param_type", r.param_type); o.I("param_type_raw", r.param_type_raw); o.I("start_timestamp", r.start_timestamp); o.I("end_timestamp", r.end_timestamp); o.I("duration", r.duration); o.I("constant_subblock_duration", r.constant_subblock_duration); o.L("subblocks", r.subblocks); }
static void Fill(O& o, TemporalUnitScanReport& r) {
  o.I("temporal_unit_count", r.temporal_unit_count); o.I("audio_frame_count", r.audio_frame_count); o.I("parameter_block_count", r.parameter_block_count); o.I("temporal_delimiter_count", r.temporal_delimiter_count);
  o.I("audio_frame_parse_errors", r.audio_frame_parse_errors); o.I("parameter_block_parse_errors", r.parameter_block_parse_errors); o.L("audio_frames_by_substream", r.audio_frames_by_substream); o.L("parameter_blocks", r.parameter_blocks);
  o.I("total_samples", r.total_samples); o.F("duration_seconds", r.duration_seconds); o.I("output_sample_rate", r.output_sample_rate); o.I("bytes_consumed", r.bytes_consumed); o.S("stopped_reason", r.stopped_reason);
}
template <class T> void O::Sub(const char* k, T& v) { O x; Fill(x, v); o.raw(k, x.o.end().s); }
template <class T> void O::L(const char* k, std::vector<T>& v, int lo, int hi) {
  v.clear(); std::string s = "["; int n = R->In(lo, hi);
  for (int i = 0; i < n; ++i) { v.emplace_back(); O x; Fill(x, v.back()); s += (i ? "," : "") + x.o.end().s; }
  o.raw(k, s + "]");
}
int main(int argc, char** argv) {
  Init(argc, argv); Rng r(ArgI("seed", 1)); R = &r;
  const int n = ArgI("n", 100);
  for (int i = 0; i < n; ++i) {
    ProbeReport p; O o;
    o.S("primary_profile", p.primary_profile); o.I("primary_profile_raw", p.primary_profile_raw); o.S("additional_profile", p.additional_profile); o.I("additional_profile_raw", p.additional_profile_raw);
    const int which = R->P(20) ? 15 : 1 << R->In(0, 3);  // mostly one part at a time
    o.L("codec_configs", p.codec_configs, 0, which & 1 ? 3 : 0); o.L("audio_elements", p.audio_elements, 0, which & 2 ? 2 : 0); o.L("mix_presentations", p.mix_presentations, 0, which & 4 ? 2 : 0);
    o.I("descriptor_bytes_consumed", p.descriptor_bytes_consumed); o.I("descriptor_total_samples", p.descriptor_total_samples); o.F("descriptor_duration_seconds", p.descriptor_duration_seconds);
    if (which & 8) o.Opt("temporal_unit_scan", p.temporal_unit_scan, 90);
    auto text = ProbeReportToJson(p);
    Ev("json").raw("report", o.o.end().s).f("text", Chars(text));
  }
  return 0;
}
