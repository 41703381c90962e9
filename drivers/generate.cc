// G01: descriptors made from what the user's metadata says.
#include "descrbytes.h"
#include "metadata.h"
#include "iamf/cli/ambisonics_mixer.h"
#include "iamf/cli/proto/audio_element.pb.h"
#include "iamf/cli/proto/codec_config.pb.h"
#include "iamf/cli/proto/ia_sequence_header.pb.h"
#include "iamf/cli/proto/mix_presentation.pb.h"
#include "iamf/cli/proto_conversion/proto_to_obu/audio_element_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/codec_config_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/ia_sequence_header_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/mix_presentation_generator.h"
#include "iamf/cli/proto_conversion/proto_utils.h"
extern "C" int g_opus_lookahead;

// --- metadata that makes sense
static void CodecMd(ip::CodecConfigObuMetadata& m, int id) {
  m.set_codec_config_id(R->P(90) ? id : Num()); if (R->P(30)) Head(m.mutable_obu_header(), false);
  auto& c = *m.mutable_codec_config(); uint32_t frame = R->Pick<int>({1, 16, 64, 960, 1024, 1000, R->In(1, 5000)});
  if (R->P(60)) c.set_automatically_override_codec_delay(R->P(30)); if (R->P(30)) c.set_automatically_override_audio_roll_distance(R->P(60)); 
  int roll = R->P(85) ? 0 : R->In(-3, 3);
  switch (R->In(0, 3)) {
    case 0: { c.set_codec_id(ip::CODEC_ID_LPCM); auto& l = *c.mutable_decoder_config_lpcm(); l.set_sample_format_flags(R->P(50) ? ip::LPCM_BIG_ENDIAN : ip::LPCM_LITTLE_ENDIAN); l.set_sample_size(8 * R->In(2, 4)); l.set_sample_rate(R->Pick<int>({16000, 32000, 44100, 48000, 96000})); break; }
    case 1: { c.set_codec_id(ip::CODEC_ID_OPUS); frame = R->Pick<int>({120, 240, 480, 960, 1920, 1000}); auto& l = *c.mutable_decoder_config_opus(); l.set_version(R->P(80) ? 1 : R->In(0, 15)); if (R->P(50)) l.set_pre_skip(R->In(0, 65535)); l.set_input_sample_rate(R->P(80) ? 48000 : (uint32_t)Num());
      if (R->P(10)) l.set_output_gain(0); l.mutable_opus_encoder_metadata()->set_application(ip::APPLICATION_AUDIO); l.mutable_opus_encoder_metadata()->set_target_bitrate_per_channel(48000); if (R->P(60)) roll = -((3840 + (int)frame - 1) / (int)frame); break; }
    case 2: { c.set_codec_id(ip::CODEC_ID_AAC_LC); frame = R->P(80) ? 1024 : frame; auto& l = *c.mutable_decoder_config_aac(); if (R->P(40)) l.set_buffer_size_db(R->In(0, 99999)); if (R->P(40)) l.set_max_bitrate(Num()); if (R->P(40)) l.set_average_bit_rate(Num());
      if (R->P(30)) l.set_upstream(false); auto& s = *l.mutable_decoder_specific_info();
      if (R->P(70)) s.set_sample_frequency_index(static_cast<ip::SampleFrequencyIndex>(R->In(1, 13))); else { s.set_sample_frequency_index(ip::AAC_SAMPLE_FREQUENCY_INDEX_ESCAPE_VALUE); s.set_sampling_frequency(R->Pick<int>({96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350, 0, 48001})); }
      if (R->P(30)) l.mutable_ga_specific_config(); if (R->P(60)) roll = -1; break; }
    default: { c.set_codec_id(ip::CODEC_ID_FLAC); frame = R->In(16, 4096); auto& l = *c.mutable_decoder_config_flac(); auto* b = l.add_metadata_blocks(); b->mutable_header()->set_block_type(ip::FLAC_BLOCK_TYPE_STREAMINFO);
      auto& s = *b->mutable_stream_info(); s.set_minimum_block_size(frame); s.set_maximum_block_size(frame); s.set_sample_rate(R->Pick<int>({16000, 44100, 48000, 96000})); s.set_bits_per_sample(15 + 8 * R->In(0, 2));
      if (R->P(50)) s.set_total_samples_in_stream(R->In(0, 100000)); if (R->P(20)) s.set_number_of_channels(1); if (R->P(20)) s.set_minimum_frame_size(0);
      for (int k = R->P(50) ? 0 : R->In(1, 3); k > 0; --k) { auto* g = l.add_metadata_blocks(); g->mutable_header()->set_block_type(static_cast<ip::FlacBlockType>(R->In(2, 7))); g->set_generic_block(Str(R->In(0, 6))); if (R->P(10)) g->mutable_header()->set_last_metadata_block_flag(true); } }
  }
  c.set_num_samples_per_frame(frame); if (roll) c.set_audio_roll_distance(roll);
}
static void Args(ip::ParamDefinition* p, uint32_t dur, bool one) {
  p->set_parameter_id(Num()); p->set_parameter_rate(R->P(95) ? 48000 : 0); if (R->P(10)) p->set_reserved(R->In(0, 127));
  if (!one && R->P(45)) { p->set_param_definition_mode(true); return; }
  if (one ? R->P(90) : R->P(55)) { p->set_duration(dur); p->set_constant_subblock_duration(one ? dur : (uint32_t)R->In(std::max<int>(1, dur / 20), dur)); return; }
  int left = dur; while (left > 0) { int k = R->In(std::max(1, left / 3), left); p->add_subblock_durations(k); left -= k; } p->set_duration(dur); if (R->P(10)) p->clear_duration();
}
static void ElementMd(ip::AudioElementObuMetadata& m, int id, const std::vector<std::pair<D, uint32_t>>& codecs, bool lossless) {
  m.set_audio_element_id(R->P(90) ? id : Num()); if (R->P(30)) Head(m.mutable_obu_header(), false); if (R->P(15)) m.set_reserved(R->In(0, 31));
  uint32_t frame = 64; if (!codecs.empty()) { auto c = R->Pick(codecs); m.set_codec_config_id(c.first); frame = c.second; }
  auto& subs = *m.mutable_audio_substream_ids(); auto sub = [&](int n) { D s = R->In(0, 50); for (int i = 0; i < n; ++i) subs.Add(s += R->P(90) ? 1 : R->In(1, 99999)); };
  const int t = R->P(50) ? 1 : R->P(70) ? 2 : 3; m.set_audio_element_type(static_cast<ip::AudioElementType>(t)); bool recon = false;
  if (t == 1) {
    auto& c = *m.mutable_scalable_channel_layout_config(); if (R->P(10)) c.set_reserved(R->In(0, 31));
    static const std::vector<std::vector<int>> kChains = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}, {8}, {9}, {15}, {15}, {0, 1}, {1, 2}, {1, 2, 4}, {1, 3, 4}, {0, 1, 2, 3, 4}, {1, 5, 7}, {2, 5, 6, 7}, {0, 1, 8, 3, 4, 7}, {1, 1}, {10}, {14}};
    auto chain = R->Pick(kChains); const int* before = nullptr; int n = 0;
    for (size_t i = 0; i < chain.size(); ++i) {
      auto& l = *c.add_channel_audio_layer_configs(); l.set_loudspeaker_layout(static_cast<ip::LoudspeakerLayout>(chain[i] + 1)); int pairs = 0, all = 1;
      if (chain[i] == 15) { const int x = R->In(0, 19); l.set_expanded_loudspeaker_layout(static_cast<ip::ExpandedLoudspeakerLayout>(x + 1)); pairs = el::X[x][0]; all = pairs + el::X[x][1]; }
      else if (chain[i] < 10) { el::Counts(before, el::N[chain[i]], pairs, all); before = el::N[chain[i]]; }
      l.set_substream_count(all); l.set_coupled_substream_count(pairs); n += all; if (R->P(10)) l.set_reserved_a(R->In(0, 3));
      const bool rg = i > 0 && !lossless; recon |= rg; if (rg) l.set_recon_gain_is_present_flag(1);
      if (R->P(35)) { l.set_output_gain_is_present_flag(1); l.set_output_gain_flag(R->In(0, 63)); l.set_output_gain(S16()); if (R->P(10)) l.set_reserved_b(R->In(0, 3)); } else if (R->P(10)) { l.set_output_gain(99999); l.set_output_gain_flag(300); }
    }
    sub(n);
  } else if (t == 2) {
    auto& a = *m.mutable_ambisonics_config(); const int n = R->Pick<int>({1, 4, 9, 16, 25, 36});
    if (R->P(40)) { auto& q = *a.mutable_ambisonics_mono_config(); q.set_output_channel_count(n); const int s = R->In(1, n); q.set_substream_count(s); for (int i = 0; i < n; ++i) q.add_channel_mapping(i < s ? i : R->P(60) ? 255 : R->In(0, s - 1));
      for (int i = R->In(0, n); i > 0 && n > 1; --i) q.mutable_channel_mapping()->SwapElements(R->In(0, n - 1), R->In(0, n - 1)); sub(s); }
    else if (R->P(60)) { auto& q = *a.mutable_ambisonics_projection_config(); q.set_output_channel_count(n); const int s = R->In(1, n), k = R->In(0, std::min(s, n - s)); q.set_substream_count(s); q.set_coupled_substream_count(k); for (int i = 0; i < (s + k) * n; ++i) q.add_demixing_matrix(S16()); sub(s); }
    else { const int k = R->In(1, 4); a.mutable_ambisonics_preset_config()->set_ambisonics_preset(static_cast<ip::AmbisonicsPreset>(k)); sub(k * k); }
  } else { auto& o = *m.mutable_objects_config(); o.set_num_objects(R->In(1, 2)); if (R->P(40)) o.set_objects_config_extension_bytes(Str(R->In(0, 5))); sub(1); }
  if (R->P(30) && (t < 3 || R->P(20))) { auto& p = *m.add_audio_element_params(); p.set_param_definition_type(ip::PARAM_DEFINITION_TYPE_DEMIXING); auto& d = *p.mutable_demixing_param(); Args(d.mutable_param_definition(), frame, true);
    auto& e = *d.mutable_default_demixing_info_parameter_data(); e.set_dmixp_mode(R->Pick<ip::DMixPMode>({ip::DMIXP_MODE_1, ip::DMIXP_MODE_2, ip::DMIXP_MODE_3, ip::DMIXP_MODE_1_N, ip::DMIXP_MODE_2_N, ip::DMIXP_MODE_3_N})); if (R->P(30)) e.set_reserved(R->In(0, 31)); d.set_default_w(R->In(0, 10)); if (R->P(20)) d.set_reserved(R->In(0, 15)); }
  if (recon) { auto& p = *m.add_audio_element_params(); p.set_param_definition_type(ip::PARAM_DEFINITION_TYPE_RECON_GAIN); Args(p.mutable_recon_gain_param()->mutable_param_definition(), frame, true); }
  if (R->P(8)) { auto& p = *m.add_audio_element_params(); p.set_param_definition_type(ip::PARAM_DEFINITION_TYPE_RESERVED_255); p.mutable_param_definition_extension()->set_param_definition_bytes(Str(R->In(0, 5))); }
}
static void Gain(ip::MixGainParamDefinition* g) { Args(g->mutable_param_definition(), R->In(1, 5000), false); if (R->P(70)) g->set_default_mix_gain(S16()); }
static void Q(ip::QFormatOrFloatingPoint* q, int v) { if (R->P(60)) q->set_q7_dot8(v); else q->set_floating_point((float)v / 256); }
static void MixMd(ip::MixPresentationObuMetadata& m) {
  m.set_mix_presentation_id(Num()); const bool flag = R->P(25); if (flag || R->P(30)) Head(m.mutable_obu_header(), flag);
  const int n = R->P(20) ? R->In(3, 9) : R->In(0, 2); for (int i = 0; i < n; ++i) { m.add_annotations_language(std::string(1, 'a' + i)); m.add_localized_presentation_annotations(std::string(R->In(0, 5), 'p')); } if (R->P(5)) m.set_count_label(R->P(50) ? n : R->In(0, 4));
  for (int i = R->P(80) ? 1 : R->In(0, 2); i > 0; --i) {
    auto& s = *m.add_sub_mixes();
    for (int j = R->P(70) ? 1 : R->In(0, 2); j > 0; --j) {
      auto& e = *s.add_audio_elements(); e.set_audio_element_id(Num()); for (int k = R->P(8) ? R->In(-1, 2) : 0; k < n; ++k) e.add_localized_element_annotations(std::string(R->In(0, 4), 'e'));
      auto& c = *e.mutable_rendering_config(); c.set_headphones_rendering_mode(static_cast<ip::HeadPhonesRenderingMode>(R->In(1, 4))); if (R->P(50)) c.set_binaural_filter_profile(static_cast<ip::BinauralFilterProfile>(R->In(1, 4)));
      if (R->P(10)) c.set_reserved(R->In(0, 7)); if (R->P(15)) c.set_rendering_config_extension_bytes(Str(R->In(0, 5)));
      if (R->P(35)) {
        auto& p = *c.add_rendering_config_param_definitions(); const int k = R->In(4, 9); p.set_param_definition_type(static_cast<ip::ParamDefinitionType>(k));
        pb::Message* q = k == 4 ? (pb::Message*)p.mutable_polar_param_definition() : k == 5 ? (pb::Message*)p.mutable_cart8_param_definition() : k == 6 ? (pb::Message*)p.mutable_cart16_param_definition() : k == 7 ? (pb::Message*)p.mutable_dual_polar_param_definition() : k == 8 ? (pb::Message*)p.mutable_dual_cart8_param_definition() : (pb::Message*)p.mutable_dual_cart16_param_definition();
        auto* r = q->GetReflection(); auto* d = q->GetDescriptor();
        for (int f = 0; f < d->field_count(); ++f) if (d->field(f)->cpp_type() == FD::CPPTYPE_MESSAGE) Args(static_cast<ip::ParamDefinition*>(r->MutableMessage(q, d->field(f))), R->In(1, 5000), false);
          else if (R->P(90)) r->SetInt32(q, d->field(f), k % 3 == 1 ? (d->field(f)->name().find("distance") != std::string::npos ? R->In(0, R->P(90) ? 127 : 255) : R->In(-128, 127)) : k % 3 == 2 ? R->In(-128, 127) : R->In(-32768, 32767));
      }
      if (R->P(35)) { auto& g = *c.mutable_element_gain_offset_config(); if (R->P(50)) Q(g.mutable_value_type()->mutable_element_gain_offset(), S16());
        else { int a[3] = {S16(), S16(), S16()}; if (R->P(80)) { std::sort(a, a + 3); std::swap(a[0], a[1]); } auto& t = *g.mutable_range_type(); Q(t.mutable_default_element_gain_offset(), a[0]); Q(t.mutable_min_element_gain_offset(), a[1]); Q(t.mutable_max_element_gain_offset(), a[2]); } }
      Gain(e.mutable_element_mix_gain());
    }
    Gain(s.mutable_output_mix_gain());
    for (int j = R->In(R->P(90) ? 1 : 0, 2); j > 0; --j) {
      auto& y = *s.add_layouts(); auto& l = *y.mutable_loudness_layout(); const int t = R->P(70) ? 3 : R->In(1, 4); l.set_layout_type(static_cast<ip::LayoutType>(t));
      if (t == 3) { l.mutable_ss_layout()->set_sound_system(static_cast<ip::SoundSystem>(j == 1 && R->P(80) ? 1 : R->In(1, 15))); if (R->P(10)) l.mutable_ss_layout()->set_reserved(R->In(0, 3)); } else { l.mutable_reserved_or_binaural_layout(); if (R->P(20)) l.mutable_reserved_or_binaural_layout()->set_reserved(R->In(0, 63)); }
      auto& q = *y.mutable_loudness(); for (int k : {1, 2, 4, 8, 16, 32, 64, 128}) if (R->P(k < 4 ? 30 : 6)) q.add_info_type_bit_masks(static_cast<ip::LoudnessInfoTypeBitMask>(k)); 
      q.set_integrated_loudness(S16()); q.set_digital_peak(S16()); if (R->P(50)) q.set_true_peak(S16());
      if (R->P(40)) for (int k = R->In(0, 3); k > 0; --k) { auto& a = *q.mutable_anchored_loudness()->add_anchor_elements(); a.set_anchor_element(static_cast<ip::AnchorType>(k)); a.set_anchored_loudness(S16()); }
      if (R->P(25)) q.set_info_type_bytes(Str(R->In(0, 5)));
    }
  }
  if (R->P(30) || (flag && R->P(70))) m.set_include_mix_presentation_tags(R->P(85));
  if (R->P(35)) for (int k = R->P(97) ? R->In(0, 3) : R->In(254, 257); k > 0; --k) { auto& t = *m.mutable_mix_presentation_tags()->add_tags(); t.set_tag_name(std::string(R->In(1, 5), 't')); t.set_tag_value(std::string(R->In(0, 5), 'v')); }
  if (flag && R->P(92)) { auto& o = *m.mutable_optional_fields(); o.set_preferred_loudspeaker_renderer(R->P(50) ? ip::PREFERRED_LOUDSPEAKER_RENDERER_NONE : ip::PREFERRED_LOUDSPEAKER_RENDERER_RESERVED_255); o.set_preferred_binaural_renderer(R->P(50) ? ip::PREFERRED_BINAURAL_RENDERER_NONE : ip::PREFERRED_BINAURAL_RENDERER_RESERVED_255); if (R->P(60)) o.set_optional_fields_remaining_bytes(Str(R->In(0, 5))); }
}
template <class T> static std::string Dumps(const pb::RepeatedPtrField<T>& v) { return Arr(v, [](const T& m) { return Dump(m); }); }
// the delay of the encoder of these metadata, whatever they ask for
static std::pair<bool, int> DelayOf(const ip::CodecConfigObuMetadata& m) {
  pb::RepeatedPtrField<ip::CodecConfigObuMetadata> one; *one.Add() = m; one[0].mutable_codec_config()->set_automatically_override_codec_delay(false);
  DescriptorObus::CodecConfigsById c; CodecConfigGenerator g(one); if (!g.Generate(c).ok() || c.empty()) return {false, 0};
  auto s = AudioFrameGenerator::GetNumberOfSamplesToDelayAtStart(m.codec_config(), c.begin()->second); return s.ok() ? std::pair{true, (int)*s} : std::pair{false, 0};
}
static void CodecEv(const pb::RepeatedPtrField<ip::CodecConfigObuMetadata>& v, DescriptorObus::CodecConfigsById& c) {
  std::string enc = Arr(v, [](auto& m) { auto d = m.codec_config().automatically_override_codec_delay() ? DelayOf(m) : std::pair{true, 0}; return Obj().f("ok", d.first).f("v", d.second).end().s; });
  CodecConfigGenerator g(v); const bool ok = g.Generate(c).ok();
  Ev("codec").raw("m", Dumps(v)).raw("enc", enc).f("ok", ok).f("n", (int)c.size()).raw("y", ok ? Arr(v, [&](auto& m) { auto& o = c.at(m.codec_config_id()); return Obj().raw("x", J(o)).raw("h", HeadJ(o.header_)).end().s; }) : "[]");
  if (!ok) c.clear();
}
static std::string PresetJ(const ip::AudioElementObuMetadata& m, const DescriptorObus::CodecConfigsById& c) {
  auto it = c.find(m.codec_config_id()); if (it == c.end() || !m.ambisonics_config().has_ambisonics_preset_config()) return "[]";
  auto p = m.ambisonics_config().ambisonics_preset_config().ambisonics_preset(); if (p < 1 || p > 4) return "[]";
  using P = AmbisonicsMixer::Preset; const P all[] = {P::kBestPracticeForOrder0, P::kBestPracticeForOrder1, P::kBestPracticeForOrder2, P::kBestPracticeForOrder3};
  auto mixer = AmbisonicsMixer::MakeFromPreset(it->second.GetCodecConfig().codec_id, all[p - 1], it->second.GetNumSamplesPerFrame());
  return "[" + ConfigJ(mixer.GetAmbisonicsConfig()) + "]";
}
int main(int argc, char** argv) {
  Init(argc, argv); g_log = false;
  Rng r(ArgI("seed", 1)); R = &r;
  const int n = ArgI("n", 10);
  for (int i = 0; i < n; ++i) {
    Ev("begin").f("i", i); g_opus_lookahead = R->In(0, 3000);
    if (R->P(30)) {
      ip::IASequenceHeaderObuMetadata m; if (R->P(95)) m.set_primary_profile(static_cast<ip::ProfileVersion>(R->In(1, 6))); if (R->P(95)) m.set_additional_profile(static_cast<ip::ProfileVersion>(R->In(1, 6))); if (R->P(40)) Head(m.mutable_obu_header(), false); Changes(m);
      IaSequenceHeaderGenerator g(m); std::optional<IASequenceHeaderObu> o; const bool ok = g.Generate(o).ok();
      Ev("seq").raw("m", Dump(m)).f("ok", ok).raw("y", Maybe(ok && o, ok && o ? Obj().raw("x", J(*o)).raw("h", HeadJ(o->header_)).end().s : ""));
    }
    DescriptorObus::CodecConfigsById codecs;
    { pb::RepeatedPtrField<ip::CodecConfigObuMetadata> v; for (int k = R->In(1, 2); k > 0; --k) { CodecMd(*v.Add(), k); Changes(v[v.size() - 1]); } if (v.size() > 1 && R->P(8)) v[1].set_codec_config_id(v[0].codec_config_id()); CodecEv(v, codecs); }
    if (codecs.empty()) { pb::RepeatedPtrField<ip::CodecConfigObuMetadata> v; for (int t = 0; t < 9 && codecs.empty(); ++t) { v.Clear(); CodecMd(*v.Add(), 1); v[0].mutable_codec_config()->set_automatically_override_audio_roll_distance(true); CodecEv(v, codecs); } }
    {
      std::vector<std::pair<D, uint32_t>> known; for (auto& [id, c] : codecs) known.push_back({id, c.GetNumSamplesPerFrame()}); std::sort(known.begin(), known.end());
      pb::RepeatedPtrField<ip::AudioElementObuMetadata> v;
      for (int k = R->P(70) ? 1 : 2; k > 0; --k) { std::vector<std::pair<D, uint32_t>> one; bool ll = false; if (!known.empty()) { one.push_back(R->Pick(known)); ll = codecs.at(one[0].first).IsLossless(); } ElementMd(*v.Add(), k, one, ll); Changes(v[v.size() - 1]); }
      if (v.size() > 1 && R->P(8)) v[1].set_audio_element_id(v[0].audio_element_id());
      AudioElementGenerator g(v); DescriptorObus::AudioElementsById out; const bool ok = g.Generate(codecs, out).ok();
      Ev("element").raw("codecs", Arr(known, [&](auto& k) { return Obj().f("id", Pr(k.first)).f("frame", Pr(k.second)).f("ll", codecs.at(k.first).IsLossless()).end().s; })).raw("m", Dumps(v)).raw("presets", Arr(v, [&](auto& m) { return PresetJ(m, codecs); }))
          .f("ok", ok).f("n", (int)out.size()).raw("y", ok ? Arr(v, [&](auto& m) { auto& o = out.at(m.audio_element_id()); return Obj().raw("x", ElementJ(o.obu, TopRes(o.obu))).raw("h", HeadJ(o.obu.header_)).f("cc", o.codec_config == &codecs.at(m.codec_config_id())).end().s; }) : "[]");
    }
    {
      pb::RepeatedPtrField<ip::MixPresentationObuMetadata> v; for (int k = R->P(80) ? 1 : 2; k > 0; --k) { MixMd(*v.Add()); Changes(v[v.size() - 1]); }
      const bool append = R->P(40); MixPresentationGenerator g(v); DescriptorObus::MixPresentationObus out; const bool ok = g.Generate(append, out).ok();
      Ev("mix").f("append", append).raw("m", Dumps(v)).f("ok", ok).raw("y", ok ? Arr(out, [](auto& o) { return Obj().raw("x", MixJ(o, TopCount(o))).raw("h", HeadJ(o.header_)).end().s; }) : "[]");
    }
  }
}
