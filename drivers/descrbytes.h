#ifndef DESCRBYTES_H_
#define DESCRBYTES_H_
// B03: the bytes of descriptors, written and read.
#include <algorithm>
#include <functional>
#include "iamf/obu/audio_element.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/ia_sequence_header.h"
#include "iamf/obu/mix_presentation.h"
#include "iamf/obu/obu_header.h"
#include "defs.h"
#include "elems.h"
using Strs = std::vector<std::string>;
template <class T, class F> static std::string Arr(const T& v, F f) { std::string s = "["; bool c = false; for (const auto& x : v) { s += (c ? "," : "") + f(x); c = true; } return s + "]"; }
[[maybe_unused]] static std::string StrJ(const std::string& s) { return Js(I(s)); }
[[maybe_unused]] static std::string Maybe(bool has, const std::string& s) { return has ? "[" + s + "]" : "[]"; }
template <class T> static std::vector<int> Plain(const T& v) { return std::vector<int>(v.begin(), v.end()); }
[[maybe_unused]] static bool Odd(int pct) { return R->P(pct); }
[[maybe_unused]] static uint8_t B8() { return R->P(70) ? R->In(0, 5) : R->In(0, 255); }

// --- JSON
[[maybe_unused]] static std::string J(const IASequenceHeaderObu& o) { return Obj().f("pp", (int)o.GetPrimaryProfile()).f("ap", (int)o.GetAdditionalProfile()).end().s; }
[[maybe_unused]] static std::string CfgJ(const DecoderConfig& v) {
  if (auto* c = std::get_if<LpcmDecoderConfig>(&v)) return Obj().f("flags", (int)c->sample_format_flags_bitmask_).f("size", (int)c->sample_size_).f("rate", Pr(c->sample_rate_)).end().s;
  if (auto* c = std::get_if<OpusDecoderConfig>(&v)) return Obj().f("version", (int)c->version_).f("ch", (int)c->output_channel_count_).f("skip", (int)c->pre_skip_).f("rate", Pr(c->input_sample_rate_)).f("gain", (int)c->output_gain_).f("map", (int)c->mapping_family_).end().s;
  if (auto* c = std::get_if<AacDecoderConfig>(&v)) {
    auto& i = c->decoder_specific_info_; auto& a = i.audio_specific_config; auto& g = a.ga_specific_config_;
    return Obj().f("tag", (int)c->decoder_config_descriptor_tag_).f("obj", (int)c->object_type_indication_).f("st", (int)c->stream_type_).f("up", (int)c->upstream_).f("res", (int)c->reserved_)
        .f("size24", (int)c->buffer_size_db_).f("max", Pr(c->max_bitrate_)).f("avg", Pr(c->average_bit_rate_)).f("itag", (int)i.decoder_specific_info_tag)
        .f("aot", (int)a.audio_object_type_).f("sfi", (int)a.sample_frequency_index_).f("chan", (int)a.channel_configuration_).f("ga", g.frame_length_flag * 4 + g.depends_on_core_coder * 2 + g.extension_flag)
        .f("iext", I(i.decoder_specific_info_extension)).f("ext", I(c->decoder_config_extension_)).end().s;
  }
  return Arr(std::get<FlacDecoderConfig>(v).metadata_blocks_, [](const FlacMetadataBlock& b) {
    auto* i = std::get_if<FlacMetaBlockStreamInfo>(&b.payload); const bool other = (b.header.block_type == 0) != (i != nullptr);
    Obj o; o.f("t", (int)b.header.block_type).f("other", other);
    if (b.header.block_type == 0 && i) {
      std::vector<int> t = {(int)(i->total_samples_in_stream >> 32), (int)((i->total_samples_in_stream >> 16) & 0xffff), (int)(i->total_samples_in_stream & 0xffff)};
      o.raw("info", Obj().f("min", (int)i->minimum_block_size).f("max", (int)i->maximum_block_size).f("minf", (int)i->minimum_frame_size).f("maxf", (int)i->maximum_frame_size).f("rate", (int)i->sample_rate)
          .f("ch", (int)i->number_of_channels).f("bps", (int)i->bits_per_sample).f("total", t).f("md5", I(i->md5_signature)).end().s);
    } else if (!other) o.f("bytes", I(std::get<Bytes>(b.payload)));
    return o.end().s; });
}
[[maybe_unused]] static std::string CodecJ(D id, const CodecConfig& c) {
  return Obj().f("id", Pr(id)).f("codec", Pr(c.codec_id)).f("frame", Pr(c.num_samples_per_frame)).f("roll", (int)c.audio_roll_distance).raw("cfg", CfgJ(c.decoder_config)).end().s;
}
[[maybe_unused]] static std::string J(const CodecConfigObu& o) { return CodecJ(o.GetCodecConfigId(), o.GetCodecConfig()); }
[[maybe_unused]] static std::string PJ(const AudioElementParam& q) {
  auto t = Pr((uint32_t)q.GetType());
  return std::visit([&](const auto& p) { using T = std::decay_t<decltype(p)>;
    const int k = std::is_same_v<T, DemixingParamDefinition> ? 1 : std::is_same_v<T, ReconGainParamDefinition> ? 2 : 9;
    return Obj().f("t", t).raw("d", DefO(k, &p).end().s).end().s; }, q.param_definition);
}
[[maybe_unused]] static std::string LayersJ(const ScalableChannelLayoutConfig& c) {
  return Arr(c.channel_audio_layer_configs, [](const ChannelAudioLayerConfig& l) {
    return Obj().f("lay", (int)l.loudspeaker_layout).f("og", l.output_gain_is_present_flag).f("rg", l.recon_gain_is_present_flag).f("ra", (int)l.reserved_a).f("sc", (int)l.substream_count).f("cc", (int)l.coupled_substream_count)
        .f("of", (int)l.output_gain_flag).f("rb", (int)l.reserved_b).f("gain", (int)l.output_gain).f("ex", l.expanded_loudspeaker_layout ? (int)*l.expanded_loudspeaker_layout : -1).end().s; });
}
[[maybe_unused]] static std::string ConfigJ(const AudioElementObu::AudioElementConfig& v) {
  if (auto* c = std::get_if<ScalableChannelLayoutConfig>(&v)) return Obj().f("res", (int)c->reserved).raw("layers", LayersJ(*c)).end().s;
  if (auto* c = std::get_if<AmbisonicsConfig>(&v)) {
    if (auto* m = std::get_if<AmbisonicsMonoConfig>(&c->ambisonics_config))
      return Obj().f("mode", 0).f("ch", (int)m->GetOutputChannelCount()).f("sub", (int)m->GetSubstreamCount()).f("coup", 0).f("map", Plain(m->GetChannelMappingView())).f("mat", std::vector<int>{}).end().s;
    auto& p = std::get<AmbisonicsProjectionConfig>(c->ambisonics_config);
    return Obj().f("mode", 1).f("ch", (int)p.GetOutputChannelCount()).f("sub", (int)p.GetSubstreamCount()).f("coup", (int)p.GetCoupledSubstreamCount()).f("map", std::vector<int>{}).f("mat", Plain(p.GetDemixingMatrixView())).end().s;
  }
  if (auto* c = std::get_if<ObjectsConfig>(&v)) return Obj().f("n", (int)c->GetNumObjects()).f("bytes", Plain(c->GetObjectsConfigExtensionBytesView())).end().s;
  return Obj().f("bytes", I(std::get<ExtensionConfig>(v).audio_element_config_bytes)).end().s;
}
// the reserved bits can only be seen in what is written
[[maybe_unused]] static std::string ElementJ(const AudioElementObu& o, int res) {
  return Obj().f("id", Pr(o.GetAudioElementId())).f("type", (int)o.GetAudioElementType()).f("res", res).f("cc", Pr(o.GetCodecConfigId())).f("subs", Prs(o.audio_substream_ids_))
      .raw("params", Arr(o.audio_element_params_, PJ)).raw("cfg", ConfigJ(o.config_)).end().s;
}
[[maybe_unused]] static std::string OffJ(const ElementGainOffsetConfig& c) {
  WriteBitBuffer wb(9); (void)c.Write(wb); const auto& d = wb.bit_buffer(); std::vector<int> v; Bytes b;
  if (d[0] < 2) for (size_t i = 1; i + 1 < d.size(); i += 2) v.push_back((int16_t)(d[i] * 256 + d[i + 1]));
  else { size_t i = 1; while (d[i] >= 128) ++i; b.assign(d.begin() + i + 1, d.end()); }
  return Obj().f("t", (int)d[0]).f("v", v).f("b", I(b)).end().s;
}
[[maybe_unused]] static std::string RcJ(const RenderingConfig& c) {
  return Obj().f("mode", (int)c.headphones_rendering_mode).f("prof", (int)c.binaural_filter_profile).f("res", (int)c.reserved)
      .raw("params", Arr(c.rendering_config_param_definitions, [](const RenderingConfigParamDefinition& q) {
        return std::visit([&](const auto& p) { return Obj().f("t", Pr((uint32_t)q.param_definition_type)).raw("d", DefO(3 + (int)q.param_definition.index(), &p).end().s).end().s; }, q.param_definition); }))
      .raw("off", c.element_gain_offset_config ? "[" + OffJ(*c.element_gain_offset_config) + "]" : "[]").f("ext", I(c.rendering_config_extension_bytes)).end().s;
}
[[maybe_unused]] static std::string LayoutJ(const MixPresentationLayout& y) {
  auto* ss = std::get_if<LoudspeakersSsConventionLayout>(&y.loudness_layout.specific_layout); auto& q = y.loudness;
  return Obj().f("t", (int)y.loudness_layout.layout_type).f("ss", ss ? (int)ss->sound_system : 0).f("res", ss ? (int)ss->reserved : (int)std::get<LoudspeakersReservedOrBinauralLayout>(y.loudness_layout.specific_layout).reserved)
      .f("info", (int)q.info_type).f("il", (int)q.integrated_loudness).f("dp", (int)q.digital_peak).f("tp", (int)q.true_peak)
      .raw("anch", Arr(q.anchored_loudness.anchor_elements, [](auto& a) { return Js(std::vector<int>{a.anchor_element, a.anchored_loudness}); })).f("ext", I(q.layout_extension.info_type_bytes)).end().s;
}
[[maybe_unused]] static std::string MixJ(const MixPresentationObu& o, D count) {
  return Obj().f("id", Pr(o.GetMixPresentationId())).f("count", Pr(count)).raw("langs", Arr(o.GetAnnotationsLanguage(), StrJ)).raw("anns", Arr(o.GetLocalizedPresentationAnnotations(), StrJ))
      .raw("subs", Arr(o.sub_mixes_, [](const MixPresentationSubMix& m) {
        return Obj().raw("els", Arr(m.audio_elements, [](const SubMixAudioElement& e) { return Obj().f("id", Pr(e.audio_element_id)).raw("anns", Arr(e.localized_element_annotations, StrJ)).raw("rc", RcJ(e.rendering_config)).raw("gain", DefO(0, &e.element_mix_gain).end().s).end().s; }))
            .raw("out", DefO(0, &m.output_mix_gain).end().s).raw("layouts", Arr(m.layouts, LayoutJ)).end().s; }))
      .raw("tags", Maybe(o.mix_presentation_tags_.has_value(), o.mix_presentation_tags_ ? Arr(o.mix_presentation_tags_->tags, [](auto& t) { return "[" + StrJ(t.tag_name) + "," + StrJ(t.tag_value) + "]"; }) : ""))
      .raw("opt", Maybe(o.optional_fields_.has_value(), o.optional_fields_ ? Obj().f("size", Pr(o.optional_fields_->optional_fields_size)).f("lr", (int)o.optional_fields_->preferred_loudspeaker_renderer)
          .f("br", (int)o.optional_fields_->preferred_binaural_renderer).f("rest", I(o.optional_fields_->optional_fields_remaining_bytes)).end().s : "")).end().s;
}

// --- reading and writing
[[maybe_unused]] static const char* kNames[] = {"seq", "codec", "element", "mix"};
[[maybe_unused]] static ObuHeader Header(int k) {
  ObuHeader h; h.obu_redundant_copy = R->P(20); h.type_specific_flag = k == 3 ? R->P(45) : R->P(3);
  if (R->P(15)) h.extension_header_bytes = Some(R->In(0, 4));
  return h;
}
[[maybe_unused]] static std::string HeadJ(const ObuHeader& h) {
  return Obj().f("type", (int)h.obu_type).f("red", h.obu_redundant_copy).f("flag", h.type_specific_flag).f("te", Pr(0)).f("ts", Pr(0)).f("has_ext", h.extension_header_bytes.has_value())
      .f("ext", h.extension_header_bytes ? I(*h.extension_header_bytes) : std::vector<int>{}).end().s;
}
// while muted: the OBUs made, the codec configs and elements there are
[[maybe_unused]] static std::vector<Bytes> g_made; static std::vector<D> g_codecs, g_elements; static D g_sub = 0;
// bytes of the payload
[[maybe_unused]] static Bytes Write(int k, const ObuBase& o, const std::string& j) {
  if (g_mute) { WriteBitBuffer wb(40); if (o.ValidateAndWriteObu(wb).ok()) g_made.push_back(wb.bit_buffer()); return {}; }
  int mode; auto gen = Gen(mode); WriteBitBuffer wb(R->In(0, 40), *gen);
  const auto before = Some(R->P(80) ? 0 : R->In(1, 3)); (void)wb.WriteUint8Span(before);
  auto s = o.ValidateAndWriteObu(wb); Bytes d = wb.bit_buffer(); const bool kept = d.size() >= before.size() && std::equal(before.begin(), before.end(), d.begin());
  if (kept) d.erase(d.begin(), d.begin() + before.size());
  Ev("w").f("k", kNames[k]).raw("x", j).raw("h", HeadJ(o.header_)).f("mode", mode).f("footer", I(o.footer_)).f("ok", s.ok()).f("kept", kept).f("bytes", s.ok() ? I(d) : std::vector<int>{});
  if (!s.ok()) return {};
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(d); ObuHeader h; int64_t n; if (!h.ReadAndValidate(*rb, n).ok()) return {};
  return Bytes(d.end() - n, d.end());
}
template <class T> static int Hidden(const T&, const Bytes&) { return 0; }
[[maybe_unused]] static int TopRes(const AudioElementObu& o) { WriteBitBuffer wb(9); auto c = o; c.header_ = ObuHeader{.obu_type = kObuIaAudioElement}; if (!c.ValidateAndWriteObu(wb).ok()) return -1;
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(wb.bit_buffer()); ObuHeader h; int64_t n; (void)h.ReadAndValidate(*rb, n); D id; (void)rb->ReadULeb128(id); uint8_t v; (void)rb->ReadUnsignedLiteral(8, v); return v & 31; }
[[maybe_unused]] static D TopCount(const MixPresentationObu& o) { return o.GetAnnotationsLanguage().size(); }
[[maybe_unused]] static void Read(int k, bool flag, const Bytes& d, int64_t n, bool back) {
  auto rb = Rd(d); ObuHeader h; h.type_specific_flag = flag;
  auto log = [&](bool ok, const std::string& x, const Bytes& footer, bool type, const std::string& more) {
    Ev e("r"); e.f("k", kNames[k]).f("flag", flag).f("d", I(d)).f("n", n).f("ok", ok).f("pos", rb->Tell());
    if (ok) e.raw("x", x).f("footer", I(footer)).f("type", type).raw("more", more);
  };
  switch (k) {
    case 0: { auto o = IASequenceHeaderObu::CreateFromBuffer(h, n, *rb); log(o.ok(), o.ok() ? J(*o) : "", o.ok() ? o->footer_ : Bytes{}, o.ok() && o->header_.obu_type == kObuIaSequenceHeader, "[]"); if (o.ok() && back) Write(k, *o, J(*o)); break; }
    case 1: { auto o = CodecConfigObu::CreateFromBuffer(h, n, *rb);
      log(o.ok(), o.ok() ? J(*o) : "", o.ok() ? o->footer_ : Bytes{}, o.ok() && o->header_.obu_type == kObuIaCodecConfig,
          o.ok() ? Obj().f("out", Pr(o->GetOutputSampleRate())).f("in", Pr(o->GetInputSampleRate())).f("bits", (int)o->GetBitDepthToMeasureLoudness()).f("frame", Pr(o->GetNumSamplesPerFrame())).f("ll", o->IsLossless()).end().s : "[]");
      if (o.ok() && back) Write(k, *o, J(*o)); break; }
    case 2: { auto o = AudioElementObu::CreateFromBuffer(h, n, *rb); const int res = o.ok() ? TopRes(*o) : 0; log(o.ok(), o.ok() ? ElementJ(*o, res) : "", o.ok() ? o->footer_ : Bytes{}, o.ok() && o->header_.obu_type == kObuIaAudioElement, Js(res >= 0)); if (o.ok() && back && res >= 0) Write(k, *o, ElementJ(*o, res)); break; }
    default: { auto o = MixPresentationObu::CreateFromBuffer(h, n, *rb); log(o.ok(), o.ok() ? MixJ(*o, TopCount(*o)) : "", o.ok() ? o->footer_ : Bytes{}, o.ok() && o->header_.obu_type == kObuIaMixPresentation, "[]"); if (o.ok() && back) Write(k, *o, MixJ(*o, TopCount(*o))); break; }
  }
}
[[maybe_unused]] static void Twist(Bytes& d) {
  if (d.empty()) { d = Some(3); return; }
  const size_t i = R->P(40) ? R->In(0, std::min<int>(d.size(), 24) - 1) : R->P(40) ? d.size() - R->In(1, std::min<int>(d.size(), 9)) : R->In(0, d.size() - 1);
  switch (R->In(0, 8)) {
    case 0: d[i] = R->In(0, 255); break;
    case 1: d[i] ^= 1 << R->In(0, 7); break;
    case 2: d[i] += R->P(50) ? 1 : -1; break;
    case 3: d[i] = d[R->In(0, d.size() - 1)]; break;
    case 4: d.erase(d.begin() + i); break;
    case 5: d.insert(d.begin() + i, (uint8_t)R->In(0, 255)); break;
    case 6: { size_t n = std::min<size_t>(d.size() - i, R->In(1, 6)); Bytes s(d.begin() + i, d.begin() + i + n); d.insert(d.begin() + i, s.begin(), s.end()); break; }
    case 7: d[i] = R->P(50) ? 0 : 255; break;
    default: d[i] = R->In(0, 9);
  }
}
[[maybe_unused]] static void Reads(int k, bool flag, const Bytes& good) {
  Read(k, flag, good, good.size(), R->P(50));
  { Bytes d = good; auto x = Some(R->In(1, 6)); d.insert(d.end(), x.begin(), x.end()); Read(k, flag, d, R->P(60) ? good.size() : d.size(), false); }
  const bool all = good.size() <= 60 && R->P(15);
  for (size_t i = 0; i < good.size(); ++i) if (all || R->P(120 / (int)good.size() + 1)) { Bytes d = good; const bool cut = R->P(60); if (cut) d.resize(i); Read(k, flag, d, i, false); }
  { Bytes d = good; if (!d.empty()) d.resize(R->In(0, d.size() - 1)); Read(k, flag, d, good.size(), false); }
  for (int i = R->In(2, 6); i > 0; --i) { Bytes d = good; do Twist(d); while (R->P(30)); Read(k, flag, d, d.size() + (R->P(10) ? R->In(-2, 2) : 0) * (d.size() > 2), R->P(60)); }
  if (R->P(10)) Read(k, !flag, good, good.size(), false);
  if (R->P(5)) { Bytes d = Some(R->In(0, 30)); Read(R->In(0, 3), R->P(50), d, d.size(), true); }
}

// --- objects
[[maybe_unused]] static void Seq() {
  auto prof = [] { return static_cast<ProfileVersion>(R->P(90) ? R->In(0, 5) : R->P(70) ? R->In(0, 8) : R->In(0, 255)); };
  IASequenceHeaderObu o(Header(0), prof(), prof()); o.footer_ = Some(R->P(80) ? 0 : R->In(1, 3));
  auto d = Write(0, o, J(o)); if (!d.empty()) Reads(0, false, d);
}
[[maybe_unused]] static D Frame() { return R->P(50) ? R->In(1, 4000) : R->P(60) ? std::vector<D>{1024, 960, 480, 120, 1, 96000, 95999, 3840, 3841, 65535, 65536}[R->In(0, 10)] : R->P(50) ? R->In(1, 96000) : R->P(50) ? 0 : R->In(96001, 99999); }
[[maybe_unused]] static void Codec() {
  CodecConfig c; c.num_samples_per_frame = Frame(); c.audio_roll_distance = R->In(-40, 3);
  const int which = R->In(0, 3);
  if (which == 0) {
    LpcmDecoderConfig l; l.sample_format_flags_bitmask_ = static_cast<LpcmDecoderConfig::LpcmFormatFlagsBitmask>(Odd(4) ? R->In(2, 255) : R->In(0, 1)); l.sample_size_ = Odd(8) ? R->In(0, 40) : 16 + 8 * R->In(0, 2);
    l.sample_rate_ = Odd(8) ? Num() : R->Pick<D>({16000, 32000, 44100, 48000, 96000, 8000, 192000, 88200}); if (!Odd(12) && (l.sample_rate_ == 8000 || l.sample_rate_ > 96000 || l.sample_rate_ == 88200)) l.sample_rate_ = 48000;
    c.codec_id = CodecConfig::kCodecIdLpcm; c.decoder_config = l;
  } else if (which == 1) {
    OpusDecoderConfig l; l.version_ = Odd(8) ? R->In(0, 255) : R->In(0, 16); if (!Odd(10) && (l.version_ == 0 || l.version_ > 15)) l.version_ = 1; if (Odd(6)) l.version_ = R->In(0, 15) * 16 + R->In(0, 2); l.pre_skip_ = R->In(0, 65535); l.input_sample_rate_ = Num();
    if (Odd(4)) l.output_channel_count_ = R->In(0, 4); if (Odd(4)) l.output_gain_ = S16(); if (Odd(4)) l.mapping_family_ = R->In(0, 2);
    c.codec_id = CodecConfig::kCodecIdOpus; c.decoder_config = l;
  } else if (which == 2) {
    AacDecoderConfig l; l.buffer_size_db_ = Odd(5) ? 16777214 + R->In(0, 3) : R->In(0, 16777215); l.max_bitrate_ = Num(); l.average_bit_rate_ = Num(); auto& i = l.decoder_specific_info_; auto& a = i.audio_specific_config;
    a.sample_frequency_index_ = static_cast<AudioSpecificConfig::SampleFrequencyIndex>(Odd(6) ? R->In(13, 15) : R->In(0, 12));
    if (Odd(3)) l.decoder_config_descriptor_tag_ = R->In(3, 5); if (Odd(3)) l.object_type_indication_ = R->In(63, 65); if (Odd(3)) l.stream_type_ = R->In(0, 70); if (Odd(2)) l.upstream_ = true; if (Odd(2)) l.reserved_ = false;
    if (Odd(3)) i.decoder_specific_info_tag = R->In(4, 6); if (Odd(3)) a.audio_object_type_ = R->In(0, 31); if (Odd(3)) a.channel_configuration_ = R->In(0, 15);
    if (Odd(2)) a.ga_specific_config_.frame_length_flag = true; if (Odd(2)) a.ga_specific_config_.depends_on_core_coder = true; if (Odd(2)) a.ga_specific_config_.extension_flag = true;
    i.decoder_specific_info_extension = Some(R->P(60) ? 0 : R->P(80) ? R->In(1, 9) : R->In(120, 140)); l.decoder_config_extension_ = Some(R->P(60) ? 0 : R->P(80) ? R->In(1, 9) : R->P(95) ? R->In(100, 130) : R->In(4060, 4110));
    c.codec_id = CodecConfig::kCodecIdAacLc; c.decoder_config = l;
  } else {
    FlacDecoderConfig l; FlacMetaBlockStreamInfo s; if (c.num_samples_per_frame < 16 && !Odd(20)) c.num_samples_per_frame = R->In(16, 65535); if (c.num_samples_per_frame > 65535 && !Odd(20)) c.num_samples_per_frame = 65535;
    s.minimum_block_size = s.maximum_block_size = c.num_samples_per_frame; if (Odd(3)) s.minimum_block_size = R->In(0, 65535); if (Odd(3)) s.maximum_block_size = R->In(0, 65535);
    s.sample_rate = Odd(6) ? R->In(0, 1048577) : R->Pick<D>({88200, 176400, 192000, 8000, 16000, 22050, 24000, 32000, 44100, 48000, 96000}); if (Odd(3)) s.minimum_frame_size = R->In(0, 16777216); if (Odd(3)) s.maximum_frame_size = R->In(0, 16777216);
    if (Odd(3)) s.number_of_channels = R->In(0, 8); s.bits_per_sample = Odd(6) ? R->In(0, 33) : 15 + 8 * R->In(0, 2); s.total_samples_in_stream = R->P(40) ? R->In(0, 100000) : R->P(90) ? R->Next() >> 28 : R->Next() >> 27; if (Odd(4)) s.md5_signature[R->In(0, 15)] = R->In(0, 255);
    l.metadata_blocks_.push_back({.header = {.block_type = FlacMetaBlockHeader::kFlacStreamInfo}, .payload = s});
    for (int i = R->P(50) ? 0 : R->In(1, 3); i > 0; --i) {
      FlacMetadataBlock b{.header = {.block_type = static_cast<FlacMetaBlockHeader::FlacBlockType>(R->P(80) ? R->In(1, 6) : R->In(1, 127))}, .payload = Some(R->P(90) ? R->In(0, 9) : R->In(250, 300))};
      if (Odd(5)) { b.header.block_type = FlacMetaBlockHeader::kFlacStreamInfo; if (R->P(60)) s.total_samples_in_stream = 7; b.payload = s; }
      l.metadata_blocks_.push_back(b);
    }
    if (Odd(3)) l.metadata_blocks_[0] = {.header = {.block_type = FlacMetaBlockHeader::kFlacPadding}, .payload = Some(3)};
    if (Odd(2)) l.metadata_blocks_.clear();
    c.codec_id = CodecConfig::kCodecIdFlac; c.decoder_config = l;
  }
  if (Odd(2)) c.codec_id = static_cast<CodecConfig::CodecId>(R->P(50) ? 0 : c.codec_id ^ (1u << R->In(0, 31)));
  const D id = g_mute ? R->In(0, R->P(90) ? 9 : 300) : Num(); const bool over = R->P(80);
  if (!over && R->P(70)) { auto t = CodecConfigObu::Create(Header(1), id, c, true); if (t.ok()) c.audio_roll_distance = t->GetCodecConfig().audio_roll_distance + (R->P(20) ? R->In(-1, 1) : 0); }
  auto o = CodecConfigObu::Create(Header(1), id, c, over);
  Ev("cc").raw("x", CodecJ(id, c)).f("over", over).f("ok", o.ok()).raw("y", o.ok() ? J(*o) : "[]").f("out", Pr(o.ok() ? o->GetOutputSampleRate() : 0)).f("in", Pr(o.ok() ? o->GetInputSampleRate() : 0))
      .f("bits", o.ok() ? (int)o->GetBitDepthToMeasureLoudness() : 0).f("ll", o.ok() && o->IsLossless());
  if (!o.ok()) return;
  g_codecs.push_back(id);
  if (R->P(20)) { const int delay = R->In(0, 65535); auto s = o->SetCodecDelay(delay); Ev("delay").raw("x", CodecJ(id, over ? o->GetCodecConfig() : c)).f("v", delay).f("ok", s.ok()).raw("y", J(*o)); }
  o->footer_ = Some(R->P(80) ? 0 : R->In(1, 3));
  auto d = Write(1, *o, J(*o)); if (!d.empty()) Reads(1, false, d);
}
[[maybe_unused]] static std::vector<D> Subs(int n) { std::vector<D> s; if (g_mute) { for (int i = 0; i < n; ++i) s.push_back(g_sub += R->P(90) ? 1 : R->P(90) ? R->In(1, 9) : R->In(100, 100000)); return s; }
  for (int i = 0; i < n; ++i) { D v = R->P(80) ? R->In(0, 40) : Num(); if (R->P(97)) while (std::find(s.begin(), s.end(), v) != s.end()) ++v; s.push_back(v); } return s; }
[[maybe_unused]] static AudioElementParam Par(D element) {
  const int k = R->P(45) ? 1 : R->P(50) ? 2 : 9; Def x = AnyDef(k);
  if (k == 1) return {*static_cast<DemixingParamDefinition*>(x.p.get())};
  if (k == 2) return {*static_cast<ReconGainParamDefinition*>(x.p.get())};
  { D t = Odd(6) ? 0 : R->P(50) ? R->In(3, 9) : Num(); if (t == 1 || t == 2) t = 3; ExtendedParamDefinition e(static_cast<ParamDefinition::ParameterDefinitionType>(t), ParamDefinition::BaseArgs{.parameter_id = Num(), .parameter_rate = Num()}); e.param_definition_bytes_ = Some(R->In(0, 6)); return {e}; }
}
[[maybe_unused]] static std::optional<AmbisonicsConfig> Ambi() {
  AmbisonicsConfig c; std::vector<int> sq = {1, 4, 9, 16, 25, 36};
  if (R->P(50)) {
    int n = Odd(8) ? R->In(0, 40) : sq[R->P(80) ? R->In(0, 2) : R->In(0, 5)]; if (Odd(3)) n = R->Pick<int>({225, 224, 256, 257, 260, 512, 1025, 196}); int m = Odd(6) ? R->In(0, 255) : R->In(1, std::max(1, std::min(n, 255)));
    std::vector<uint8_t> map; for (int i = 0; i < n; ++i) map.push_back(i < m ? i : R->P(50) ? 255 : R->In(0, std::max(0, m - 1)));
    if (n > 1) for (int i = R->In(0, n); i > 0; --i) std::swap(map[R->In(0, n - 1)], map[R->In(0, n - 1)]);
    if (Odd(4)) { m = 0; std::fill(map.begin(), map.end(), 255); }
    if (Odd(15) && n) map[R->In(0, n - 1)] = R->P(50) ? 255 : R->In(0, n);
    auto x = AmbisonicsMonoConfig::Create(m, map);
    Ev("mono").f("sub", m).f("map", Plain(map)).f("ok", x.ok()).raw("y", x.ok() ? Obj().f("ch", (int)x->GetOutputChannelCount()).f("sub", (int)x->GetSubstreamCount()).f("map", Plain(x->GetChannelMappingView())).end().s : "[]");
    if (!x.ok()) return std::nullopt; c.ambisonics_config = *x;
  } else {
    int ch = Odd(10) ? R->In(0, 255) : sq[R->P(80) ? R->In(0, 2) : R->In(0, 5)], sub = Odd(10) ? R->In(0, 255) : R->In(1, std::max(1, ch)), coup = Odd(10) ? R->In(0, 255) : R->In(0, std::max(0, std::min(sub, ch - sub)));
    if (Odd(6)) { sub = R->In(0, 2); coup = sub ? sub + R->In(0, 2) : 0; ch = R->Pick<int>({1, 4, 9}); }
    int n = (sub + coup) * ch; if (n > 4000 || Odd(5)) n = R->In(0, 30); std::vector<int16_t> mat; for (int i = 0; i < n; ++i) mat.push_back(S16());
    auto x = AmbisonicsProjectionConfig::Create(ch, sub, coup, mat);
    Ev("proj").f("ch", ch).f("sub", sub).f("coup", coup).f("mat", Plain(mat)).f("ok", x.ok()).raw("y", x.ok() ? Obj().f("ch", (int)x->GetOutputChannelCount()).f("sub", (int)x->GetSubstreamCount()).f("coup", (int)x->GetCoupledSubstreamCount()).f("mat", Plain(x->GetDemixingMatrixView())).end().s : "[]");
    if (!x.ok()) return std::nullopt; c.ambisonics_config = *x;
  }
  return c;
}
// layers the channels of which add up
[[maybe_unused]] static void Fit(ScalableChannelLayoutConfig& c, int& n) {
  static const std::vector<std::vector<int>> kChains = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}, {8}, {9}, {15}, {15}, {15}, {0, 1}, {1, 2}, {1, 2, 4}, {1, 3, 4}, {0, 1, 2, 3, 4}, {1, 5, 7}, {0, 8}, {2, 5, 6, 7}, {0, 1, 8, 3, 4, 7}, {1, 2}, {1, 1}};
  auto chain = R->Pick(kChains); while (c.channel_audio_layer_configs.size() < chain.size()) c.channel_audio_layer_configs.push_back({.recon_gain_is_present_flag = R->P(60)}); c.channel_audio_layer_configs.resize(chain.size()); n = 0;
  const int* before = nullptr;
  for (size_t i = 0; i < chain.size(); ++i) {
    auto& l = c.channel_audio_layer_configs[i]; l.loudspeaker_layout = static_cast<ChannelAudioLayerConfig::LoudspeakerLayout>(chain[i]); l.expanded_loudspeaker_layout.reset(); l.reserved_a &= 3; l.output_gain_flag &= 63; int pairs, subs;
    if (chain[i] == 15) { const int x = R->In(0, 19); l.expanded_loudspeaker_layout = static_cast<ChannelAudioLayerConfig::ExpandedLoudspeakerLayout>(x); pairs = el::X[x][0]; subs = pairs + el::X[x][1]; }
    else { el::Counts(before, el::N[chain[i]], pairs, subs); before = el::N[chain[i]]; }
    l.substream_count = subs; l.coupled_substream_count = pairs; n += subs;
  }
}
[[maybe_unused]] static void Element() {
  D id = Num(), cc = Num(); if (g_mute) { id = R->In(0, R->P(90) ? 30 : 9000); cc = !g_codecs.empty() && R->P(96) ? R->Pick(g_codecs) : R->In(0, 9); }
  const int res = R->P(70) ? 0 : R->In(0, 31); const int type = R->P(45) ? 0 : R->P(45) ? 1 : R->P(40) ? 2 : R->In(3, 7);
  ObuHeader h = Header(2); std::vector<D> subs; std::string cfg; std::function<absl::StatusOr<AudioElementObu>()> make;
  if (type == 0) {
    ScalableChannelLayoutConfig c; c.reserved = R->P(85) ? 0 : R->In(0, 31); int n = 0;
    for (int i = Odd(5) ? R->In(0, 8) : R->P(60) ? 1 : R->In(1, 6); i > 0; --i) {
      ChannelAudioLayerConfig l{.loudspeaker_layout = static_cast<ChannelAudioLayerConfig::LoudspeakerLayout>(R->P(80) ? R->In(0, 8) : R->In(9, 15)), .output_gain_is_present_flag = R->P(40), .recon_gain_is_present_flag = R->P(40), .reserved_a = (uint8_t)(R->P(80) ? 0 : R->In(0, 3)),
          .substream_count = (uint8_t)(R->P(90) ? R->In(0, 4) : R->In(0, 30)), .coupled_substream_count = B8()};
      if (l.output_gain_is_present_flag) { l.output_gain_flag = R->P(97) ? R->In(0, 63) : R->In(60, 70); l.reserved_b = R->P(80) ? 0 : R->In(0, 3); l.output_gain = S16(); }
      if (l.loudspeaker_layout == 15 ? !Odd(8) : Odd(2)) l.expanded_loudspeaker_layout = static_cast<ChannelAudioLayerConfig::ExpandedLoudspeakerLayout>(R->P(80) ? R->In(0, 20) : R->In(0, 255));
      if (Odd(1)) l.loudspeaker_layout = static_cast<ChannelAudioLayerConfig::LoudspeakerLayout>(16); if (Odd(1)) l.reserved_a = 4;
      n += l.substream_count; c.channel_audio_layer_configs.push_back(l);
    }
    if (g_mute && R->P(92)) Fit(c, n);
    subs = Subs(n + (Odd(4) ? R->In(0, 2) : 0)); cfg = ConfigJ(c); make = [=] { return AudioElementObu::CreateForScalableChannelLayout(h, id, res, cc, subs, c); };
  } else if (type == 1) {
    auto c = Ambi(); if (!c) return;
    subs = Subs(c->GetNumSubstreams() + (Odd(4) ? 1 : 0)); cfg = ConfigJ(*c); make = [=] { return AudioElementObu::CreateForAmbisonics(h, id, res, cc, subs, *c); };
  } else if (type == 2) {
    const int n = Odd(10) ? R->In(0, 255) : R->In(1, 2); auto b = Some(R->P(80) ? R->In(0, 5) : R->In(250, 257)); auto c = ObjectsConfig::Create(n, b);
    Ev("objects").f("n", n).f("bytes", I(b)).f("ok", c.ok()).raw("y", c.ok() ? ConfigJ(*c) : "[]"); if (!c.ok()) return;
    subs = Subs(1); cfg = ConfigJ(*c); make = [=] { return AudioElementObu::CreateForObjects(h, id, res, cc, subs[0], *c); };
  } else { auto b = Some(R->P(90) ? R->In(0, 9) : R->In(126, 130)); subs = Subs(R->In(0, 4)); cfg = ConfigJ(ExtensionConfig{b}); make = [=] { return AudioElementObu::CreateForExtension(h, id, static_cast<AudioElementObu::AudioElementType>(type), res, cc, subs, b); }; }
  auto o = make();
  std::string x = Obj().f("id", Pr(id)).f("type", type).f("res", res).f("cc", Pr(cc)).f("subs", Prs(subs)).raw("params", "[]").raw("cfg", cfg).end().s;
  Ev("create").raw("x", x).f("ok", o.ok()).raw("y", o.ok() ? ElementJ(*o, res) : "[]").f("ns", Pr(o.ok() ? o->GetNumSubstreams() : 0));
  if (!o.ok()) return;
  for (int i = R->P(45) ? 0 : R->P(95) ? R->In(1, 2) : R->In(3, 4); i > 0; --i) o->audio_element_params_.push_back(Par(id));
  g_elements.push_back(id);
  if (Odd(1) && !g_mute) { for (int i = 0; i < 257; ++i) { ExtendedParamDefinition e(static_cast<ParamDefinition::ParameterDefinitionType>(10 + i), ParamDefinition::BaseArgs{}); o->audio_element_params_.push_back({e}); } if (R->P(50)) o->audio_element_params_.pop_back(); }
  o->footer_ = Some(R->P(80) ? 0 : R->In(1, 3));
  auto d = Write(2, *o, ElementJ(*o, res)); if (!d.empty()) Reads(2, false, d);
}
[[maybe_unused]] static std::string Text() { std::string s; const int n = R->P(80) ? R->In(0, 6) : R->P(80) ? R->In(7, 40) : R->In(120, 130); for (int i = 0; i < n; ++i) s += (char)(R->P(90) ? R->In(97, 122) : R->In(1, 255)); if (Odd(1) && n) s[R->In(0, n - 1)] = 0; return s; }
[[maybe_unused]] static Strs Texts(int n) { Strs s; if (n > 200) { for (int i = 0; i < n; ++i) s.push_back(std::to_string(i)); return s; } for (int i = 0; i < n; ++i) { s.push_back(Text()); if (R->P(97)) while (std::find(s.begin(), s.end() - 1, s.back()) != s.end() - 1) s.back() = std::to_string(R->In(0, 99999)); } return s; }
[[maybe_unused]] static PositionParamVariant Position() {
  const int k = R->In(3, 8); Def x = AnyDef(k); auto* p = x.p.get();
  switch (k) { case 3: return *static_cast<PolarParamDefinition*>(p); case 4: return *static_cast<Cart8ParamDefinition*>(p); case 5: return *static_cast<Cart16ParamDefinition*>(p); case 6: return *static_cast<DualPolarParamDefinition*>(p);
    case 7: return *static_cast<DualCart8ParamDefinition*>(p); default: return *static_cast<DualCart16ParamDefinition*>(p); }
}
[[maybe_unused]] static std::optional<ElementGainOffsetConfig> Offset() {
  auto q = [](int v) { return QFormatOrFloatingPoint::MakeFromQ7_8(v); };
  if (R->P(40)) return ElementGainOffsetConfig::MakeValueType(q(S16()));
  if (R->P(50)) {
    int a[3] = {S16(), S16(), S16()}; if (R->P(80)) { std::sort(a, a + 3); std::swap(a[0], a[1]); } if (R->P(20)) a[R->In(1, 2)] = a[0];
    auto x = ElementGainOffsetConfig::CreateRangeType(q(a[0]), q(a[1]), q(a[2])); Ev("off").f("t", 1).f("v", std::vector<int>(a, a + 3)).f("b", std::vector<int>{}).f("ok", x.ok()).raw("y", x.ok() ? OffJ(*x) : "[]"); if (!x.ok()) return std::nullopt; return *x;
  }
  const int t = Odd(20) ? R->In(0, 2) : R->In(2, 255); auto b = Some(R->P(90) ? R->In(0, 5) : R->In(126, 130)); auto x = ElementGainOffsetConfig::CreateExtensionType(t, b);
  Ev("off").f("t", t).f("v", std::vector<int>{}).f("b", I(b)).f("ok", x.ok()).raw("y", x.ok() ? OffJ(*x) : "[]"); if (!x.ok()) return std::nullopt; return *x;
}
[[maybe_unused]] static RenderingConfig Render() {
  RenderingConfig c; c.headphones_rendering_mode = static_cast<RenderingConfig::HeadphonesRenderingMode>(R->In(0, 3)); c.binaural_filter_profile = static_cast<RenderingConfig::BinauralFilterProfile>(R->P(70) ? 0 : R->In(0, 3)); c.reserved = R->P(85) ? 0 : R->P(95) ? R->In(0, 7) : 8;
  if (R->P(30)) for (int i = R->In(1, 2); i > 0; --i) c.rendering_config_param_definitions.push_back(RenderingConfigParamDefinition::Create(Position(), {}));
  if (R->P(30)) c.element_gain_offset_config = Offset();
  if (R->P(20)) c.rendering_config_extension_bytes = Some(R->In(1, 6));
  return c;
}
[[maybe_unused]] static MixGainParamDefinition GainDef() { Def x = AnyDef(0); return *static_cast<MixGainParamDefinition*>(x.p.get()); }
[[maybe_unused]] static MixPresentationLayout Lay(bool stereo) {
  MixPresentationLayout y; const int t = stereo ? 2 : R->P(70) ? 2 : R->In(0, 3); y.loudness_layout.layout_type = static_cast<Layout::LayoutType>(t);
  const int res = R->P(85) ? 0 : R->P(95) ? R->In(0, t == 2 ? 3 : 63) : R->In(3, 66);
  if (t == 2) y.loudness_layout.specific_layout = LoudspeakersSsConventionLayout{.sound_system = static_cast<LoudspeakersSsConventionLayout::SoundSystem>(stereo ? 0 : R->In(0, R->P(98) ? 15 : 16)), .reserved = (uint8_t)(stereo ? 0 : res)};
  else y.loudness_layout.specific_layout = LoudspeakersReservedOrBinauralLayout{.reserved = (uint8_t)res};
  auto& q = y.loudness; q.info_type = R->P(40) ? 0 : R->P(60) ? R->In(0, 3) : R->In(0, 255); q.integrated_loudness = S16(); q.digital_peak = S16();
  if (q.info_type & 1) q.true_peak = S16();
  if (q.info_type & 2) { const int n = R->P(95) ? R->In(0, 3) : R->In(254, 257); for (int i = 0; i < n; ++i) q.anchored_loudness.anchor_elements.push_back({.anchor_element = static_cast<AnchoredLoudnessElement::AnchorElement>(R->P(97) ? i : R->In(0, 2)), .anchored_loudness = S16()}); }
  if (q.info_type >= 4) q.layout_extension.info_type_bytes = Some(R->In(0, 5));
  return y;
}
[[maybe_unused]] static void Mix() {
  std::vector<D> known = g_elements; if (g_mute) for (size_t i = 0; i + 1 < known.size(); ++i) std::swap(known[i], known[R->In(i, known.size() - 1)]);
  const int count = !g_mute && R->P(1) ? R->In(248, 258) : R->P(85) ? R->In(0, 2) : R->In(3, 5); const D said = Odd(3) ? R->In(0, 4) : count; D next = R->In(0, 300);
  std::vector<MixPresentationSubMix> subs;
  for (int i = Odd(3) ? 0 : R->P(75) ? 1 : R->In(2, 3); i > 0; --i) {
    MixPresentationSubMix m;
    for (int j = Odd(2) ? 0 : R->P(70) ? 1 : R->In(2, 3); j > 0; --j) m.audio_elements.push_back({.audio_element_id = g_mute && !known.empty() && R->P(97) ? (next = known.back(), known.pop_back(), next) : Odd(4) ? R->In(0, 3) : next > 0 && R->P(3) ? next - 1 : next++, .localized_element_annotations = Texts(Odd(2) ? R->In(0, 3) : count), .rendering_config = Render(), .element_mix_gain = GainDef()});
    m.output_mix_gain = GainDef();
    const int n = R->P(70) ? R->In(1, 2) : R->In(0, 4), at = R->P(95) ? R->In(0, std::max(0, n - 1)) : -1;
    for (int j = 0; j < n; ++j) m.layouts.push_back(Lay(j == at));
    subs.push_back(m);
  }
  ObuHeader h = Header(3);
  MixPresentationObu o(h, Num(), said, Texts(count), Texts(Odd(2) ? R->In(0, 3) : count), subs);
  if (R->P(50) || (h.type_specific_flag && R->P(95))) {
    MixPresentationTags t; const int n = R->P(95) ? R->In(0, 3) : R->In(254, 257);
    for (int i = 0; i < n; ++i) { t.tags.push_back({.tag_name = Text(), .tag_value = Text()}); if (Odd(n > 5 ? 0 : 30)) { t.tags.back().tag_name = "content_language"; t.tags.back().tag_value = R->P(90) ? "eng" : R->P(50) ? "en" : "engl"; } }
    o.mix_presentation_tags_ = t;
  }
  if (h.type_specific_flag ? R->P(95) : R->P(5)) {
    MixPresentationOptionalFields f; f.optional_fields_remaining_bytes = Some(R->In(0, 4)); f.optional_fields_size = f.optional_fields_remaining_bytes.size() + 2 + (Odd(5) ? R->In(-2, 2) : 0); if (Odd(1)) f.optional_fields_size = Num();
    f.preferred_loudspeaker_renderer = static_cast<PreferredLoudspeakerRenderer>(B8()); f.preferred_binaural_renderer = static_cast<PreferredBinauralRenderer>(B8()); o.optional_fields_ = f;
  }
  o.footer_ = Some(R->P(85) ? 0 : R->In(1, 3));
  auto d = Write(3, o, MixJ(o, said)); if (!d.empty()) Reads(3, h.type_specific_flag, d);
  { Layout l = Lay(false).loudness_layout; int32_t n = -7; auto s = MixPresentationObu::GetNumChannelsFromLayout(l, n); auto* ss = std::get_if<LoudspeakersSsConventionLayout>(&l.specific_layout); Ev("speakers").f("t", (int)l.layout_type).f("ss", ss ? (int)ss->sound_system : 0).f("ok", s.ok()).f("n", n); }
}
#endif
