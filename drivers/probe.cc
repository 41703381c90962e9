// P01: what the probe says of a bitstream.
#include <cmath>
#include <filesystem>
#include <fstream>
#include "absl/container/flat_hash_map.h"
#include "iamf/cli/cli_util.h"
#include "iamf/cli/descriptor_obu_parser.h"
#include "iamf/cli/probe.h"
#include "iamf/obu/extension_parameter_data.h"
#include "iamf/obu/mix_gain_parameter_data.h"
#include "iamf/obu/parameter_block.h"
#include "iamf/obu/recon_gain_info_parameter_data.h"
#include "stream.h"
#include "descrbytes.h"
namespace bl {
#include "blocks.h"
}
static std::string Tup(std::initializer_list<std::string> q) { std::string s = "["; bool c = false; for (auto& x : q) { s += (c ? "," : "") + x; c = true; } return s + "]"; }
template <class T, class F> static std::string Opt(const std::optional<T>& v, F f) { return v ? "[" + f(*v) + "]" : "[]"; }
static std::string N(int64_t v) { return v > 2000000000 || v < -2000000000 ? "2000000001" : std::to_string(v); }
static std::string P(uint32_t v) { return Js(Pr(v)); }
static std::string L64(uint64_t v) { return Limbs(v); }
static std::string F(double v) { return v * 256 == std::floor(v * 256) && std::fabs(v) < 1e6 ? N((int64_t)(v * 256)) : "2000000001"; }
static std::string Sec(double v) { const double s = std::floor(v); return !(v >= 0 && v < 2e9) ? "[-1,0]" : Tup({N((int64_t)s), N((int64_t)std::floor((v - s) * 10000))}); }
static std::string B(bool v) { return v ? "true" : "false"; }
static std::string CodecR(const CodecConfigReport& c) {
  return Tup({P(c.id), Esc(c.codec_id), P(c.codec_id_raw), P(c.num_samples_per_frame), N(c.audio_roll_distance), P(c.output_sample_rate), P(c.input_sample_rate), N(c.bit_depth),
      Opt(c.opus, [](auto& o) { return Tup({N(o.version), N(o.output_channel_count), N(o.pre_skip), P(o.input_sample_rate), N(o.output_gain_q7_8), F(o.output_gain), N(o.mapping_family)}); }),
      Opt(c.lpcm, [](auto& o) { return Tup({Esc(o.sample_format), N(o.sample_format_raw), N(o.sample_size), P(o.sample_rate)}); }),
      Opt(c.aac, [](auto& o) { return Tup({N(o.object_type_indication), N(o.stream_type), N(o.upstream), N(o.reserved), N(o.buffer_size_db), P(o.max_bitrate), P(o.average_bit_rate), N(o.audio_object_type), Esc(o.sample_frequency_index), N(o.sample_frequency_index_raw), N(o.channel_configuration)}); }),
      Opt(c.flac, [](auto& o) { return Arr(o.metadata_blocks, [](auto& b) { auto t = b.total_samples_in_stream; return Tup({Esc(b.block_type), N(b.block_type_raw), B(b.is_stream_info), N(b.minimum_block_size), N(b.maximum_block_size), N(b.minimum_frame_size), N(b.maximum_frame_size), N(b.sample_rate), N(b.number_of_channels), N(b.bits_per_sample), Js(std::vector<int>{(int)(t >> 32), (int)(t >> 16 & 65535), (int)(t & 65535)})}); }); })});
}
static std::string U8s(const std::vector<uint8_t>& v) { return Js(I(v)); }
static std::string ElementR(const AudioElementReport& e) {
  std::string subs = Arr(e.substream_ids, [](auto v) { return P(v); });
  return Tup({P(e.id), Esc(e.type), N(e.type_raw), P(e.codec_config_id), P(e.num_substreams), subs,
      Arr(e.params, [](auto& p) { return Tup({Esc(p.param_type), P(p.param_type_raw), P(p.parameter_id), P(p.parameter_rate), N(p.param_definition_mode), P(p.duration), P(p.constant_subblock_duration)}); }),
      Arr(e.scalable_layers, [](auto& l) { return Tup({Esc(l.loudspeaker_layout), N(l.loudspeaker_layout_raw), Opt(l.expanded_loudspeaker_layout, [](auto& s) { return Esc(s); }), Opt(l.expanded_loudspeaker_layout_raw, [](auto& s) { return N(s); }), B(l.output_gain_is_present_flag), B(l.recon_gain_is_present_flag), N(l.substream_count), N(l.coupled_substream_count), N(l.output_gain_flag), N(l.output_gain_q7_8), F(l.output_gain)}); }),
      Opt(e.ambisonics, [](auto& a) { return Tup({Esc(a.mode), N(a.mode_raw), Opt(a.mono, [](auto& m) { return Tup({N(m.output_channel_count), N(m.substream_count), U8s(m.channel_mapping)}); }),
          Opt(a.projection, [](auto& m) { return Tup({N(m.output_channel_count), N(m.substream_count), N(m.coupled_substream_count), Arr(m.demixing_matrix, [](auto v) { return N(v); })}); }), Opt(a.order, [](auto v) { return N(v); })}); }),
      Opt(e.channel_layout, [](auto& s) { return Esc(s); }), Opt(e.channel_layout_raw, [](auto v) { return N(v); }), Opt(e.expanded_channel_layout_raw, [](auto v) { return N(v); }),
      Opt(e.ambisonics_order, [](auto v) { return N(v); }), Opt(e.ambisonics_channels, [](auto v) { return N(v); }), Opt(e.num_channels, [](auto v) { return N(v); })});
}
static std::string GainR(const MixGainParamDefinitionReport& g) { auto& p = g.param_definition; return Tup({P(p.parameter_id), P(p.parameter_rate), N(p.param_definition_mode), P(p.duration), P(p.constant_subblock_duration), N(g.default_mix_gain_q7_8), F(g.default_mix_gain)}); }
static std::string MixR(const MixPresentationReport& m) {
  return Tup({P(m.id), P(m.count_label), Arr(m.annotations, [](auto& a) { return Tup({StrJ(a.first), StrJ(a.second)}); }), P(m.num_sub_mixes),
      Arr(m.sub_mixes, [](auto& s) { return Tup({
          Arr(s.audio_elements, [](auto& e) { return Tup({P(e.audio_element_id), Arr(e.localized_element_annotations, StrJ), Esc(e.rendering_config.headphones_rendering_mode), N(e.rendering_config.headphones_rendering_mode_raw), Esc(e.rendering_config.binaural_filter_profile), N(e.rendering_config.binaural_filter_profile_raw), GainR(e.element_mix_gain)}); }),
          GainR(s.output_mix_gain),
          Arr(s.layouts, [](auto& l) { auto& y = l.loudness_layout; auto& u = l.loudness; return Tup({Esc(y.layout_type), N(y.layout_type_raw), Opt(y.sound_system, [](auto& v) { return Esc(v); }), Opt(y.sound_system_raw, [](auto v) { return N(v); }),
              N(u.info_type), B(u.true_peak_present), B(u.anchored_loudness_present), B(u.has_layout_extension), F(u.integrated_loudness), F(u.digital_peak), Opt(u.true_peak, [](auto v) { return F(v); }),
              Arr(u.anchored_loudness_elements, [](auto& a) { return Tup({Esc(a.anchor_element), N(a.anchor_element_raw), N(a.anchored_loudness_q7_8), F(a.anchored_loudness)}); })}); })}); }),
      Arr(m.tags, [](auto& t) { return Tup({StrJ(t.tag_name), StrJ(t.tag_value)}); }), Arr(m.layouts, [](auto& s) { return Esc(s); }),
      Opt(m.integrated_loudness_lkfs, [](auto v) { return F(v); }), Opt(m.digital_peak_dbfs, [](auto v) { return F(v); }), Opt(m.true_peak_dbfs, [](auto v) { return F(v); })});
}
static std::string DescrR(const ProbeReport& r) {
  return Obj().f("pp", Raw{Esc(r.primary_profile)}).f("ppr", (int)r.primary_profile_raw).f("ap", Raw{Esc(r.additional_profile)}).f("apr", (int)r.additional_profile_raw)
      .raw("cc", Arr(r.codec_configs, CodecR)).raw("ae", Arr(r.audio_elements, ElementR)).raw("mix", Arr(r.mix_presentations, MixR)).f("end", (int)r.descriptor_bytes_consumed)
      .raw("total", Opt(r.descriptor_total_samples, [](auto t) { return Js(std::vector<int>{(int)(t >> 32), (int)(t >> 16 & 65535), (int)(t & 65535)}); })).raw("secs", Opt(r.descriptor_duration_seconds, Sec)).end().s;
}
static std::string BlockR(const ParameterBlockReport& b) {
  return Tup({P(b.parameter_id), Esc(b.param_type), P(b.param_type_raw), L64(b.start_timestamp), L64(b.end_timestamp), P(b.duration), P(b.constant_subblock_duration),
      Arr(b.subblocks, [](auto& s) { return Tup({P(s.subblock_duration),
          Opt(s.mix_gain, [](auto& g) { return Tup({Esc(g.animation_type), P(g.animation_type_raw), N(g.start_point_value_q7_8), F(g.start_point_value), Opt(g.end_point_value_q7_8, [](auto v) { return N(v); }), Opt(g.end_point_value, [](auto v) { return F(v); }),
              Opt(g.control_point_value_q7_8, [](auto v) { return N(v); }), Opt(g.control_point_value, [](auto v) { return F(v); }), Opt(g.control_point_relative_time, [](auto v) { return N(v); })}); }),
          Opt(s.demixing, [](auto& d) { return Tup({Esc(d.dmixp_mode), N(d.dmixp_mode_raw), N(d.reserved)}); }),
          Opt(s.recon_gain, [](auto& g) { return Arr(g.layers, [](auto& l) { return Tup({N(l.layer_index), P(l.recon_gain_flag), U8s(l.recon_gain)}); }); })}); })});
}
static std::string ScanR(const TemporalUnitScanReport& r) {
  return Obj().f("tus", (int)r.temporal_unit_count).f("frames", (int)r.audio_frame_count).f("blocks", (int)r.parameter_block_count).f("delims", (int)r.temporal_delimiter_count).f("badf", (int)r.audio_frame_parse_errors).f("badb", (int)r.parameter_block_parse_errors)
      .raw("by", Arr(r.audio_frames_by_substream, [](auto& a) { return Tup({P(a.substream_id), P(a.codec_config_id), N(a.frame_count), L64(a.total_samples)}); }))
      .raw("list", Arr(r.parameter_blocks, BlockR)).raw("units", Arr(r.temporal_units, [](auto& u) { return Tup({L64(u.start_timestamp), L64(u.num_samples), N(u.byte_offset_from_scan_start), P(u.samples_to_trim_at_start), P(u.samples_to_trim_at_end)}); }))
      .raw("total", Opt(r.total_samples, L64)).raw("secs", Opt(r.duration_seconds, Sec)).raw("rate", Opt(r.output_sample_rate, P)).f("end", (int)r.bytes_consumed).f("why", Raw{Esc(r.stopped_reason)}).end().s;
}
static std::string g_before;  // the report on the descriptors last written down
static void Try(const Bytes& d, size_t n, bool file, int mode) {
  ProbeOptions o; o.scan_mode = static_cast<ScanMode>(mode); const bool count = R->P(70), limited = R->P(12); const int budget = limited ? R->In(0, 30) : -1, cancel = count && R->P(15) ? R->In(0, 12) : -1;
  std::vector<std::string> calls; if (limited) o.max_scan_obu_iterations = budget;
  if (count) o.should_continue = [&](const ScanProgress& p) { calls.push_back(Tup({N(p.bytes_consumed), N(p.temporal_unit_count)})); return (int)calls.size() != cancel + 1; };
  absl::StatusOr<ProbeReport> r = absl::UnknownError("");
  if (file) {
    const std::string path = Arg("out") + ".iamf";
    { std::ofstream f(path, std::ios::binary); f.write((const char*)d.data(), n); }
    r = ProbeFile(path, o); std::filesystem::remove(path);
  } else { const Bytes part(d.begin(), d.begin() + n); r = Probe(absl::MakeConstSpan(part), o); }
  std::string now = r.ok() ? DescrR(*r) : ""; const bool fresh = r.ok() && now != g_before; if (fresh) g_before = now;
  Ev("probe").f("n", (int)n).f("file", file).f("mode", mode).f("budget", budget).f("watch", count).f("cancel", cancel)
      .f("st", r.ok() ? "ok" : r.status().code() == absl::StatusCode::kResourceExhausted ? "more" : r.status().code() == absl::StatusCode::kInvalidArgument ? "bad" : "other")
      .raw("rep", fresh ? "[" + now + "]" : "[]").raw("calls", Arr(calls, [](auto& s) { return s; })).raw("scan", r.ok() && r->temporal_unit_scan ? "[" + ScanR(*r->temporal_unit_scan) + "]" : "[]");
}
// --- streams
static std::vector<Bytes> Descriptors() {
  std::vector<Bytes> r; const bool seq = R->P(97);
  g_mute = true; g_made.clear(); g_codecs.clear(); g_elements.clear(); g_sub = R->P(70) ? -1 : R->In(0, 30); g_param = R->In(0, 40);
  auto some = [&](int tries, size_t want, auto make) { const size_t from = g_made.size(); for (int i = 0; i < tries && g_made.size() < from + want; ++i) make(); };
  if (seq) { if (R->P(70)) g_made.push_back(st::Obu({.type = 31, .redundant = R->P(10)}, st::SequenceHeader(R->In(0, 5), R->P(80) ? R->In(0, 5) : R->In(0, 255)))); else some(4, 1, Seq); }
  some(12, R->P(60) ? 1 : R->In(0, 4), Codec); some(20, R->P(60) ? R->In(1, 2) : R->In(0, 4), Element); some(6, R->P(70) ? 1 : R->In(0, 2), Mix);
  r = g_made; g_mute = false;
  if (R->P(4) && r.size() > 1) std::swap(r[R->In(0, r.size() - 1)], r[R->In(0, r.size() - 1)]);
  if (R->P(15) && !r.empty()) r.insert(r.begin() + R->In(1, r.size()), r[R->In(0, r.size() - 1)]);
  if (R->P(15) && !r.empty()) r.insert(r.begin() + R->In(R->P(90) ? 1 : 0, r.size()), st::Obu({.type = R->P(50) ? (int)R->In(24, 30) : 25, .redundant = R->P(30), .ext = R->P(20), .ext_bytes = {1, 2}}, Some(R->In(0, 9))));
  return r;
}
struct Src { D id; D frame; };
static void Stream(bool big) {
  auto ds = Descriptors(); Bytes d; std::vector<size_t> cuts; auto put = [&](const Bytes& o) { if (o.size() < 3000 || big) { d.insert(d.end(), o.begin(), o.end()); cuts.push_back(d.size()); } };
  for (auto& o : ds) put(o);
  // what a parser makes of them, to know what to add
  std::vector<Src> srcs; std::vector<Def> defs;
  { Bytes e = d; const auto td = st::Obu({.type = 4}, {}); e.insert(e.end(), td.begin(), td.end()); auto rb = Rd(e); bool more = false;
    auto o = DescriptorObuParser::ProcessDescriptorObus(false, *rb, more);
    if (o.ok()) {
      for (auto& [id, el] : o->audio_elements) for (auto s : el.obu.audio_substream_ids_) srcs.push_back({s, el.codec_config ? el.codec_config->GetNumSamplesPerFrame() : 0});
      absl::flat_hash_map<DecodedUleb128, ParamDefinitionVariant> all;
      (void)CollectAndValidateParamDefinitions(o->audio_elements, o->mix_presentation_obus, all);
      for (auto& [id, v] : all) {
        Def x;
        if (auto* g = std::get_if<MixGainParamDefinition>(&v)) { x.k = 0; x.p = std::make_unique<MixGainParamDefinition>(*g); }
        else if (auto* g = std::get_if<DemixingParamDefinition>(&v)) { x.k = 1; x.p = std::make_unique<DemixingParamDefinition>(*g); }
        else if (auto* g = std::get_if<ReconGainParamDefinition>(&v)) { x.k = 2; x.p = std::make_unique<ReconGainParamDefinition>(*g); for (auto& a : g->aux_data_) x.layers.push_back(a.recon_gain_is_present_flag); }
        else continue;
        if (!x.p->GetSchedule() || x.p->GetSchedule()->GetNumSubblocks() < 60) defs.push_back(std::move(x));
      }
    } }
  std::sort(srcs.begin(), srcs.end(), [](auto& a, auto& b) { return a.id < b.id; }); std::sort(defs.begin(), defs.end(), [](auto& a, auto& b) { return a.p->GetParameterId() < b.p->GetParameterId(); });
  auto hdr = [&](int t) { return st::Hdr{.type = t, .redundant = R->P(1), .trimming = t == 4 && R->P(1), .ext = R->P(8), .ext_bytes = Some(R->In(0, 4)), .pad_size = R->P(6) ? (int)R->In(1, 5) : 0}; };
  auto frame = [&](D id, uint32_t te, uint32_t ts) { auto h = hdr(st::FrameType(std::min<D>(id, 18))); if (te || ts || R->P(8)) { h.trimming = true; h.trim_end = te; h.trim_start = ts; } put(st::Obu(h, st::FramePayload(std::min<D>(id, 2000000000), Some(big ? R->In(500, 3000) : R->P(90) ? R->In(0, 12) : R->In(0, 90))))); };
  auto block = [&] {
    if (defs.empty() || R->P(6)) { put(st::Obu(hdr(3), R->P(50) ? Some(R->In(0, 5)) : st::W().leb(R->In(0, 300)).raw(Some(R->In(0, 6))).b)); return; }
    auto& x = defs[R->In(0, defs.size() - 1)]; std::optional<SubblockSchedule> s;
    g_mute = true; if (!x.p->GetSchedule()) { do s = Sched(false); while (!s || s->GetNumSubblocks() > 9); }
    auto o = s ? ParameterBlockObu::CreateMode1(ObuHeader{.obu_type = kObuIaParameterBlock}, *x.p, *s) : ParameterBlockObu::CreateMode0(ObuHeader{.obu_type = kObuIaParameterBlock}, *x.p);
    Bytes b;
    if (o) { for (auto& p : o->subblocks_) p = bl::Data(x); o->footer_ = Some(R->P(90) ? 0 : 2); WriteBitBuffer wb(20); if (o->ValidateAndWriteObu(wb).ok()) b = wb.bit_buffer(); }
    g_mute = false; if (b.empty()) return; bl::Strip(b); if (R->P(6)) Spoil(b); if (R->P(4) && !b.empty()) b.pop_back();
    put(st::Obu(hdr(3), b));
  };
  auto copies = [&](bool red) { for (auto o : ds) { if (red) o[0] |= 4; put(o); } };
  const bool td = R->P(60); const int units = big ? 60 : R->In(0, R->P(70) ? 4 : 9);
  for (int u = 0; u < units; ++u) {
    if (td ? R->P(95) : R->P(4)) put(st::Obu(hdr(4), R->P(95) ? Bytes{} : Some(2)));
    if (R->P(6)) copies(R->P(85));
    if (R->P(8)) put(st::Obu(hdr(R->P(50) ? 25 : R->In(24, 30)), Some(R->In(0, 6))));
    if (td || R->P(20)) while (R->P(45)) block();
    const uint32_t ts = u == 0 && R->P(50) ? R->In(0, 9000) : 0, te = R->P(12) ? R->In(0, 9000) : R->P(3) ? 0xffffffff : 0;
    for (size_t k = 0; k < srcs.size(); ++k) {
      if (R->P(3)) continue;
      const bool same = R->P(96); frame(srcs[k].id, same ? te : R->In(0, 9), same ? ts : R->In(0, 9));
      if (R->P(2)) frame(srcs[R->In(0, srcs.size() - 1)].id, te, ts);
      if (R->P(4)) block();
    }
    if (R->P(5)) frame(R->In(0, 400), te, ts);
    if (R->P(3)) put(st::Obu(hdr(5), Bytes(R->In(0, 2), 0x80)));
    if (!td) while (R->P(35)) block();
  }
  if (R->P(12)) { put(st::Obu({.type = 31}, st::SequenceHeader())); if (R->P(50)) put(st::Obu(hdr(4), {})); }
  if (R->P(10)) put(Some(R->In(1, 12)));
  if (!big && R->P(25)) for (int k = R->P(60) ? 1 : R->In(2, 5); k > 0 && !d.empty(); --k) { size_t at = R->P(60) && cuts.size() > 1 ? cuts[R->In(0, cuts.size() - 2)] + R->In(0, 2) : R->In(0, d.size() - 1); if (at < d.size()) d[at] = R->P(50) ? d[at] ^ 1 << R->In(0, 7) : B8(); }
  if (big && d.size() < 66000) return;
  Ev("stream").f("d", I(d)); g_before.clear();
  Try(d, d.size(), false, 2);
  if (big) { for (int k = 0; k < 3; ++k) Try(d, R->In(0, 1) ? d.size() : d.size() - R->In(0, 3000), true, 2); return; }
  std::vector<size_t> at;
  if (R->P(6) && d.size() < 500) for (size_t k = 0; k < d.size(); ++k) at.push_back(k);
  else { for (int k = R->In(2, 9); k > 0; --k) at.push_back(R->In(0, d.size())); for (int k = R->In(1, 5); k > 0 && !cuts.empty(); --k) at.push_back(std::min<size_t>(d.size(), cuts[R->In(0, cuts.size() - 1)] + R->In(-1, 2))); at.push_back(d.size()); at.push_back(d.size()); }
  for (auto n : at) Try(d, n, R->P(12), R->P(60) ? 2 : R->In(0, 2));
}
int main(int argc, char** argv) {
  Init(argc, argv); g_log = false;
  Rng r(ArgI("seed", 1)); R = &r;
  const int n = ArgI("n", 10);
  for (int i = 0; i < n; ++i) { Ev("begin").f("i", i); Stream(false); if (i % 40 == 7) Stream(true); }
}
