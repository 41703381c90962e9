// E01: the encoder, driven through its public calls, and every OBU it gives.
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <google/protobuf/text_format.h>
#include "vtrace.h"
#include "iamf/cli/channel_label.h"
#include "iamf/cli/iamf_encoder.h"
#include "iamf/cli/proto_conversion/channel_label_utils.h"
#include "iamf/cli/proto/user_metadata.pb.h"
#include "iamf/cli/proto/parameter_block.pb.h"
#include "iamf/cli/proto/audio_frame.pb.h"
#include "iamf/cli/renderer_factory.h"
#include "iamf/cli/rendering_mix_presentation_finalizer.h"
#include "iamf/cli/user_metadata_builder/audio_element_metadata_builder.h"
#include "iamf/cli/user_metadata_builder/audio_frame_metadata_builder.h"
#include "iamf/cli/user_metadata_builder/codec_config_obu_metadata_builder.h"
#include "iamf/cli/user_metadata_builder/iamf_input_layout.h"
using namespace iamf_tools;
using namespace vt;
namespace pb = iamf_tools_cli_proto;
extern "C" int g_opus_lookahead;
static Rng* R;
template <class M> static void Text(const std::string& s, M* m) { if (!google::protobuf::TextFormat::ParseFromString(s, m)) { fprintf(stderr, "text: %s\n", s.c_str()); exit(97); } }
static std::string S_(long x) { return std::to_string(x); }

// ---- reading what comes out
struct In { const uint8_t* p; size_t n; bool bad = false;
  int u8() { if (!n) { bad = true; return 0; } --n; return *p++; }
  long leb() { long v = 0; for (int k = 0; k < 8; ++k) { int b = u8(); v |= long(b & 127) << (7 * k); if (!(b & 128)) break; } return v; } };
static std::string Hex(const uint8_t* p, size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
struct Sub { int id, ch, codec, size; };
static int Fit(double v) { return v > 1e9 ? 1000000000 : v < -1e9 ? -1000000000 : (int)std::lrint(v); }
// samples as 16-bit numbers, one list per channel; a frame nothing can read has none
static std::vector<Raw> Pcm(const Sub& s, In b, int S) {
  std::vector<std::vector<int>> x(s.ch); std::vector<Raw> r;
  auto le = [&](int n) { int64_t v = 0; for (int k = 0; k < n; ++k) v |= int64_t(b.u8()) << (8 * k); return n < 8 && (v >> (8 * n - 1)) & 1 ? v - (int64_t(1) << (8 * n)) : v; };
  int n = S; bool ok = true;
  if (s.codec == 0) { if ((long)b.n != (long)S * s.ch * s.size / 8) return r; for (int t = 0; t < n; ++t) for (auto& c : x) c.push_back(Fit(le(s.size / 8) / std::pow(2.0, s.size - 16))); }
  if (s.codec == 1 && b.n && *b.p == 'P') { b.u8(); n = b.u8() << 8; n |= b.u8(); if ((long)b.n != 2L * n * s.ch) return r;
    for (int t = 0; t < n; ++t) for (auto& c : x) c.push_back((int)le(2)); }
  else if (s.codec == 1) { ok = b.u8() == 'O'; n = b.u8() << 8; n |= b.u8(); if (!ok || (long)b.n != 4L * n * s.ch) return r;
    for (int t = 0; t < n; ++t) for (auto& c : x) { int32_t v = le(4); float f; memcpy(&f, &v, 4); c.push_back(Fit(double(f) * 32768)); } }
  if (s.codec == 2) { ok = b.u8() == 'F'; ok &= b.u8() == s.ch; int bps = b.u8(); n = b.u8() << 8; n |= b.u8(); if (!ok || (long)b.n != 4L * n * s.ch) return r;
    for (int t = 0; t < n; ++t) for (auto& c : x) c.push_back(Fit(le(4) / std::pow(2.0, bps - 16))); }
  if (s.codec == 3) { ok = b.u8() == 'A'; ok &= b.u8() == s.ch; n = b.u8() << 8; n |= b.u8(); if (!ok || (long)b.n != 2L * n * s.ch) return r;
    for (int t = 0; t < n; ++t) for (auto& c : x) c.push_back((int)le(2)); }
  for (auto& c : x) r.push_back(Raw{Js(c)});
  return r;
}
static std::vector<Raw> Obus(const std::vector<uint8_t>& v, const std::map<int, Sub>& subs, int S) {
  std::vector<Raw> out; In in{v.data(), v.size()};
  while (in.n) {
    const uint8_t* start = in.p; const int h = in.u8(), type = h >> 3; const bool trim = h & 2, ext = h & 1; const long size = in.leb();
    if (in.bad || size > (long)in.n) { out.push_back(Obj().f("k", "junk").end()); return out; }
    In b{in.p, (size_t)size}; in.p += size; in.n -= size; const size_t whole = in.p - start;
    if (type == 4) { out.push_back(Obj().f("k", "td").end()); continue; }
    if (type == 3) { const int id = b.leb(), dur = b.leb(), csd = b.leb(), anim = b.leb(); int v = b.u8() << 8; v |= b.u8(); out.push_back(Obj().f("k", "block").f("id", id).f("dur", dur).f("csd", csd).f("anim", anim).f("v", v).f("rest", (int)b.n).end()); continue; }
    if (type >= 5 && type <= 23) {
      const int te = trim ? b.leb() : 0, ts = trim ? b.leb() : 0; const int id = type == 5 ? b.leb() : type - 6; auto it = subs.find(id);
      if (ext || it == subs.end()) { out.push_back(Obj().f("k", "junk").end()); continue; }
      out.push_back(Obj().f("k", "frame").f("sub", id).f("ts", ts).f("te", te).f("flag", trim).f("pcm", Pcm(it->second, b, S)).end()); continue;
    }
    out.push_back(Obj().f("k", "arb").f("b", Hex(start, whole)).end());
  }
  return out;
}
struct El { int id, cc; std::vector<pb::ChannelLabel> labels; std::vector<std::string> keys; bool layered = false; };
static std::string Key(pb::ChannelLabel l) { pb::ChannelLabelMessage m; m.set_channel_label(l); return m.SerializeAsString(); }

static void Run(bool big) {
  // --- the configuration
  pb::UserMetadata um; std::map<int, Sub> subs;
  const int kind = big ? 3 : R->P(55) ? 0 : R->P(45) ? 1 : R->P(60) ? 2 : 4;   // lpcm, opus, flac, aac, lpcm with opus
  const int S = kind == 3 ? 1024 : kind == 2 ? (int)R->In(16, 24) : (int)R->In(kind == 0 ? 1 : 2, 9);
  g_opus_lookahead = R->P(20) ? 0 : (int)R->In(1, 3 * S);
  const bool trivial = !big && R->P(2);
  const int D = trivial ? 0 : kind == 1 || kind == 4 ? g_opus_lookahead : kind == 3 ? 2048 : 0;
  Text("primary_profile: PROFILE_VERSION_ADVANCED1 additional_profile: PROFILE_VERSION_ADVANCED2", um.add_ia_sequence_header_metadata());
  const int bits = R->Pick(std::vector<int>{16, 16, 24, 32});
  auto config = [&](int id, int codec) {
    auto* c = um.add_codec_config_metadata();
    if (codec == 0) { *c = CodecConfigObuMetadataBuilder::GetLpcmCodecConfigObuMetadata(id, S, bits, 48000); if (R->P(30)) {} }
    if (codec == 1) *c = CodecConfigObuMetadataBuilder::GetOpusCodecConfigObuMetadata(id, S);
    if (codec == 2) Text("codec_config_id: " + S_(id) + " codec_config { codec_id: CODEC_ID_FLAC num_samples_per_frame: " + S_(S) + " audio_roll_distance: 0 decoder_config_flac: { metadata_blocks: { header: { block_type: FLAC_BLOCK_TYPE_STREAMINFO } "
       "stream_info { minimum_block_size: " + S_(S) + " maximum_block_size: " + S_(S) + " sample_rate: 48000 bits_per_sample: 15 total_samples_in_stream: 0 } } flac_encoder_metadata { compression_level: 0 } } }", c);
    if (codec == 3) Text("codec_config_id: " + S_(id) + " codec_config { codec_id: CODEC_ID_AAC_LC num_samples_per_frame: 1024 automatically_override_audio_roll_distance: true decoder_config_aac: { buffer_size_db: 0 max_bitrate: 0 average_bit_rate: 0 "
       "decoder_specific_info { sample_frequency_index: AAC_SAMPLE_FREQUENCY_INDEX_48000 } aac_encoder_metadata { bitrate_mode: 0 enable_afterburner: true signaling_mode: 2 } } }", c);
  };
  config(200, kind == 4 ? 0 : kind); if (kind == 4) config(201, 1);
  std::vector<El> els; const int nel = trivial ? 0 : kind == 4 ? 2 : R->P(60) ? 1 : (int)R->In(2, 3);
  AudioElementMetadataBuilder ab; std::vector<int> free; for (int k = 0; k < 40; ++k) free.push_back(k);
  std::vector<std::string> mixels; const bool gains = nel && R->P(35);
  // trims
  const int calls = big ? (int)R->In(0, 4) : R->P(8) ? 0 : (int)R->In(1, 5), last = R->P(40) ? S : (int)R->In(1, S);
  const int mode = nel == 0 || R->P(72) ? 0 : (int)R->In(1, 3);   // as told, any sizes, elements at different times, labels at different times
  std::vector<int> sizes; for (int k = 0; k < calls; ++k) sizes.push_back(k + 1 == calls ? last : S);
  if (mode == 1) for (auto& x : sizes) x = R->P(50) ? S : (int)R->In(1, 2 * S);
  int N = 0; for (int x : sizes) N += x;
  const int pad = (S - (D + N) % S) % S;
  const bool is = R->P(50), ie = R->P(50);
  const int us = R->P(60) ? (is ? D : 0) : R->P(80) ? (is ? D : 0) + (int)R->In(0, 2 * S) : (int)R->In(0, 2 * S);
  const int ue = R->P(60) ? (ie ? pad : 0) : R->P(60) ? (ie ? pad : 0) + (int)R->In(0, S - pad) : (int)R->In(0, S + 1);
  for (int k = 0; k < nel; ++k) {
    El e; e.id = 300 + k * 7; e.cc = kind == 4 && k == 1 ? 201 : 200;
    static const std::vector<IamfInputLayout> layouts = {IamfInputLayout::kMono, IamfInputLayout::kStereo, IamfInputLayout::kStereo, IamfInputLayout::kStereo, IamfInputLayout::k5_1, IamfInputLayout::kAmbisonicsOrder1, IamfInputLayout::k5_1_2, IamfInputLayout::kLFE};
    e.layered = (kind == 0 || kind == 2) && R->P(12); const IamfInputLayout lay = e.layered ? IamfInputLayout::k5_1 : big ? IamfInputLayout::kMono : R->Pick(layouts);
    auto* m = um.add_audio_element_metadata(); auto* f = um.add_audio_frame_metadata();
    if (e.layered) Text("audio_element_id: " + S_(e.id) + " audio_element_type: AUDIO_ELEMENT_CHANNEL_BASED reserved: 0 codec_config_id: " + S_(e.cc) + " audio_substream_ids: [0, 1, 2, 3] audio_element_params { param_definition_type: PARAM_DEFINITION_TYPE_DEMIXING "
        "demixing_param: { param_definition { parameter_id: " + S_(900 + k) + " parameter_rate: 48000 param_definition_mode: 0 reserved: 0 duration: " + S_(S) + " constant_subblock_duration: " + S_(S) + " } default_demixing_info_parameter_data: { dmixp_mode: DMIXP_MODE_2 } default_w: 0 } } "
        "scalable_channel_layout_config { reserved: 0 channel_audio_layer_configs: [ { loudspeaker_layout: LOUDSPEAKER_LAYOUT_STEREO substream_count: 1 coupled_substream_count: 1 }, { loudspeaker_layout: LOUDSPEAKER_LAYOUT_5_1_CH substream_count: 3 coupled_substream_count: 1 } ] }", m);
    else if (!ab.PopulateAudioElementMetadata(e.id, e.cc, lay, *m).ok()) exit(97);
    for (int j = 0; j < m->audio_substream_ids_size(); ++j) { const int x = R->In(0, free.size() - 1); m->set_audio_substream_ids(j, free[x]); free.erase(free.begin() + x); }
    if (!AudioFrameMetadataBuilder::PopulateAudioFrameMetadata("x.wav", e.id, lay, *f).ok()) exit(97);
    f->set_samples_to_trim_at_start(us); f->set_samples_to_trim_at_end(ue); f->set_samples_to_trim_at_start_includes_codec_delay(is); f->set_samples_to_trim_at_end_includes_padding(ie);
    for (auto& c : f->channel_metadatas()) { e.labels.push_back(c.channel_label()); e.keys.push_back(Key(c.channel_label())); }
    els.push_back(e);
    mixels.push_back(" audio_elements { audio_element_id: " + S_(e.id) + " rendering_config { headphones_rendering_mode: HEADPHONES_RENDERING_MODE_STEREO } element_mix_gain { param_definition { parameter_id: 100 parameter_rate: 48000 param_definition_mode: 1 reserved: 0 } default_mix_gain: 0 } }");
  }
  auto mix = [&](int id, const std::string& what) { Text("mix_presentation_id: " + S_(id) + " sub_mixes {" + what + " output_mix_gain { param_definition { parameter_id: 101 parameter_rate: 48000 param_definition_mode: 1 reserved: 0 } default_mix_gain: 0 } "
     "layouts { loudness_layout { layout_type: LAYOUT_TYPE_LOUDSPEAKERS_SS_CONVENTION ss_layout { sound_system: SOUND_SYSTEM_A_0_2_0 reserved: 0 } } loudness { info_type_bit_masks: [] integrated_loudness: -5 digital_peak: 0 } } }", um.add_mix_presentation_metadata()); };
  if (kind == 4) for (int k = 0; k < nel; ++k) mix(42 + k, mixels[k]);
  else if (nel) { std::string all; for (auto& x : mixels) all += x; mix(42, all); }
  const bool td = R->P(40); um.mutable_temporal_delimiter_metadata()->set_enable_temporal_delimiters(td);
  std::vector<Raw> arbs; const int na = R->P(65) ? 0 : (int)R->In(1, 3); std::set<int> used; std::vector<std::pair<int, Raw>> sorted;
  for (int k = 0; k < na; ++k) {
    const int tick = R->P(95) ? S * (int)R->In(0, std::max(0, (D + N - 1) / S)) : (int)R->In(0, 8 * S), hook = R->In(7, 9), n = R->In(0, 3); auto* a = um.add_arbitrary_obu_metadata();
    a->set_insertion_hook((pb::InsertionHook)hook); a->set_obu_type(pb::OBU_IA_RESERVED_26); a->set_insertion_tick(tick); std::string p; for (int j = 0; j < n; ++j) p += char(R->In(0, 127)); a->set_payload(p);
    std::vector<uint8_t> b = {26 << 3, (uint8_t)n}; b.insert(b.end(), p.begin(), p.end());
    arbs.push_back(Obj().f("tick", tick).f("hook", hook).f("b", Hex(b.data(), b.size())).end());
  }
  const int spoil = R->P(96) ? 0 : (int)R->In(1, 3);   // a frame for an unknown element, an unreadable label, a block for an unknown parameter
  auto made = IamfEncoder::Create(um, nullptr, nullptr, RenderingMixPresentationFinalizer::ProduceNoSampleProcessors, IamfEncoder::CreateNoObuSequencers);
  std::vector<Raw> tel;
  std::vector<std::vector<pb::ChannelLabel>> labs;
  for (auto& e : els) {
    std::vector<Raw> ts;
    if (made.ok()) for (auto& [id, ls] : (*made)->GetAudioElements().at(e.id).substream_id_to_labels) {
      std::vector<int> ch; for (auto l : ls) { int at = 0; for (size_t j = 0; j < e.labels.size(); ++j) if (ChannelLabelUtils::ProtoToLabel(e.labels[j]).value() == l) at = j + 1; ch.push_back(at); }
      const int codec = kind == 4 ? (e.cc == 201) : kind; subs[id] = {(int)id, (int)ls.size(), codec, bits};
      ts.push_back(Obj().f("id", (int)id).f("ch", ch).end());
    }
    tel.push_back(Obj().f("id", e.id).f("n", (int)e.labels.size()).f("subs", ts).end());
  }
  { Ev b("begin"); b.f("S", S).f("D", D).f("us", us).f("ue", ue).f("is", is).f("ie", ie).f("td", td).f("gains", gains).f("els", tel).f("arbs", arbs).f("ok", made.ok());
    if (made.ok()) b.f("delay", (int)(*made)->GetEncoderDelay()).f("gen", (*made)->GeneratingTemporalUnits()); }
  if (getenv("VERIF_SAY") && !made.ok()) fprintf(stderr, "%s\n", made.status().ToString().c_str());
  if (!made.ok()) return;
  auto& q = **made; std::vector<uint8_t> before;
  auto descr = [&] {
    const bool red = R->P(10); std::vector<uint8_t> d = {1}; bool done = R->P(50); Ev e("descr"); e.f("red", red).f("ok", q.GetDescriptorObus(red, d, done).ok());
    bool md = R->P(50); q.GetMixPresentationObus(md);
    e.f("done", done).f("n", (int)d.size()).f("mixdone", md);
  };
  if (R->P(30)) descr();
  // --- the calls
  std::vector<uint8_t> unit; const bool reuse = R->P(70); bool fin = false, bad = false; int given = 0, blocks = 0, turn = 0;
  const bool lateok = ie ? ue == pad && mode != 1 : ue == 0; const bool late = lateok && R->P(40);
  const int extra = R->P(75) ? 0 : 1;
  std::vector<std::vector<std::vector<std::vector<double>>>> plan(sizes.size());
  struct Piece { int el, lab; std::vector<double> x; };
  std::vector<std::vector<Piece>> steps;
  for (int n : sizes) {
    std::vector<Piece> now; for (int k = 0; k < nel; ++k) for (size_t j = 0; j < els[k].labels.size(); ++j) { std::vector<double> x(n); for (auto& v : x) v = (int)R->In(-32768, 32767) / 32768.0; if (els[k].layered) for (auto& v : x) v = std::floor(v * 2048) / 32768; now.push_back({k, (int)j, x}); }
    if (mode == 2 && nel > 1) { const int first = R->In(0, nel - 1); std::vector<Piece> a, b; for (auto& p : now) (p.el == first ? a : b).push_back(p); steps.push_back(a); steps.push_back(b); }
    else if (mode == 3) { const int cut = R->In(0, now.size() - 1); steps.push_back({now.begin(), now.begin() + cut}); steps.push_back({now.begin() + cut, now.end()}); }
    else steps.push_back(now);
  }
  if (nel == 0) steps.clear();
  auto encode = [&](const std::vector<Piece>& ps, int b, int wrong) {
    api::IamfTemporalUnitData d; std::string meta;
    std::vector<Raw> t;
    for (auto& p : ps) {
      d.audio_element_id_to_data[wrong == 1 ? 777 : els[p.el].id][wrong == 2 ? std::string("\xff\xff\xff") : els[p.el].keys[p.lab]] = p.x;
      std::vector<int> x; for (double v : p.x) x.push_back(Fit(v * 32768)); t.push_back(Obj().f("el", p.el + 1).f("lab", p.lab + 1).f("x", x).end());
    }
    if (b >= 0) {
      pb::ParameterBlockObuMetadata m; Text("subblocks: [ { mix_gain_parameter_data { param_data { step { start_point_value: 0 } } } } ]", &m);
      m.set_parameter_id(wrong == 3 ? 555 : 100); m.set_duration(S); m.set_constant_subblock_duration(S); m.set_start_timestamp(b * S);
      m.mutable_subblocks(0)->mutable_mix_gain_parameter_data()->mutable_param_data()->mutable_step()->set_start_point_value(-b);
      d.parameter_block_id_to_metadata[m.parameter_id()] = m.SerializeAsString();
    }
    const auto st = q.Encode(d); if (getenv("VERIF_SAY") && !st.ok()) fprintf(stderr, "enc %s\n", st.ToString().c_str());
    Ev("encode").f("x", t).f("block", b >= 0 ? std::vector<int>{b} : std::vector<int>{}).f("wrong", wrong).f("ok", st.ok()).f("gen", q.GeneratingTemporalUnits());
    if (wrong) bad = true;
    return st.ok();
  };
  auto finalize = [&] { const auto st = q.FinalizeEncode(); fin = true; Ev("final").f("ok", st.ok()).f("gen", q.GeneratingTemporalUnits()); return st.ok(); };
  auto output = [&] {
    if (!reuse) unit.clear();
    const auto st = q.OutputTemporalUnit(unit); if (getenv("VERIF_SAY") && !st.ok()) fprintf(stderr, "out %s\n", st.ToString().c_str());
    Ev("out").f("ok", st.ok()).f("o", st.ok() ? Obus(unit, subs, S) : std::vector<Raw>{}).f("gen", q.GeneratingTemporalUnits()); return st.ok();
  };
  const int cap = (D + N) / S + 12 + (int)steps.size() + na; size_t at = 0;
  while (q.GeneratingTemporalUnits() && turn < cap) {
    ++turn; int b = -1;
    if (at < steps.size()) {
      if (gains && (at % (mode >= 2 && mode * 0 + steps.size() > sizes.size() ? 2 : 1)) == 0 && blocks * S < D + N) b = blocks++;
      const int wrong = spoil && R->P(30) && !(spoil == 3 ? b < 0 : steps[at].empty()) ? spoil : 0;
      if (!encode(steps[at], b, wrong)) return;
      if (bad) { output(); return; }
      ++at;
      if (at == steps.size() && !late && !finalize()) return;
    } else {
      if (gains && blocks * S < D + N) b = blocks++;
      std::vector<Piece> more; if (fin && extra && nel && R->P(50)) more.push_back({0, 0, std::vector<double>(R->In(1, S), 0.25)});
      if (b >= 0 || !more.empty() || R->P(30)) if (!encode(more, b, 0)) return;
      if (!fin || R->P(10)) if (!finalize()) return;
    }
    if (!output()) return;
    if (R->P(10)) descr();
  }
  if (q.GeneratingTemporalUnits()) { Ev("stuck").f("n", turn); return; }
  if (!fin && !finalize()) return;
  if (R->P(20)) finalize();
  if (R->P(20)) output();
  if (R->P(60)) descr();
}
int main(int argc, char** argv) {
  Init(argc, argv); Rng rng(ArgI("seed", 1)); R = &rng;
  for (long n = ArgI("n", 10), i = 0; i < n; ++i) Run(i % 400 == 7);
  return 0;
}
