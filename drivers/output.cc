// M04: channel order, layout identity, interleaved PCM and the common format of a mix.
#include <sstream>
#include "absl/container/flat_hash_set.h"
#include "absl/types/span.h"
#include "iamf/api/conversion/channel_reorderer.h"
#include "iamf/api/conversion/mix_presentation_conversion.h"
#include "iamf/api/conversion/profile_conversion.h"
#include "iamf/cli/cli_util.h"
#include "iamf/include/iamf_tools/iamf_tools_api_types.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/decoder_config/lpcm_decoder_config.h"
#include "iamf/obu/mix_presentation.h"
#include "vtrace.h"
using namespace iamf_tools;
using namespace vt;
static Rng* R;
typedef LoudspeakersSsConventionLayout SsL;
typedef LoudspeakersReservedOrBinauralLayout BinL;

static void Reorder(int system, bool android, int n) {
  auto r = ChannelReorderer::Create((SsL::SoundSystem)system, android ? ChannelReorderer::RearrangementScheme::kReorderForAndroid
                                                                     : ChannelReorderer::RearrangementScheme::kDefaultNoOp);
  const int calls = R->In(1, 3);
  for (int k = 0; k < calls; ++k) {  // one object is used for all frames
    if (k) n = R->P(60) ? n : R->In(0, 27);
    // lengths and contents tell the channels apart
    std::vector<std::vector<double>> store(n); std::vector<absl::Span<const double>> f; std::vector<std::vector<int>> in, out;
    const int t = R->In(1, 3);
    for (int c = 0; c < n; ++c) {
      in.emplace_back();
      for (int i = 0; i < t; ++i) { store[c].push_back(c * 10 + i + k); in[c].push_back(c * 10 + i + k); }
      f.push_back(absl::MakeConstSpan(store[c]));
    }
    auto st = r.Reorder(f);
    for (auto& c : f) { out.emplace_back(); for (double v : c) out.back().push_back((int)v); }
    Ev("reorder").f("system", system).f("android", android).f("frame", in).f("ok", st.ok()).f("out", out);
  }
}
static void Layouts() {
  for (int a = 0; a <= 14; ++a) {
    auto l = ApiToInternalType(std::optional<api::OutputLayout>((api::OutputLayout)a));
    auto* s = std::get_if<SsL>(&l->specific_layout); auto* b = std::get_if<BinL>(&l->specific_layout);
    Ev("to_internal").f("api", a).f("type", (int)l->layout_type).f("ss", s ? (int)s->sound_system : -1).f("reserved", s ? s->reserved : b->reserved);
  }
  Ev("to_internal_none").f("some", ApiToInternalType(std::optional<api::OutputLayout>()).has_value());
  for (int type = 0; type < 4; ++type)
    for (int ss = -1; ss < 16; ++ss) {
      Layout l{.layout_type = (Layout::LayoutType)type};
      if (ss >= 0) l.specific_layout = SsL{.sound_system = (SsL::SoundSystem)ss, .reserved = (uint8_t)R->In(0, 3)};
      else l.specific_layout = BinL{.reserved = (uint8_t)R->In(0, 63)};
      const bool mismatch = (ss >= 0) != (type == 2);
      auto p = InternalToApiType(l);
      Ev("to_public").f("type", type).f("ss", ss).f("mismatch", mismatch).f("ok", p.ok()).f("v", p.ok() ? (int)*p : -1);
      if (type == 2 && ss < 0) continue;
      int32_t n = -1; auto st = MixPresentationObu::GetNumChannelsFromLayout(l, n);
      Ev("channels").f("type", type).f("ss", ss).f("ok", st.ok()).f("v", n);
    }
  for (int v : {0, 1, 2, 3, 4, 5, 100, 255}) {
    auto p = InternalToApiType((ProfileVersion)v);
    Ev("profile").f("internal", v).f("ok", p.ok()).f("v", p.ok() ? (int)*p : -1).f("back", p.ok() ? (int)ApiToInternalType(*p) : -1);
  }
}
static void Pcm() {
  static const int bd[] = {8, 16, 24, 32, 16, 24, 32, 8, 12, 17, 40, 64, 255};
  const int n = R->In(1, 5), t = R->P(10) ? 0 : R->In(1, 5), bits = bd[R->In(0, R->P(85) ? 6 : 12)];
  std::vector<std::vector<int32_t>> f(n); std::vector<std::vector<std::vector<int>>> in(n);
  for (int c = 0; c < n; ++c)
    for (int i = 0; i < t; ++i) {
      uint32_t v = R->P(20) ? (uint32_t)R->Pick(std::vector<int64_t>{0, -1, 1, INT32_MAX, INT32_MIN, 255, 256, -256}) : (uint32_t)R->Next();
      f[c].push_back((int32_t)v); in[c].push_back({(int)(v & 255), (int)(v >> 8 & 255), (int)(v >> 16 & 255), (int)(v >> 24)});
    }
  std::vector<uint8_t> buf(R->In(0, 9), 0xAA); const bool big = R->P(50);
  auto st = WritePcmFrameToBuffer(f, bits, big, buf);
  std::vector<int> b(buf.begin(), buf.end());
  Ev("pcm").f("frame", in).f("bits", bits).f("big", big).f("ok", st.ok()).f("bytes", b);
}
static void Common() {
  absl::flat_hash_set<uint32_t> rates; absl::flat_hash_set<uint8_t> depths; std::vector<int> rv, dv;
  static const int rt[] = {48000, 44100, 16000, 96000, 8000}; static const int bt[] = {16, 24, 32};
  for (int i = R->In(0, 3); i > 0; --i) rates.insert(rt[R->In(0, 4)]);
  for (int i = R->In(0, 3); i > 0; --i) depths.insert(bt[R->In(0, 2)]);
  for (auto r : rates) rv.push_back(r);
  for (auto d : depths) dv.push_back(d);
  uint32_t cr = 7; uint8_t cb = 7; bool rs = R->P(50);
  auto st = GetCommonSampleRateAndBitDepth(rates, depths, cr, cb, rs);
  Ev("common").f("rates", rv).f("depths", dv).f("ok", st.ok()).f("rate", (int)cr).f("bits", (int)cb).f("resample", rs);
  DescriptorObus::CodecConfigsById cc; std::vector<int> sizes;
  const int a = R->In(1, 2000), n = R->In(0, 4);
  for (int i = 0; i < n; ++i) {
    const int s = R->P(85) ? a : R->In(1, 2000);
    LpcmDecoderConfig d{.sample_format_flags_bitmask_ = LpcmDecoderConfig::kLpcmLittleEndian, .sample_size_ = 16, .sample_rate_ = 48000};
    auto c = CodecConfigObu::Create(ObuHeader(), i, CodecConfig{.codec_id = CodecConfig::kCodecIdLpcm, .num_samples_per_frame = (uint32_t)s, .decoder_config = d}, true);
    if (!c.ok()) continue;
    cc.emplace(i, *std::move(c)); sizes.push_back(s);
  }
  uint32_t v = 0; auto s2 = GetCommonSamplesPerFrame(cc, v);
  Ev("spf").f("sizes", sizes).f("ok", s2.ok()).f("v", (int)v);
}
static void Status() {
  std::string m; for (int i = R->In(0, 12); i > 0; --i) m += (char)R->In(32, 126);
  const bool ok = R->P(40);
  auto s = ok ? api::IamfStatus::OkStatus() : api::IamfStatus::ErrorStatus(m);
  api::IamfStatus copy = s; std::ostringstream o; o << s;
  Ev("status").f("success", ok).f("msg", m).f("ok", s.ok()).f("kept", s.error_message).f("copied", copy.error_message).f("copied_ok", copy.ok()).f("text", o.str());
}
int main(int argc, char** argv) {
  Init(argc, argv);
  Rng r(ArgI("seed", 1)); R = &r;
  const int n = ArgI("n", 10), shard = ArgI("shard", 0);
  for (int s = shard; s < 16; s += 8)
    for (int android = 0; android < 2; ++android)
      for (int k = 0; k <= 26; ++k) Reorder(s, android, k);
  Layouts();
  for (int i = 0; i < n; ++i) { Reorder(R->In(0, 15), R->P(85), R->In(0, 26)); Pcm(); Common(); Status(); }
}
