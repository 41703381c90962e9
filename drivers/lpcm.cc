// E03: the LPCM codec.
#include <cmath>
#include <list>
#include "iamf/cli/audio_frame_with_data.h"
#include "iamf/cli/codec/lpcm_decoder.h"
#include "iamf/cli/codec/lpcm_encoder.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/substream_channel_count.h"
#include "vtrace.h"
using namespace iamf_tools;
using namespace vt;
static Rng* R;
typedef std::vector<std::vector<int32_t>> Frame;
static const char* Code(const absl::Status& s) {
  return s.ok() ? "OK" : absl::IsUnimplemented(s) ? "UNIMPLEMENTED" : absl::IsInvalidArgument(s) ? "INVALID" : "OTHER";
}
static std::vector<int> S4(int32_t v) { auto u = (uint32_t)v; return {int(u & 255), int(u >> 8 & 255), int(u >> 16 & 255), int(u >> 24)}; }
static std::vector<std::vector<std::vector<int>>> FJ(const Frame& f) {
  std::vector<std::vector<std::vector<int>>> r;
  for (auto& c : f) { r.emplace_back(); for (auto v : c) r.back().push_back(S4(v)); }
  return r;
}
static LpcmDecoderConfig Cfg(bool good) {
  static const uint8_t sz[] = {16, 24, 32}; static const uint32_t rt[] = {16000, 32000, 44100, 48000, 96000};
  LpcmDecoderConfig c{(LpcmDecoderConfig::LpcmFormatFlagsBitmask)R->In(0, 1), sz[R->In(0, 2)], rt[R->In(0, 4)]};
  if (!good) {
    static const int ofs[] = {-8, -1, 1, 8, 16};
    if (R->P(25)) c.sample_format_flags_bitmask_ = (LpcmDecoderConfig::LpcmFormatFlagsBitmask)R->In(0, 255);
    if (R->P(25)) c.sample_size_ = R->P(50) ? R->In(0, 255) : c.sample_size_ + ofs[R->In(0, 4)];
    if (R->P(25)) { static const uint32_t o[] = {0, 8000, 11025, 22050, 24000, 64000, 88200, 176400, 192000, 48001}; c.sample_rate_ = R->P(70) ? o[R->In(0, 9)] : R->In(0, 500000); }
  }
  return c;
}
static Frame MkFrame(int n, int t) {
  Frame f(n);
  for (auto& c : f) for (int i = 0; i < t; ++i) {
    static const int32_t sp[] = {0, -1, INT32_MAX, INT32_MIN, 0x01020304, (int32_t)0x80000001, 0x7fffff00, 0x100, (int32_t)0xfffe0001};
    c.push_back(R->P(30) ? sp[R->In(0, 8)] : (int32_t)R->Next());
  }
  return f;
}
static void Config() {
  auto c = Cfg(false);
  const int roll = R->P(85) ? 0 : R->In(-5, 5);
  WriteBitBuffer wb(16);
  auto w = c.ValidateAndWrite(roll, wb);
  std::vector<uint8_t> raw = {(uint8_t)c.sample_format_flags_bitmask_, c.sample_size_, (uint8_t)(c.sample_rate_ >> 24), (uint8_t)(c.sample_rate_ >> 16), (uint8_t)(c.sample_rate_ >> 8), (uint8_t)c.sample_rate_};
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(raw);
  LpcmDecoderConfig d{}; auto r = d.ReadAndValidate(roll, *rb);
  std::vector<int> bytes; if (w.ok()) for (auto b : wb.bit_buffer()) bytes.push_back(b);
  auto dec = LpcmDecoder::Create(c, SubstreamChannelCount::MakeSingular(), 4);
  Ev("config").f("flags", (int)c.sample_format_flags_bitmask_).f("size", (int)c.sample_size_).f("rate", (int)c.sample_rate_).f("roll", roll)
      .f("status", Code(c.Validate(roll))).f("write", Code(w)).f("bytes", bytes).f("read", Code(r)).f("same", d == c)
      .f("decoder", dec.ok()).f("little", c.IsLittleEndian());
  int n = R->P(50) ? R->In(1, 2) : R->In(-2, 5);
  auto k = SubstreamChannelCount::Create(n);
  Ev("count").f("n", n).f("ok", k.ok()).f("got", k.ok() ? (int)k->num_channels() : 0);
}
static void Life() {
  const auto c = Cfg(true);
  const int nch = R->In(1, 2), spf = R->P(20) ? R->In(5, 12) : R->In(1, 4);
  auto count = *SubstreamChannelCount::Create(nch);
  CodecConfig cc = {.codec_id = CodecConfig::kCodecIdLpcm, .num_samples_per_frame = (uint32_t)spf, .decoder_config = c};
  auto obu = CodecConfigObu::Create(ObuHeader(), 0, cc, true);
  if (!obu.ok()) { Ev("begin").f("ok", false); return; }
  LpcmEncoder lenc(*obu, count); EncoderBase& enc = lenc;
  auto init = enc.Initialize(R->P(50));
  auto dec = LpcmDecoder::Create(c, count, spf);
  Ev("begin").f("ok", init.ok() && dec.ok()).f("flags", (int)c.sample_format_flags_bitmask_).f("size", (int)c.sample_size_).f("rate", (int)c.sample_rate_)
      .f("nch", nch).f("spf", spf).f("delay", (int)enc.GetNumberOfSamplesToDelayAtStart());
  if (!init.ok() || !dec.ok()) return;
  std::list<AudioFrameWithData> got;
  const int steps = R->In(2, 14);
  bool fin = false;
  auto decode = [&](const std::vector<uint8_t>& b) {
    auto st = (*dec)->DecodeAudioFrame(b);
    std::vector<std::vector<std::vector<int>>> out;
    if (st.ok()) for (auto& ch : (*dec)->ValidDecodedSamples()) {
      out.emplace_back();
      for (double v : ch) { double x = v * 2147483648.0; out.back().push_back(std::isfinite(x) && x == std::floor(x) && std::fabs(x) <= 2147483648.0 && x < 2147483648.0 ? S4((int32_t)x) : std::vector<int>{-1}); }
    }
    Ev("decode").f("bytes", b).f("ok", st.ok()).f("out", out);
  };
  for (int i = 1; i <= steps; ++i) {
    const int k = R->In(0, 99);
    if (k < 50) {
      int n = R->P(94) ? nch : (int)R->In(0, 3), t = R->P(94) ? spf : (int)R->In(0, spf + 2);
      Frame f = MkFrame(n, t);
      if (R->P(5) && n > 0) f[n - 1] = MkFrame(1, R->In(0, spf + 2))[0];
      auto a = std::make_unique<AudioFrameWithData>(AudioFrameWithData{
          .obu = AudioFrameObu(ObuHeader{.num_samples_to_trim_at_end = (uint32_t)i}, i, {1, 2, 3}), .start_timestamp = i * 7, .end_timestamp = i * 7 + spf});
      auto st = enc.EncodeAudioFrame(f, std::move(a));
      Ev("encode").f("id", i).f("frame", FJ(f)).f("ok", st.ok()).f("available", enc.FramesAvailable()).f("finished", enc.Finished());
    } else if (k < 75) {
      const size_t before = got.size();
      auto st = enc.Pop(got);
      std::vector<int> ids; std::vector<std::vector<int>> by; bool kept = true; size_t j = 0;
      std::vector<std::vector<uint8_t>> again;
      for (auto& g : got) {
        if (j++ < before) continue;
        int id = (int)g.obu.GetSubstreamId();
        ids.push_back(id); by.emplace_back(g.obu.audio_frame_.begin(), g.obu.audio_frame_.end());
        kept = kept && g.start_timestamp == id * 7 && g.end_timestamp == id * 7 + spf && (int)g.obu.header_.num_samples_to_trim_at_end == id;
        again.push_back(g.obu.audio_frame_);
      }
      Ev("pop").f("ok", st.ok()).f("got", ids).f("bytes", by).f("kept", kept).f("available", enc.FramesAvailable()).f("finished", enc.Finished());
      for (auto& b : again) decode(b);
    } else if (k < 85 && !fin) {
      fin = true; auto st = enc.Finalize();
      Ev("finalize").f("ok", st.ok()).f("available", enc.FramesAvailable()).f("finished", enc.Finished());
    } else {
      const int ps = c.sample_size_ / 8 * nch;
      std::vector<uint8_t> b(R->P(60) ? ps * R->In(0, spf + 1) : R->In(0, ps * (spf + 1)));
      for (auto& x : b) x = R->P(25) ? (R->P(50) ? 0xff : 0x80) : R->Next();
      decode(b);
    }
  }
}
int main(int argc, char** argv) {
  Init(argc, argv); Rng r(ArgI("seed", 1)); R = &r;
  const int n = ArgI("n", 100);
  for (int i = 0; i < n; ++i) { Config(); Life(); }
  return 0;
}
