// M01: the contract of sample processors; trimming, ordering and interleaving.
#include <unistd.h>
#include <cmath>
#include <deque>
#include <filesystem>
#include <fstream>
#include "absl/types/span.h"
#include "iamf/cli/ambisonics_mixer.h"
#include "iamf/cli/labeled_frame.h"
#include "iamf/cli/sample_processing_utils.h"
#include "iamf/cli/sample_processor_base.h"
#include "iamf/cli/wav_writer.h"
#include "vtrace.h"
using namespace iamf_tools;
using namespace vt;
typedef std::vector<std::vector<double>> Frame;
static const double kScale = 32768.0;
static int Q(double v) { return std::isfinite(v) && std::fabs(v * kScale) < 1e9 && v * kScale == std::floor(v * kScale) ? (int)(v * kScale) : 1999999999; }
template <class F> static std::vector<std::vector<int>> QF(const F& f) {
  std::vector<std::vector<int>> r;
  for (auto& c : f) { r.emplace_back(); for (double v : c) r.back().push_back(Q(v)); }
  return r;
}
static std::vector<absl::Span<const double>> Spans(const Frame& f) {
  std::vector<absl::Span<const double>> r; for (auto& c : f) r.push_back(absl::MakeConstSpan(c)); return r;
}
static const char* Code(const absl::Status& s) {
  return s.ok() ? "OK" : absl::IsFailedPrecondition(s) ? "FAILED_PRECONDITION" : absl::IsInvalidArgument(s) ? "INVALID" : "OTHER";
}
struct Probe : SampleProcessorBase {  // an implementation of the interface: passes on, delays or holds back
  int delay, calls = 0; bool fail = false; std::vector<std::deque<double>> q;
  Probe(size_t max, size_t n, int d) : SampleProcessorBase(max, n, max), delay(d), q(n) {}
  absl::Status PushFrameDerived(absl::Span<const absl::Span<const double>> in) override {
    ++calls;
    if (fail) return absl::UnavailableError("x");
    for (size_t c = 0; c < num_channels_; ++c) {
      for (double v : in[c]) q[c].push_back(v);
      while (delay >= 0 && (int)q[c].size() > delay) { output_channel_time_samples_[c].push_back(q[c].front()); q[c].pop_front(); }
    }
    return absl::OkStatus();
  }
  absl::Status FlushDerived() override {
    ++calls;
    if (fail) return absl::UnavailableError("x");
    for (size_t c = 0; c < num_channels_; ++c) { output_channel_time_samples_[c].insert(output_channel_time_samples_[c].end(), q[c].begin(), q[c].end()); q[c].clear(); }
    return absl::OkStatus();
  }
};
static Rng* R;
static double Smp() { return (double)(R->P(20) ? (R->P(50) ? 32767 : -32768) : R->In(-32768, 32767)) / kScale; }
static Frame MkFrame(int n, int t) { Frame f(n); for (auto& c : f) for (int i = 0; i < t; ++i) c.push_back(Smp()); return f; }
static uint32_t U32(const std::string& b, size_t o) { return o + 4 <= b.size() ? (uint8_t)b[o] | (uint8_t)b[o + 1] << 8 | (uint8_t)b[o + 2] << 16 | (uint32_t)(uint8_t)b[o + 3] << 24 : 0; }

static void Life(int t) {
  const char* kinds[] = {"copy", "delay", "hold", "wav", "mixer"};
  std::string kind = kinds[R->In(0, 4)], what = kind;
  int nch = R->In(1, 4), max = R->In(0, 6), delay = R->In(1, 5), bits = 16, rate = 48000;
  bool header = R->P(50);
  std::unique_ptr<SampleProcessorBase> p; Probe* probe = nullptr; WavWriter* wav = nullptr;
  const std::string fn = "p" + std::to_string(t) + ".wav";
  if (kind == "mixer") {
    int o = R->In(0, 3); nch = (o + 1) * (o + 1); kind = "copy";
    auto codec = R->P(50) && o < 3 ? CodecConfig::kCodecIdOpus : CodecConfig::kCodecIdLpcm;
    p.reset(new AmbisonicsMixer(AmbisonicsMixer::MakeFromPreset(codec, (AmbisonicsMixer::Preset)o, max)));
  } else if (kind == "wav") {
    static const int bd[] = {16, 24, 32, 16, 24, 32, 8, 20}; bits = bd[R->In(0, 7)];
    static const int rt[] = {48000, 44100, 16000, 96000}; rate = rt[R->In(0, 3)];
    auto w = WavWriter::Create(fn, nch, rate, bits, max, header); wav = w.get(); p = std::move(w);
  } else {
    probe = new Probe(max, nch, kind == "copy" ? 0 : kind == "delay" ? delay : -1); p.reset(probe);
  }
  Ev("begin").f("kind", kind).f("what", what).f("nch", nch).f("max", max).f("delay", delay).f("bits", bits).f("ok", p != nullptr)
      .f("channels", p ? (int)p->GetNumChannels() : nch).f("exists", std::filesystem::exists(fn));
  if (!p) return;
  auto out = [&] { auto o = p->GetOutputSamplesAsSpan(); return QF(o); };
  auto file = [&] {
    std::ifstream f(fn, std::ios::binary); std::string b((std::istreambuf_iterator<char>(f)), {}); bool ex = f.good() || std::filesystem::exists(fn);
    uint32_t hd = 0, hc = 0, hr = 0, hb = 0;
    if (header && b.size() >= 44) {
      size_t o = 12;
      while (o + 8 <= b.size() && b.compare(o, 4, "data")) {
        if (!b.compare(o, 4, "fmt ")) { hc = U32(b, o + 10) & 0xffff; hr = U32(b, o + 12); hb = U32(b, o + 22) & 0xffff; }
        o += 8 + U32(b, o + 4);
      }
      hd = U32(b, o + 4); b = b.substr(std::min(b.size(), o + 8));
    }
    std::vector<int> bytes; for (unsigned char c : b) bytes.push_back(c);
    Ev("file").f("exists", ex).f("bytes", bytes).f("header", header).f("h_data", (int)hd).f("h_channels", (int)hc).f("h_rate", (int)hr).f("h_bits", (int)hb).f("rate", rate);
  };
  const int steps = R->In(1, 9);
  bool flushed = false, aborted = false;
  for (int i = 0; i < steps; ++i) {
    int calls = probe ? probe->calls : 0;
    if (R->P(80)) {
      int n = nch, tk = R->P(85) ? R->In(0, max) : R->In(0, max + 3);
      if (R->P(8)) n = R->In(0, nch + 2);
      Frame f = MkFrame(n, tk);
      if (R->P(8) && n > 0) { auto& c = f[R->In(0, n - 1)]; c.resize(R->In(0, max + 2), 0.5); }
      bool nan = wav && R->P(6) && n > 0 && !f[n - 1].empty();
      if (nan) f[n - 1].back() = R->P(50) ? NAN : INFINITY;
      if (probe) probe->fail = R->P(5);
      auto st = p->PushFrame(Spans(f));
      Ev("push").f("frame", QF(f)).f("nan", nan).f("fails", probe && probe->fail).f("status", Code(st)).f("reached", probe ? probe->calls - calls : -1).f("out", out());
      if (R->P(20)) (void)p->GetOutputSamplesAsSpan();
    } else if (wav && R->P(40) && !flushed && !aborted) {
      wav->Abort(); aborted = true;
      Ev("abort").f("exists", std::filesystem::exists(fn));
    } else {
      if (probe) probe->fail = R->P(5);
      auto st = p->Flush(); flushed = true;
      Ev("flush").f("fails", probe && probe->fail).f("status", Code(st)).f("reached", probe ? probe->calls - calls : -1).f("out", out());
      if (wav && R->P(50)) file();
    }
  }
  p.reset();
  if (wav) { file(); std::filesystem::remove(fn); }
}
static const std::vector<std::pair<std::string, ChannelLabel::Label>> kLabels = {
    {"Omitted", ChannelLabel::kOmitted}, {"M", ChannelLabel::kMono}, {"L2", ChannelLabel::kL2}, {"R2", ChannelLabel::kR2}, {"DR2", ChannelLabel::kDemixedR2},
    {"C", ChannelLabel::kCentre}, {"LFE", ChannelLabel::kLFE}, {"L3", ChannelLabel::kL3}, {"DL3", ChannelLabel::kDemixedL3}, {"R3", ChannelLabel::kR3},
    {"DR3", ChannelLabel::kDemixedR3}, {"L5", ChannelLabel::kL5}, {"DL5", ChannelLabel::kDemixedL5}, {"R5", ChannelLabel::kR5}, {"DR5", ChannelLabel::kDemixedR5},
    {"Ls5", ChannelLabel::kLs5}, {"DLs5", ChannelLabel::kDemixedLs5}, {"Rs5", ChannelLabel::kRs5}, {"DRs5", ChannelLabel::kDemixedRs5},
    {"Ltf2", ChannelLabel::kLtf2}, {"DLtf2", ChannelLabel::kDemixedLtf2}, {"Rtf2", ChannelLabel::kRtf2}, {"DRtf2", ChannelLabel::kDemixedRtf2},
    {"Ltf4", ChannelLabel::kLtf4}, {"Rtf4", ChannelLabel::kRtf4}, {"Ltb4", ChannelLabel::kLtb4}, {"DLtb4", ChannelLabel::kDemixedLtb4},
    {"Rtb4", ChannelLabel::kRtb4}, {"DRtb4", ChannelLabel::kDemixedRtb4}, {"L7", ChannelLabel::kL7}, {"DL7", ChannelLabel::kDemixedL7},
    {"R7", ChannelLabel::kR7}, {"DR7", ChannelLabel::kDemixedR7}, {"Lss7", ChannelLabel::kLss7}, {"Rss7", ChannelLabel::kRss7},
    {"Lrs7", ChannelLabel::kLrs7}, {"DLrs7", ChannelLabel::kDemixedLrs7}, {"Rrs7", ChannelLabel::kRrs7}, {"DRrs7", ChannelLabel::kDemixedRrs7},
    {"A0", ChannelLabel::kA0}, {"A3", ChannelLabel::kA3}};
static std::string Have(const LabelSamplesMap& m) {
  Obj o; for (auto& [n, l] : kLabels) if (m.count(l)) { std::vector<int> c; for (double v : m.at(l)) c.push_back(Q(v)); o.f(n.c_str(), c); }
  return o.end().s;
}
static void Pure() {
  {
    LabeledFrame f; f.samples_to_trim_at_start = R->In(0, 3); f.samples_to_trim_at_end = R->In(0, 3);
    if (R->P(6)) { f.samples_to_trim_at_start = 0xffffffffu - R->In(0, 6); f.samples_to_trim_at_end = R->In(0, 8); }
    if (R->P(4)) std::swap(f.samples_to_trim_at_start, f.samples_to_trim_at_end);
    const int n = R->P(10) ? R->In(0, 2) : R->In(3, 9);
    std::vector<ChannelLabel::Label> ord; std::vector<std::string> ordn;
    const int k = R->P(6) ? 0 : R->In(1, 6);
    for (int i = 0; i < k; ++i) {
      int x = R->P(15) ? 0 : R->In(1, kLabels.size() - 1);
      ord.push_back(kLabels[x].second); ordn.push_back(kLabels[x].first);
      if (x == 0 || R->P(2)) continue;
      auto d = ChannelLabel::GetDemixedLabel(kLabels[x].second);
      auto use = d.ok() && R->P(50) ? *d : kLabels[x].second;
      if (f.label_to_samples.count(use)) continue;
      auto& c = f.label_to_samples[use];
      for (int j = 0; j < (R->P(97) ? n : (int)R->In(0, 9)); ++j) c.push_back(Smp());
      if (d.ok() && R->P(10)) for (int j = 0; j < n; ++j) f.label_to_samples[use == *d ? kLabels[x].second : *d].push_back(Smp());
    }
    for (auto& [l, c] : f.label_to_samples) if (c.size() > 9) c.resize(n);
    if (R->P(20)) f.label_to_samples[kLabels[R->In(1, kLabels.size() - 1)].second].resize(n, 0.25);
    std::vector<double> sil(R->P(90) ? n + R->In(0, 2) : R->In(0, 9), 0.0);
    if (R->P(30)) for (auto& v : sil) v = Smp();
    TrimmingSettings ts{R->P(75), R->P(75)};
    std::vector<absl::Span<const double>> out(ord.size()); size_t nv = 0;
    auto st = ArrangeSamples(f, ord, sil, ts, out, nv);
    std::vector<int> silq; for (double v : sil) silq.push_back(Q(v));
    Ev("arrange").raw("have", Have(f.label_to_samples)).f("ordered", ordn).f("silence", silq).f("trim_start", ts.trim_beginning).f("trim_end", ts.trim_end)
        .raw("start", Limbs(f.samples_to_trim_at_start, 2)).raw("end", Limbs(f.samples_to_trim_at_end, 2))
        .f("ok", st.ok()).f("n", (int)nv).f("out", st.ok() ? QF(out) : std::vector<std::vector<int>>());
    auto cn = CheckPresenceAndGetCommonNumTicks(f.label_to_samples, ord);
    Ev("present").raw("have", Have(f.label_to_samples)).f("labels", ordn).f("ok", cn.ok()).f("n", cn.ok() ? (int)*cn : 0);
  }
  {
    Frame f = MkFrame(R->In(0, 4), R->In(0, 4));
    if (R->P(15) && !f.empty()) f[R->In(0, f.size() - 1)].resize(R->In(0, 5));
    auto g = GetCommonNumTicks<std::vector<double>>(f);
    Ev("common").f("frame", QF(f)).f("ok", g.ok()).f("n", g.ok() ? (int)*g : 0);
  }
  auto dbl = [](int in, int& out) -> absl::Status { if (in == 666) return absl::InvalidArgumentError("x"); out = 2 * in; return absl::OkStatus(); };
  {
    const int n = R->In(1, 4); std::vector<int> in(R->P(85) ? n * R->In(0, 4) : R->In(0, 12)); for (auto& v : in) v = R->P(3) ? 666 : R->In(-100, 100);
    std::vector<std::vector<int>> out(R->In(0, 5), std::vector<int>(R->In(0, 5), 9));
    auto st = ConvertInterleavedToChannelTime<int, int>(absl::MakeConstSpan(in), n, out, dbl);
    Ev("to_channels").f("in", in).f("nch", n).f("ok", st.ok()).f("out", out);
  }
  {
    const int n = R->In(0, 4), t = R->In(0, 4); std::vector<std::vector<int>> in(n, std::vector<int>(t)); for (auto& c : in) for (auto& v : c) v = R->P(3) ? 666 : R->In(-100, 100);
    if (R->P(15) && n) in[R->In(0, n - 1)].resize(R->In(0, 5), 1);
    std::vector<absl::Span<const int>> sp; for (auto& c : in) sp.push_back(absl::MakeConstSpan(c));
    std::vector<int> out(R->In(0, 6), 9);
    auto st = ConvertChannelTimeToInterleaved<int, int>(absl::MakeConstSpan(sp), out, dbl);
    Ev("to_interleaved").f("frame", in).f("ok", st.ok()).f("out", out);
  }
}
int main(int argc, char** argv) {
  Init(argc, argv);
  Rng r(ArgI("seed", 1));
  R = &r;
  const int n = ArgI("n", 100);
  for (int t = 0; t < n; ++t) { Life(t); Pure(); Pure(); }
}
