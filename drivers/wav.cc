// W01: reads random wave files through the sample provider of the encoder.
#include <filesystem>
#include <fstream>
#include "absl/strings/str_cat.h"
#include "elems.h"
#include "google/protobuf/repeated_ptr_field.h"
#include "iamf/cli/audio_element_with_data.h"
#include "iamf/cli/proto/audio_frame.pb.h"
#include "iamf/cli/wav_sample_provider.h"
#include "iamf/obu/types.h"
using namespace iamf_tools;
using vt::Ev; using vt::Obj; using st::Bytes;
namespace ip = iamf_tools_cli_proto;
static vt::Rng* R;
static std::string Plain(std::string s) {
  std::string r; size_t i = s.rfind("CHANNEL_LABEL_", 0) == 0 ? 14 : (s.size() > 1 && s[0] == 'k') ? 1 : 0;
  for (; i < s.size(); ++i) if (s[i] != '_') r += std::toupper((unsigned char)s[i]);
  return r;
}
static std::string NameOf(ChannelLabel::Label l) {
#define L(x) {ChannelLabel::x, Plain(#x)}
  static const std::map<ChannelLabel::Label, std::string> all = {
      L(kMono), L(kL2), L(kR2), L(kObjectChannel0), L(kObjectChannel1), L(kCentre), L(kLFE), L(kL3),
      L(kR3), L(kLtf3), L(kRtf3), L(kL5), L(kR5), L(kLs5), L(kRs5), L(kLtf2),
      L(kRtf2), L(kLtf4), L(kRtf4), L(kLtb4), L(kRtb4), L(kL7), L(kR7), L(kLss7),
      L(kRss7), L(kLrs7), L(kRrs7), L(kFLc), L(kFC), L(kFRc), L(kFL), L(kFR),
      L(kSiL), L(kSiR), L(kBL), L(kBR), L(kTpFL), L(kTpFR), L(kTpSiL), L(kTpSiR),
      L(kTpBL), L(kTpBR), L(kBC), L(kLFE2), L(kTpFC), L(kTpC), L(kTpBC), L(kBtFC),
      L(kBtFL), L(kBtFR), L(kBtBL), L(kBtBR), L(kA0), L(kA1), L(kA2), L(kA3),
      L(kA4), L(kA5), L(kA6), L(kA7), L(kA8), L(kA9), L(kA10), L(kA11),
      L(kA12), L(kA13), L(kA14), L(kA15), L(kA16), L(kA17), L(kA18), L(kA19),
      L(kA20), L(kA21), L(kA22), L(kA23), L(kA24),
  };
  auto i = all.find(l); return i == all.end() ? "other" : i->second;
}
struct File { std::string name; bool good; int ch, rate, depth; bool flt; int ticks, told; Bytes data; };
static void Put(Bytes& b, uint64_t v, int n) { for (int i = 0; i < n; ++i) b.push_back(v >> (8 * i)); }
static File Make(const std::string& dir, int k) {
  File f; f.name = absl::StrCat("f", k, ".wav"); f.good = R->P(96); f.ch = R->P(90) ? R->In(1, 4) : R->P(80) ? R->In(5, 12) : R->In(13, 40);
  f.rate = R->P(85) ? 48000 : R->Pick<int>({44100, 16000, 96000, 1});
  f.depth = R->Pick<int>({16, 16, 24, 32, 32, 64}); if (f.depth == 64 && R->P(70)) f.depth = 16; f.flt = f.depth == 64 || (f.depth == 32 && R->P(60));
  f.told = f.ticks = R->P(85) ? R->In(0, 14) : R->In(15, 40);
  const int bytes = f.depth / 8; Bytes d;
  for (int i = 0; i < f.ticks * f.ch; ++i) {
    uint64_t v = R->Next();
    if (f.depth == 32 && f.flt) {
      uint32_t e = R->P(70) ? R->In(90, 129) : R->P(50) ? R->In(0, 255) : R->Pick<int>({0, 126, 127, 254, 255}), m = R->P(75) ? R->In(0, 0x7fffff) : R->Pick<int>({0, 1, 0x7fffff, 0x400000});
      v = (uint32_t)R->In(0, 1) << 31 | e << 23 | m;
    } else if (R->P(30)) v = R->Pick<uint64_t>({0, ~0ull, 0x8000000000000000ull >> (64 - f.depth) , 0x7fffffffffffffffull >> (64 - f.depth), 1});
    Put(d, v, bytes);
  }
  if (f.ticks > 0 && R->P(12)) { f.ticks -= R->In(1, f.ticks); d.resize(f.ticks * f.ch * bytes + (R->P(50) ? R->In(0, f.ch * bytes - 1) : 0)); }
  f.data = d; Bytes b;
  const uint32_t size = f.told * f.ch * bytes;
  for (char c : std::string("RIFF")) b.push_back(c); Put(b, 36 + size, 4); for (char c : std::string("WAVEfmt ")) b.push_back(c);
  Put(b, 16, 4); Put(b, f.flt ? 3 : 1, 2); Put(b, f.ch, 2); Put(b, f.rate, 4); Put(b, f.rate * f.ch * bytes, 4); Put(b, f.ch * bytes, 2); Put(b, f.depth, 2);
  if (R->P(20)) { for (char c : std::string("LIST")) b.push_back(c); Put(b, 3, 4); Put(b, 0, 4); }
  for (char c : std::string("data")) b.push_back(c); Put(b, size, 4); b.insert(b.end(), d.begin(), d.end());
  if (!f.good) { if (R->P(40)) return f; if (R->P(50)) b[R->In(0, 3)] ^= 1; else b.resize(R->In(0, 39)); }
  std::ofstream(dir + "/" + f.name, std::ios::binary).write((const char*)b.data(), b.size());
  return f;
}
int main(int argc, char** argv) {
  vt::Init(argc, argv); vt::Rng r(vt::ArgI("seed", 1)); R = &r; el::R = &r;
  char t[] = "/tmp/verif-wavXXXXXX"; const std::string dir = mkdtemp(t);
  const auto* en = ip::ChannelLabel_descriptor();
  const long n = vt::ArgI("n", 100);
  Ev("begin").f("n", 0);
  for (long q = 0; q < n; ++q) {
    std::vector<File> files; for (int k = R->In(1, 3); k > 0; --k) files.push_back(Make(dir, k));
    DescriptorObus::CodecConfigsById codecs; DescriptorObus::AudioElementsById elems; std::vector<vt::Raw> told;
    const int ne = R->In(1, 3);
    for (int k = 0; k < ne; ++k) {
      const int kind = R->In(0, 9), frame = R->In(1, 6); int rate = R->P(80) ? 48000 : 44100, out = rate, depth = R->P(50) ? 32 : R->Pick<int>({16, 24}); const uint32_t id = R->P(80) ? k : R->In(3, 0x7ffffff0);
      Bytes b; int spf = frame;
      if (kind == 0) { spf = 120; out = 48000; depth = 32; b = st::OpusConfig(k, 120, rate); }
      else if (kind == 1) { spf = 16; depth = R->Pick<int>({16, 24}); b = st::FlacConfig(k, 16, rate, depth); }
      else b = st::LpcmConfig(k, frame, rate, depth, R->P(50));
      auto o = el::Parse<CodecConfigObu>(b); if (!o.ok()) { std::fprintf(stderr, "codec %d: %s\n", kind, o.status().ToString().c_str()); return 97; }
      codecs.emplace(k, std::move(*o));
      std::vector<DecodedUleb128> subs{(DecodedUleb128)k};
      ScalableChannelLayoutConfig c; c.channel_audio_layer_configs.push_back({.loudspeaker_layout = ChannelAudioLayerConfig::kLayoutMono, .substream_count = 1});
      auto a = AudioElementObu::CreateForScalableChannelLayout(ObuHeader(), id, 0, k, subs, c); if (!a.ok()) return 96;
      const bool has = R->P(97);
      if (!elems.emplace(id, AudioElementWithData{.obu = std::move(*a), .codec_config = has ? &codecs.at(k) : nullptr}).second) continue;
      told.push_back(Obj().f("id", id).f("codec", has).f("frame", spf).f("rate", rate).f("out", out).f("depth", depth).end());
    }
    ::google::protobuf::RepeatedPtrField<ip::AudioFrameObuMetadata> v; std::vector<vt::Raw> md; std::vector<uint32_t> ids;
    for (auto& [id, e] : elems) ids.push_back(id);
    std::vector<uint32_t> use = ids; if (R->P(5)) use.push_back(R->Pick(ids)); if (R->P(4)) use.push_back(77); if (R->P(30)) use.pop_back();
    for (uint32_t id : use) {
      auto& m = *v.Add(); const int fi = R->In(0, files.size() - 1); m.set_audio_element_id(id); m.set_wav_filename(files[fi].name);
      std::vector<vt::Raw> chs; std::vector<int> seen;
      for (int k = R->In(0, std::min(5, files[fi].ch)); k > 0; --k) {
        int l; do l = R->In(1, en->value_count() - 1); while (std::count(seen.begin(), seen.end(), l) && !R->P(2)); if (R->P(1)) l = 0; seen.push_back(l);
        auto& c = *m.add_channel_metadatas(); c.set_channel_label((ip::ChannelLabel)en->value(l)->number()); c.set_channel_id(R->P(97) ? R->In(0, files[fi].ch - 1) : R->Pick<uint32_t>({(uint32_t)files[fi].ch, 0x7fffffffu, 4000000000u}));
        chs.push_back(Obj().f("label", l == 0 ? std::string("none") : Plain(std::string(en->value(l)->name()))).f("at", (int)std::min<uint32_t>(c.channel_id(), 0x7fffffff)).end());
      }
      md.push_back(Obj().f("id", id).f("file", fi + 1).f("chs", chs).end());
    }
    std::vector<vt::Raw> fs; for (auto& f : files) fs.push_back(Obj().f("good", f.good).f("ch", f.ch).f("rate", f.rate).f("depth", f.depth).f("float", f.flt).f("ticks", f.ticks).f("told", f.told).f("bytes", f.data).end());
    auto p = WavSampleProvider::Create(v, dir, elems);
    Ev("create").f("files", fs).f("elements", told).f("md", md).f("ok", p.ok());
    if (p.ok()) {
      LabelSamplesMap out; bool done = true;
      std::vector<uint32_t> over;
      for (int k = R->In(1, 24); k > 0; --k) {
        const uint32_t id = R->P(97) && !use.empty() ? R->Pick(use) : R->P(50) ? 78 : R->Pick(ids);
        if (R->P(20)) { out.clear(); out[ChannelLabel::kA24] = {0.5, 0.25}; } done = R->P(50);
        const bool ok = p->ReadFrames(id, out, done).ok();
        std::vector<vt::Raw> got; bool exact = true;
        if (ok) { std::map<std::string, std::vector<int>> by;
          for (auto& [l, s] : out) { auto& w = by[NameOf(l)]; for (double x : s) { const double y = x * 2147483648.0; const bool fine = y >= -2147483648.0 && y <= 2147483647.0 && y == std::floor(y); exact &= fine; w.push_back(fine ? (int)y : 0); } }
          for (auto& [l, w] : by) got.push_back(Obj().f("label", l).f("s", w).end()); }
        Ev("read").f("id", id).f("ok", ok).f("done", ok && done).f("exact", exact).f("got", got);
      }
    }
    p = absl::UnknownError("");
    for (auto& e : std::filesystem::directory_iterator(dir)) std::filesystem::remove(e.path());
  }
  std::filesystem::remove_all(dir);
}
