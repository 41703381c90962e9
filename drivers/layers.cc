// S01: which channels the substreams of an audio element carry.
#include <memory>
#include <variant>
#include "iamf/cli/channel_label.h"
#include "iamf/cli/descriptor_obus.h"
#include "iamf/cli/obu_with_data_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/codec_config.h"
#include "stream.h"
#include "vtrace.h"
using namespace iamf_tools;
using namespace vt;
using st::Bytes;
static Rng* R;

// surround, lfe and height channels of the layouts, to make most elements legal
static const int N[10][3] = {{1, 0, 0}, {2, 0, 0}, {5, 1, 0}, {5, 1, 2}, {5, 1, 4}, {7, 1, 0}, {7, 1, 2}, {7, 1, 4}, {3, 1, 2}, {2, 0, 0}};
static const int X[20][2] = {{0, 1}, {1, 0}, {1, 0}, {1, 0}, {1, 0}, {1, 0}, {2, 0}, {1, 1}, {7, 2}, {1, 0}, {1, 0}, {1, 0}, {3, 0}, {8, 8}, {0, 2}, {1, 1}, {7, 3}, {2, 0}, {0, 1}, {2, 1}};
static void Counts(const int* p, const int* c, int& pairs, int& subs) {
  const int ch = (c[0] + c[1] + c[2]) - (p ? p[0] + p[1] + p[2] : 0);
  int singles = 0;
  if (!p) singles = (c[0] % 2) + c[1];
  else singles = (p[0] < 3 && c[0] >= 3) + (c[1] > p[1]) + (p[0] < 2 && c[0] >= 2);
  pairs = (ch - singles) / 2; subs = pairs + singles;
}
static std::vector<uint32_t> Ids(int n) {
  std::vector<uint32_t> v; const uint32_t base = R->P(80) ? R->In(0, 40) : 3999999990u;
  for (int i = 0; i < n; ++i) v.push_back(base + i * 3);
  for (int i = n - 1; i > 0; --i) std::swap(v[i], v[R->In(0, i)]);
  if (n > 1 && R->P(4)) v[R->In(0, n - 1)] = v[R->In(0, n - 1)];
  return v;
}
static int J(uint32_t id) { return id > 2000000000u ? 1000000000 + (int)(id - 3999999000u) : (int)id; }

static void Run(const DescriptorObus::CodecConfigsById& codecs) {
  st::Element e; e.id = R->In(0, 300); e.codec = R->P(97) ? 7 : 8; e.type = R->P(70) ? 0 : R->P(96) ? 1 : R->In(3, 7);
  Ev ev("element"); ev.f("codec", e.codec == 7);
  std::vector<Raw> js;
  if (e.type == 0) {
    int total = 0; const int* prev = nullptr;
    const bool tall = R->P(50);
    int n = R->P(3) ? 0 : R->P(tall ? 10 : 35) ? 1 : R->In(2, R->P(10) ? 7 : 4);
    if (n == 1 && R->P(50)) {
      st::Layer y{15, 0, 0}; y.expanded = R->P(93) ? R->In(0, 19) : R->In(20, 255);
      if (y.expanded < 20) { y.coupled = X[y.expanded][0]; y.subs = y.coupled + X[y.expanded][1]; }
      e.layers.push_back(y); total = y.subs;
    } else {
      for (int i = 0; i < n; ++i) {
        st::Layer y{0, 0, 0};
        std::vector<int> fits;
        for (int l = 0; l < (n == 1 ? 10 : 9); ++l)
          if (!prev || (N[l][0] >= prev[0] && N[l][1] >= prev[1] && N[l][2] >= prev[2] && (N[l] != prev || R->P(5)))) fits.push_back(l);
        y.layout = fits.empty() || R->P(3) ? R->In(0, 14) : tall && i == 0 ? R->P(50) ? 0 : R->P(50) ? 1 : R->Pick(fits) : R->Pick(fits);
        if (n > 1 && R->P(2)) { y.layout = 15; y.expanded = R->In(0, 19); y.coupled = X[y.expanded][0]; y.subs = y.coupled + X[y.expanded][1]; }
        else if (y.layout <= 9) { Counts(prev, N[y.layout], y.coupled, y.subs); if (y.coupled < 0) y.coupled = 0; if (y.subs < 0) y.subs = 0; prev = N[y.layout]; }
        e.layers.push_back(y); total += y.subs;
      }
    }
    for (auto& y : e.layers) {
      if (R->P(2)) { y.subs = std::max(0, y.subs + (R->P(50) ? 1 : -1)); if (R->P(50)) y.coupled += y.coupled ? -1 : 1; }
      if (R->P(2)) { y.coupled = std::max(0, y.coupled + (R->P(50) ? 1 : -1)); }
      y.gain_present = R->P(60); y.recon = R->P(30);
      if (y.gain_present) { y.gain_flags = R->P(40) ? 63 : R->In(0, 63); y.gain = R->P(70) ? R->In(0, 65535) : R->Pick(std::vector<int>{0, 1, 0x7fff, 0x8000, 0xffff, 0x0100}); }
      js.push_back(Obj().f("layout", y.layout).f("x", y.layout == 15 ? y.expanded : -1).f("subs", y.subs).f("pairs", y.coupled).f("g", y.gain_present).f("flags", y.gain_flags).f("value", (int)(int16_t)y.gain).end());
    }
    if (e.layers.size() == 2 && R->P(2)) { total = 0; for (auto& y : e.layers) total += y.subs; }
    int declared = 0; for (auto& y : e.layers) declared += y.subs;
    e.subs = Ids(R->P(96) ? declared : std::max(0, total + (R->P(50) ? 1 : -1)));
    ev.f("t", "channels").f("layers", js);
  } else if (e.type == 1) {
    st::W w; const int order = R->P(80) ? R->In(0, 4) : R->In(5, 14); int ch = (order + 1) * (order + 1); if (R->P(4)) ch = R->In(0, 255);
    if (R->P(50)) {
      std::vector<int> map; int count = R->P(50) ? ch : R->In(std::max(1, ch / 2), std::max(1, ch));
      if (R->P(40)) count = std::min(count, (int)R->In(1, 25));
      for (int i = 0; i < ch; ++i) map.push_back(i < count ? i : R->P(90) ? 255 : R->In(0, count));
      if (R->P(50)) for (int i = ch - 1; i > 0; --i) std::swap(map[i], map[R->In(0, i)]);
      if (ch > 1 && R->P(6)) map[R->In(0, ch - 1)] = R->P(50) ? 255 : R->In(0, 254);
      const int declared = R->P(95) ? count : R->In(0, 255);
      w.leb(0).u8(ch).u8(declared); for (int m : map) w.u8(m);
      e.subs = Ids(R->P(96) ? declared : std::max(0, declared + (R->P(50) ? 1 : -1)));
      ev.f("t", "mono").f("count", declared).f("map", map);
    } else {
      int count = R->In(1, std::min(ch ? ch : 1, 25)), pairs = R->In(0, std::min(count, std::max(0, ch - count)));
      if (R->P(4)) pairs = R->In(0, 255);
      if (R->P(4)) count = R->In(0, 255);
      w.leb(1).u8(ch).u8(count).u8(pairs); for (int i = 0; i < ch * (count + pairs); ++i) w.u16(R->In(0, 65535));
      e.subs = Ids(R->P(96) ? count : std::max(0, count + (R->P(50) ? 1 : -1)));
      ev.f("t", "projection").f("channels", ch).f("count", count).f("pairs", pairs);
    }
    if (R->P(4)) { st::W v; v.leb(R->P(60) ? 2 : R->In(3, 300)).raw(Bytes(w.b.begin() + 1, w.b.end())); w = v; ev.s = ev.s.replace(ev.s.find("\"t\":\""), 5, "\"t\":\"un"); if (R->P(50)) e.subs = {9}; }
    e.config = w.b;
  } else {
    e.subs = Ids(R->In(1, 3)); st::W w; w.leb(2).u8(1).u8(2); e.config = w.b; ev.f("t", "unknown");
  }
  std::vector<int> ids; for (auto s : e.subs) ids.push_back(J(s));
  ev.f("ids", ids);
  const Bytes b = st::ElementPayload(e);
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(b);
  auto obu = AudioElementObu::CreateFromBuffer(ObuHeader(), b.size(), *rb);
  bool ok = obu.ok(); std::vector<std::vector<std::string>> subs; std::vector<Raw> gains; std::vector<std::vector<int>> nums;
  if (ok) {
    auto d = ObuWithDataGenerator::GenerateAudioElementWithData(codecs, *obu);
    ok = d.ok() && e.type <= 2;  // the channels of other types are nobody's business
    if (ok) {
      for (auto s : e.subs) {
        std::vector<std::string> l;
        auto it = d->substream_id_to_labels.find(s);
        if (it != d->substream_id_to_labels.end()) for (auto x : it->second) l.push_back(ChannelLabel::LabelToStringForDebugging(x));
        subs.push_back(l);
      }
      if (d->substream_id_to_labels.size() != e.subs.size() || d->codec_config != &codecs.at(7)) subs.push_back({"strange"});
      for (auto& [l, g] : d->label_to_output_gain) { const float f = g * 256; gains.push_back(Raw{"[" + Js(ChannelLabel::LabelToStringForDebugging(l)) + "," + Js((int)f == f ? (int)f : 99999) + "]"}); }
      for (auto& c : d->channel_numbers_for_layers) nums.push_back({c.surround, c.lfe, c.height, c.bottom});
    }
  }
  ev.f("ok", ok).f("subs", subs).f("gains", gains).f("nums", nums);
}
int main(int argc, char** argv) {
  Init(argc, argv); Rng rng(ArgI("seed", 1)); R = &rng;
  DescriptorObus::CodecConfigsById codecs;
  const Bytes b = st::LpcmConfig(7, 64, 48000, 16, true);
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(b);
  codecs.emplace(7, CodecConfigObu::CreateFromBuffer(ObuHeader(), b.size(), *rb).value());
  for (long n = ArgI("n", 10), i = 0; i < n; ++i) Run(codecs);
  return 0;
}
