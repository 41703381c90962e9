// Random audio elements and mixes, with their description for the specification.
#ifndef VERIF_ELEMS_H_
#define VERIF_ELEMS_H_
#include <algorithm>
#include "iamf/cli/descriptor_obus.h"
#include "iamf/cli/obu_with_data_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/mix_presentation.h"
#include "stream.h"
#include "vtrace.h"
namespace el {
using namespace iamf_tools;
using st::Bytes;
inline vt::Rng* R;
// surround, lfe and height channels of the layouts; pairs and single channels of the extended ones
inline const int N[10][3] = {{1, 0, 0}, {2, 0, 0}, {5, 1, 0}, {5, 1, 2}, {5, 1, 4}, {7, 1, 0}, {7, 1, 2}, {7, 1, 4}, {3, 1, 2}, {2, 0, 0}};
inline const int X[20][2] = {{0, 1}, {1, 0}, {1, 0}, {1, 0}, {1, 0}, {1, 0}, {2, 0}, {1, 1}, {7, 2}, {1, 0}, {1, 0}, {1, 0}, {3, 0}, {8, 8}, {0, 2}, {1, 1}, {7, 3}, {2, 0}, {0, 1}, {2, 1}};
inline void Counts(const int* p, const int* c, int& pairs, int& subs) {
  const int ch = (c[0] + c[1] + c[2]) - (p ? p[0] + p[1] + p[2] : 0);
  const int singles = !p ? (c[0] % 2) + c[1] : (p[0] < 3 && c[0] >= 3) + (c[1] > p[1]) + (p[0] < 2 && c[0] >= 2);
  pairs = (ch - singles) / 2; subs = pairs + singles;
}
inline st::Layer One(int layout, int expanded = -1) {
  st::Layer y{layout, 1, 0}; y.expanded = expanded;
  if (layout == 15 && expanded >= 0 && expanded < 20) { y.coupled = X[expanded][0]; y.subs = y.coupled + X[expanded][1]; }
  if (layout <= 9) Counts(nullptr, N[layout], y.coupled, y.subs);
  return y;
}
inline uint32_t next_sub = 0;
inline void Number(st::Element& e, int n) { e.subs.clear(); for (int i = 0; i < n; ++i) e.subs.push_back(next_sub++); }
// the layers of a channel-based element, in the words of Layers.tla
inline vt::Raw Told(const st::Layer& y) {
  return vt::Obj().f("layout", y.layout).f("x", y.layout == 15 ? y.expanded : -1).f("subs", y.subs).f("pairs", y.coupled).f("g", y.gain_present).f("flags", y.gain_flags).f("value", (int)(int16_t)y.gain).end();
}
inline vt::Obj Channels(st::Element& e, std::vector<st::Layer> layers) {
  e.type = 0; e.layers = layers; int n = 0; std::vector<vt::Raw> js;
  for (auto& y : layers) { n += y.subs; js.push_back(Told(y)); }
  Number(e, n);
  return vt::Obj().f("t", "channels").f("layers", js);
}
inline vt::Obj Mono(st::Element& e, int order, int used) {
  e.type = 1; const int ch = (order + 1) * (order + 1); used = std::min(used, ch); std::vector<int> map; st::W w; w.leb(0).u8(ch).u8(used);
  for (int i = 0; i < ch; ++i) { map.push_back(i < used ? i : 255); w.u8(map.back()); }
  e.config = w.b; Number(e, used);
  return vt::Obj().f("t", "mono").f("count", used).f("map", map);
}
inline vt::Obj Projection(st::Element& e, int order, int count, int pairs) {
  e.type = 1; const int ch = (order + 1) * (order + 1); st::W w; w.leb(1).u8(ch).u8(count).u8(pairs);
  for (int i = 0; i < ch * (count + pairs); ++i) w.u16(i % (ch + 1) ? 0 : 0x7fff);
  e.config = w.b; Number(e, count);
  return vt::Obj().f("t", "projection").f("channels", ch).f("count", count).f("pairs", pairs);
}
inline vt::Obj Objects(st::Element& e, int n) {
  e.type = 2; e.config = st::W().u8(1).u8(n).b; Number(e, 1);
  return vt::Obj().f("t", "objects").f("count", n);
}
inline vt::Obj Unknown(st::Element& e) {
  e.type = R->In(3, 7); e.config = st::W().leb(2).u8(1).u8(2).b; Number(e, 1);
  return vt::Obj().f("t", "unknown");
}
// an element of a few channels, of any kind that can be decoded
inline vt::Obj Decodable(st::Element& e) {
  switch (R->In(0, 6)) {
    case 0: return Mono(e, R->In(0, 2), R->In(1, 9));
    case 1: { st::Layer a = One(1), b{2, 0, 0}; Counts(N[1], N[2], b.coupled, b.subs); return Channels(e, {a, b}); }
    case 2: { st::Layer a = One(0), b{1, 0, 0}; Counts(N[0], N[1], b.coupled, b.subs); return Channels(e, {a, b}); }
    case 3: return Channels(e, {One(9)});
    case 4: case 5: return Channels(e, {One(1)});
    default: return Channels(e, {One(R->In(0, 9))});
  }
}
struct Codec { int frame, rate; const char* name; Bytes payload; };
inline std::vector<Codec> Codecs() {
  return {{960, 48000, "lpcm", st::LpcmConfig(0, 960, 48000, 16, true)}, {960, 48000, "lpcm", st::LpcmConfig(1, 960, 48000, 24, true)},
          {480, 48000, "lpcm", st::LpcmConfig(2, 480, 48000, 16, true)}, {960, 44100, "lpcm", st::LpcmConfig(3, 960, 44100, 16, false)},
          {960, 48000, "opus", st::OpusConfig(4, 960, 48000)}, {960, 48000, "flac", st::FlacConfig(5, 960, 48000, 16)},
          {480, 48000, "opus", st::OpusConfig(6, 480, 48000)}};
}
template <class T> auto Parse(const Bytes& b) {
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(b);
  return T::CreateFromBuffer(ObuHeader(), b.size(), *rb);
}
}  // namespace el
#endif
