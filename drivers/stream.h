// A writer of IAMF bitstreams of its own: bytes are put together from the
// published syntax, without the code under test.
#ifndef VERIF_STREAM_H_
#define VERIF_STREAM_H_
#include <cstdint>
#include <string>
#include <vector>

namespace st {
using Bytes = std::vector<uint8_t>;

struct W {
  Bytes b;
  W& u8(uint32_t v) { b.push_back(v & 255); return *this; }
  W& u16(uint32_t v) { return u8(v >> 8).u8(v); }
  W& u32(uint32_t v) { return u16(v >> 16).u16(v); }
  W& leb(uint64_t v) { do { b.push_back((v & 127) | (v > 127 ? 128 : 0)); v >>= 7; } while (v); return *this; }
  W& str(const std::string& s) { b.insert(b.end(), s.begin(), s.end()); return u8(0); }
  W& raw(const Bytes& r) { b.insert(b.end(), r.begin(), r.end()); return *this; }
};

struct Hdr {
  int type = 0;
  bool redundant = false, trimming = false, ext = false;
  uint32_t trim_end = 0, trim_start = 0;
  Bytes ext_bytes;
  int pad_size = 0;  // extra bytes of the size field
};
inline Bytes Obu(const Hdr& h, const Bytes& payload) {
  W in;
  if (h.trimming) in.leb(h.trim_end).leb(h.trim_start);
  if (h.ext) in.leb(h.ext_bytes.size()).raw(h.ext_bytes);
  in.raw(payload);
  W w;
  w.u8(h.type << 3 | (h.redundant ? 4 : 0) | (h.trimming ? 2 : 0) | (h.ext ? 1 : 0));
  W sz; sz.leb(in.b.size());
  for (int i = 0; i < h.pad_size && sz.b.size() < 8; ++i) { sz.b.back() |= 128; sz.b.push_back(0); }
  w.raw(sz.b).raw(in.b);
  return w.b;
}

inline Bytes SequenceHeader(int primary = 1, int additional = 1) { W w; w.u32(0x69616d66).u8(primary).u8(additional); return w.b; }
inline Bytes LpcmConfig(uint32_t id, uint32_t frame, uint32_t rate, int bits, bool little) {
  W w; w.leb(id).u32(0x6970636d).leb(frame).u16(0).u8(little ? 1 : 0).u8(bits).u32(rate); return w.b;
}
inline Bytes OpusConfig(uint32_t id, uint32_t frame, uint32_t rate) {
  W w; w.leb(id).u32(0x4f707573).leb(frame).u16(-(int)((3840 + frame - 1) / frame)).u8(1).u8(2).u16(312).u32(rate).u16(0).u8(0); return w.b;
}
inline Bytes FlacConfig(uint32_t id, uint32_t frame, uint32_t rate, int bits) {
  W w; w.leb(id).u32(0x664c6143).leb(frame).u16(0).u8(0x80).u8(0).u16(34).u16(frame).u16(frame);
  for (int i = 0; i < 6; ++i) w.u8(0);
  w.u8(rate >> 12).u8(rate >> 4).u8((rate & 15) << 4 | 1 << 1 | (bits - 1) >> 4).u8(((bits - 1) & 15) << 4).u32(0);
  for (int i = 0; i < 16; ++i) w.u8(0);
  return w.b;
}
// loudspeaker_layout values
enum { kMono = 0, kStereo = 1, k51 = 2, k512 = 3, k514 = 4, k71 = 5, k712 = 6, k714 = 7, k312 = 8, kBin = 9 };
struct Layer { int layout, subs, coupled, gain_present = 0, recon = 0, gain_flags = 0, gain = 0, expanded = -1; };
struct Element {
  uint32_t id = 0, codec = 0;
  int type = 0;
  std::vector<uint32_t> subs;
  std::vector<Layer> layers;
  Bytes params;  // already encoded, with their count
  Bytes config;  // of a scene-based element
};
inline Bytes ElementPayload(const Element& e) {
  W w; w.leb(e.id).u8(e.type << 5).leb(e.codec).leb(e.subs.size());
  for (auto s : e.subs) w.leb(s);
  if (e.params.empty()) w.leb(0); else w.raw(e.params);
  if (e.type == 0) {
    w.u8(e.layers.size() << 5);
    for (auto& l : e.layers) {
      w.u8(l.layout << 4 | l.gain_present << 3 | l.recon << 2).u8(l.subs).u8(l.coupled);
      if (l.gain_present) w.u8(l.gain_flags << 2).u16(l.gain);
      if (l.expanded >= 0) w.u8(l.expanded);
    }
  } else {
    w.raw(e.config);
  }
  return w.b;
}
struct Gain { uint32_t id, rate; bool mode1 = true; uint32_t duration = 0, constant = 0; int value = 0; };
inline void PutGain(W& w, const Gain& g) {
  w.leb(g.id).leb(g.rate).u8(g.mode1 ? 0x80 : 0);
  if (!g.mode1) w.leb(g.duration).leb(g.constant);
  w.u16(g.value);
}
struct MixElement { uint32_t id; int headphones = 0; Gain gain; };
struct OutLayout { int type = 2, system = 0; };  // type 2: loudspeakers, 3: binaural
struct SubMix { std::vector<MixElement> elements; Gain out; std::vector<OutLayout> layouts; };
struct Mix { uint32_t id = 0; std::vector<std::string> labels; std::vector<SubMix> subs; };
inline Bytes MixPayload(const Mix& m) {
  W w; w.leb(m.id).leb(m.labels.size());
  for (auto& l : m.labels) w.str(l);
  for (auto& l : m.labels) w.str("mix " + l);
  w.leb(m.subs.size());
  for (auto& s : m.subs) {
    w.leb(s.elements.size());
    for (auto& e : s.elements) {
      w.leb(e.id);
      for (auto& l : m.labels) w.str("el " + l);
      w.u8(e.headphones << 6).leb(0);
      PutGain(w, e.gain);
    }
    PutGain(w, s.out);
    w.leb(s.layouts.size());
    for (auto& l : s.layouts) w.u8(l.type == 2 ? 2 << 6 | l.system << 2 : l.type << 6).u8(0).u16(0).u16(0);
  }
  return w.b;
}
inline Bytes FramePayload(int sub, const Bytes& data) { W w; if (sub > 17) w.leb(sub); return w.raw(data).b; }
inline int FrameType(int sub) { return sub > 17 ? 5 : 6 + sub; }
}  // namespace st
#endif
