// D01, D02, D03: the streaming decoder on bitstreams built here, in every order of calls.
#include <algorithm>
#include <memory>
#include <set>
#include "iamf/include/iamf_tools/iamf_decoder_factory.h"
#include "iamf/include/iamf_tools/iamf_decoder_interface.h"
#include "stream.h"
#include "vtrace.h"
using namespace vt;
namespace api = iamf_tools::api;
using st::Bytes;
static Rng* R;
static std::string MODE;

struct Lay { const char* name; int layer, subs, coupled; std::vector<int> chans; int system, api; };
static const std::vector<Lay> kLays = {{"mono", st::kMono, 1, 0, {1}, 12, 12}, {"stereo", st::kStereo, 1, 1, {2}, 0, 0},
                                       {"5.1", st::k51, 4, 2, {2, 2, 1, 1}, 1, 1}, {"7.1", st::k71, 5, 3, {2, 2, 2, 1, 1}, 8, 8}};
struct El { int lay; std::vector<int> subs; int id; };
struct MixD { int id; std::vector<int> rel; int gel = 0; bool twin = false; };
struct Ob { std::string k; int sub = -1; Bytes bytes; std::vector<std::vector<int>> x; int te = 0, ts = 0, dur = 0; bool mute = false; size_t end = 0; bool unit_start = false; };
// OBU types which belong to temporal units, and so end the descriptors
static bool IsTu(const Ob& o) { const int t = o.bytes[0] >> 3; return t >= 3 && t <= 23; }
struct Sc {
  bool std_mode; std::vector<El> els; std::vector<MixD> mixes; int sel, fs, rate, bits; bool tb, te; std::string ord;
  Bytes descr; std::vector<Ob> obus; Bytes body; std::optional<int> req_mix; std::optional<int> req_lay; bool sixteen, little; int pid; bool pmode1;
};

static std::string Cfg(const Sc& s, bool with_obus = true) {
  Obj o; const auto& m = s.mixes[s.sel];
  o.f("std", s.std_mode).f("dlen", (int)s.descr.size()).f("fs", s.fs).f("rate", s.rate).f("bits", s.bits).f("tb", s.tb).f("te", s.te).f("ord", s.ord)
      .f("mix", m.id).f("lay", kLays[s.els[m.rel[0]].lay].api);
  std::vector<Raw> els; for (auto& e : s.els) els.push_back(Obj().f("lay", kLays[e.lay].name).f("subs", e.subs).end());
  std::vector<int> rel; for (int r : m.rel) rel.push_back(r + 1);
  o.f("els", els).f("rel", rel).f("gel", m.gel);
  std::vector<Raw> obs;
  for (auto& b : s.obus) {
    Obj q; q.f("k", b.k).f("tu", IsTu(b)).f("end", (int)b.end).f("sub", b.sub);
    if (b.k == "frame") q.f("te", b.te).f("ts", b.ts).f("x", b.x);
    if (b.k == "pb") q.f("dur", b.dur).f("mute", b.mute);
    obs.push_back(q.end());
  }
  o.f("obus", obs);
  return o.end().s;
}

static Ob Plain(const char* k, Bytes b) { Ob o; o.k = k; o.bytes = std::move(b); return o; }
static st::Hdr H(int type) {
  st::Hdr h; h.type = type;
  if (R->P(8)) { h.ext = true; for (int i = R->In(0, 3); i > 0; --i) h.ext_bytes.push_back(R->In(0, 255)); }
  if (R->P(8)) h.pad_size = R->In(1, 3);
  return h;
}
static Bytes Any(int n) { Bytes b; for (int i = 0; i < n; ++i) b.push_back(R->In(0, 255)); return b; }
static Ob Skipped(const Sc& s) {  // OBUs that change nothing
  static const std::vector<int> first = {0, 3, 4, 5};
  bool in_body = false; for (auto& o : s.obus) in_body |= IsTu(o);
  switch (in_body ? R->In(0, 5) : R->Pick(first)) {
    case 0: { auto h = H(R->In(25, 30)); return Plain("skip", st::Obu(h, Any(R->In(0, 9)))); }
    case 1: { auto h = H(31); h.redundant = true; return Plain("skip", st::Obu(h, st::SequenceHeader())); }
    case 2: { auto h = H(R->In(0, 2)); h.redundant = true; return Plain("skip", st::Obu(h, Any(R->In(0, 30)))); }
    case 3: {  // a frame of nobody's substream
      std::set<int> used; for (auto& e : s.els) used.insert(e.subs.begin(), e.subs.end());
      int id; do id = R->P(50) ? R->In(0, 17) : R->In(18, 500); while (used.count(id));
      auto h = H(st::FrameType(id)); auto o = Plain("frame", st::Obu(h, st::FramePayload(id, Any(R->In(0, 12))))); o.sub = id; o.x = {{}}; return o;
    }
    case 4: {  // a parameter block of nobody's parameter, or cut short
      st::W w; w.leb(R->P(50) ? s.pid + 1 + R->In(0, 500) : 70000); if (R->P(50)) w.leb(8).leb(8).leb(0).u16(0);
      return Plain("skip", st::Obu(H(3), w.b));
    }
    default: { auto h = H(24); return Plain("skip", st::Obu(h, Any(R->In(0, 9)))); }
  }
}
static Ob Block(const Sc& s, bool wrong) {
  Ob o; o.k = "pb"; o.mute = R->P(50); o.dur = s.fs;
  st::W w; w.leb(s.pid);
  if (s.pmode1) { if (wrong) o.dur = s.fs + (s.fs == 1 || R->P(50) ? 1 : -1); w.leb(o.dur).leb(o.dur); }
  w.leb(0).u16(o.mute ? 0x8000 : 0);
  o.bytes = st::Obu(H(3), w.b);
  return o;
}
static Ob Frame(const Sc& s, int sub, int nch, bool positive, int loud, int trim_s, int trim_e) {
  Ob o; o.k = "frame"; o.sub = sub; o.ts = trim_s; o.te = trim_e;
  o.x.assign(nch, std::vector<int>(s.fs));
  Bytes data;
  for (int t = 0; t < s.fs; ++t)
    for (int c = 0; c < nch; ++c) {
      int v = R->P(loud) ? (R->P(50) ? 8388607 : -8388608) : R->In(-4000000, 4000000);
      if (positive && v < 0) v = -(v + 1);
      if (s.sixteen) v = (v >> 8) * 256;
      o.x[c][t] = v;
      const uint32_t u = v;
      Bytes le = s.sixteen ? Bytes{(uint8_t)(u >> 8), (uint8_t)(u >> 16)} : Bytes{(uint8_t)u, (uint8_t)(u >> 8), (uint8_t)(u >> 16)};
      if (!s.little) std::reverse(le.begin(), le.end());
      data.insert(data.end(), le.begin(), le.end());
    }
  auto h = H(st::FrameType(sub));
  h.trimming = trim_s || trim_e || R->P(5); h.trim_end = trim_e; h.trim_start = trim_s;
  o.bytes = st::Obu(h, st::FramePayload(sub, data));
  return o;
}

static Sc Make() {
  Sc s; s.std_mode = MODE == "d01" || R->P(60); s.fs = R->In(1, 6); s.rate = R->P(50) ? 48000 : 16000; s.bits = R->P(60) ? 32 : 16; s.tb = !R->P(12); s.te = !R->P(12);
  s.ord = R->P(35) ? "android" : "iamf"; s.sixteen = R->P(50); s.little = R->P(60); s.pid = R->P(50) ? R->In(0, 20) : R->In(100, 999); s.pmode1 = R->P(70);
  const int ne = R->P(45) ? 1 : R->P(70) ? 2 : 3;
  const int lay = R->P(50) ? R->In(0, 1) : R->In(0, 3);
  std::set<int> used;
  for (int e = 0; e < ne; ++e) {
    El x; x.lay = e && R->P(35) ? R->In(0, 2) : lay; x.id = 10 + e * 7;
    for (int i = 0; i < kLays[x.lay].subs; ++i) { int id; do id = R->P(75) ? R->In(0, 17) : R->P(70) ? R->In(18, 140) : R->In(1000, 70000); while (!used.insert(id).second); x.subs.push_back(id); }
    s.els.push_back(x);
  }
  // mixes of elements that share a layout
  const int nm = R->P(60) ? 1 : 2;
  for (int m = 0; m < nm; ++m) {
    MixD x; x.id = R->P(70) ? 40 + m * 3 : 1000 + m; const int a = m == 0 ? 0 : R->In(0, ne - 1); x.rel = {a};
    for (int e = 0; e < ne; ++e) if (e != a && s.els[e].lay == s.els[a].lay && x.rel.size() < 2 && R->P(70)) x.rel.push_back(e);
    if (R->P(40)) std::reverse(x.rel.begin(), x.rel.end());
    s.mixes.push_back(x);
  }
  const int gain_el = R->P(45) ? s.mixes[0].rel[R->In(0, s.mixes[0].rel.size() - 1)] : -1;
  s.sel = 0;
  if (nm == 2 && R->P(50)) { s.sel = 1; s.req_mix = s.mixes[1].id; } else if (R->P(30)) s.req_mix = s.mixes[0].id; else if (R->P(15)) s.req_mix = 5555;
  // descriptors
  auto put = [&](Bytes b) { s.descr.insert(s.descr.end(), b.begin(), b.end()); };
  put(st::Obu(H(31), st::SequenceHeader(1, 1)));
  put(st::Obu(H(0), st::LpcmConfig(3, s.fs, s.rate, s.sixteen ? 16 : 24, s.little)));
  for (auto& e : s.els) {
    st::Element d; d.id = e.id; d.codec = 3; for (int x : e.subs) d.subs.push_back(x); d.layers = {{kLays[e.lay].layer, kLays[e.lay].subs, kLays[e.lay].coupled}};
    put(st::Obu(H(1), st::ElementPayload(d)));
    if (R->P(10)) put(st::Obu(H(26), Any(4)));
  }
  for (auto& m : s.mixes) {
    st::Mix d; d.id = m.id; st::SubMix sm;
    for (size_t j = 0; j < m.rel.size(); ++j) {
      const bool g = m.rel[j] == gain_el;
      if (g) m.gel = m.rel[j] + 1;
      st::Gain pg{(uint32_t)(g ? s.pid : 90000 + m.rel[j]), (uint32_t)s.rate, true};
      if (g && !s.pmode1) { pg.mode1 = false; pg.duration = pg.constant = s.fs; }
      sm.elements.push_back({(uint32_t)s.els[m.rel[j]].id, 0, pg});
    }
    sm.out = {91000, (uint32_t)s.rate, true};
    const int sys = kLays[s.els[m.rel[0]].lay].system;
    sm.layouts.push_back({2, sys}); if (sys != 0) sm.layouts.push_back({2, 0});
    d.subs.push_back(sm);
    put(st::Obu(H(2), st::MixPayload(d)));
  }
  bool has_param = false; for (auto& m : s.mixes) has_param |= m.gel > 0;
  // the body
  const int units = R->P(10) ? 0 : R->In(1, MODE == "d01" ? 6 : 8);
  const int tds = R->In(0, 3);  // none, all, some, many
  const int junk = R->P(40) ? 0 : R->In(5, 40), loud = R->P(20) ? 30 : 2;
  const int fault = MODE == "d03" ? (R->P(50) ? R->In(1, 7) : 0) : R->P(15) ? R->In(1, 7) : 0;
  const int fault_at = fault ? R->In(0, std::max(0, units - 1)) : -1;
  const bool from_start = R->P(80);
  auto add = [&](Ob o) { s.obus.push_back(std::move(o)); };
  for (int u = 0; u < units; ++u) {
    const size_t first = s.obus.size();
    auto maybe = [&] { while (R->P(junk)) add(Skipped(s)); };
    if (tds == 1 || (tds >= 2 && R->P(60))) { add(Plain("td", st::Obu(H(4), {}))); if (tds == 3) { maybe(); while (R->P(30)) { add(Plain("td", st::Obu(H(4), {}))); maybe(); } } }
    maybe();
    if (has_param && (from_start || u > 0) && R->P(75)) { add(Block(s, fault == 1 && u == fault_at)); if (R->P(5)) add(Block(s, false)); }
    std::vector<std::pair<int, int>> fr;  // element, substream
    for (size_t e = 0; e < s.els.size(); ++e) for (size_t i = 0; i < s.els[e].subs.size(); ++i) fr.push_back({(int)e, (int)i});
    if (R->P(50)) for (size_t i = fr.size(); i > 1; --i) std::swap(fr[i - 1], fr[R->In(0, i - 1)]);
    int a = 0, b = 0;
    if (fault != 4 && fault != 5 && R->P(35)) {  // (after a lost or repeated frame the trims of a substream would meet others)
      a = R->In(0, s.fs); b = R->In(0, s.fs - a); if (R->P(30)) { if (R->P(50)) a = s.fs - b; else b = 0; } }
    if (fault == 2 && u == fault_at) { a = R->In(0, s.fs); b = s.fs - a + R->In(1, 3); }
    const int victim = R->In(0, fr.size() - 1);
    for (size_t i = 0; i < fr.size(); ++i) {
      maybe();
      int a2 = a, b2 = b;
      if (fault == 3 && u == fault_at && fr[i].first == fr[victim].first && s.els.size() > 1) { a2 = (a + 1) % (s.fs + 1); b2 = 0; }
      if (fault == 4 && u == fault_at && (int)i == victim) continue;
      const bool pos = fr[i].first == gain_el;
      const auto& L = kLays[s.els[fr[i].first].lay];
      add(Frame(s, s.els[fr[i].first].subs[fr[i].second], L.chans[fr[i].second], pos, loud, a2, b2));
      if (fault == 5 && u == fault_at && (int)i == victim && s.std_mode) add(Frame(s, s.els[fr[i].first].subs[fr[i].second], L.chans[fr[i].second], pos, loud, a, b));
    }
    maybe();
    if (fault == 6 && u == fault_at) {
      if (R->P(50)) add(Plain("fatal", st::Obu(H(R->In(0, 2)), Any(R->In(0, 12)))));
      else { st::Hdr h; h.type = R->P(50) ? 4 : 7; h.redundant = true; add(Plain("fatal", st::Obu(h, Any(4)))); }
    }
    if (fault == 7 && u == fault_at) add(Plain("newseq", st::Obu(H(31), st::SequenceHeader())));
    if (s.obus.size() > first) s.obus[first].unit_start = true;
  }
  if (R->P(10)) { add(Plain("td", st::Obu(H(4), {}))); s.obus.back().unit_start = true; }
  for (auto& o : s.obus) { s.body.insert(s.body.end(), o.bytes.begin(), o.bytes.end()); o.end = s.body.size(); }
  return s;
}

struct Run {
  Sc s; std::unique_ptr<api::IamfDecoderInterface> d; bool dead = false; size_t fed = 0; Bytes data;  // data: what is to be fed
  void Open() {
    api::IamfDecoderFactory::Settings st;
    if (s.req_mix) st.requested_mix.mix_presentation_id = *s.req_mix;
    st.requested_output_sample_type = s.bits == 16 ? api::OutputSampleType::kInt16LittleEndian : api::OutputSampleType::kInt32LittleEndian;
    st.channel_ordering = s.ord == "android" ? api::ChannelOrdering::kOrderingForAndroid : api::ChannelOrdering::kIamfOrdering;
    st.trimming_settings = {s.tb, s.te};
    d = s.std_mode ? api::IamfDecoderFactory::Create(st) : api::IamfDecoderFactory::CreateFromDescriptors(st, s.descr.data(), s.descr.size());
    Ev("new").f("ok", d != nullptr).raw("c", Cfg(s));
    data = s.std_mode ? s.descr : Bytes{}; data.insert(data.end(), s.body.begin(), s.body.end()); fed = 0;
  }
  bool Avail() { return d->IsTemporalUnitAvailable(); }
  bool Done() { return d->IsDescriptorProcessingComplete(); }
  void Decode(size_t n) {
    n = std::min(n, data.size() - fed);
    Bytes piece(data.begin() + fed, data.begin() + fed + n);
    auto r = d->Decode(piece.data(), n); fed += n;
    Ev("decode").f("n", (int)n).f("ok", r.ok()).f("avail", Avail()).f("done", Done());
    if (!r.ok() && !ended) dead = true;
  }
  bool ended = false;
  void Get(bool small) {
    Bytes out(small ? R->In(0, 40) : 4096); size_t n = 999999;
    auto r = d->GetOutputTemporalUnit(out.data(), out.size(), n);
    std::vector<int> x; const int w = s.bits / 8;
    if (n <= out.size()) for (size_t i = 0; i + w <= n; i += w) { uint32_t v = 0; for (int k = 0; k < w; ++k) v |= (uint32_t)out[i + k] << (8 * k); x.push_back(w == 2 ? (int16_t)v : (int32_t)v); }
    Ev("get").f("cap", (int)out.size()).f("ok", r.ok()).f("n", (int)n).f("x", x).f("avail", Avail()).f("done", Done());
    if (!r.ok() && !(n == 0 && out.size() < 4096)) dead = true;
    if (!r.ok() && n == 0 && out.size() < 4096 && !Avail()) dead = true;
  }
  void Drain() { for (int i = 0; i < 200 && !dead && Avail(); ++i) Get(R->P(MODE == "d02" ? 25 : 5)); }
  void Signal() { auto r = d->SignalEndOfDecoding(); ended = true; Ev("signal").f("ok", r.ok()).f("avail", Avail()).f("done", Done()); if (!r.ok()) dead = true; }
  void Info() {
    int ch = -1; uint32_t rate = 0, fs = 0; api::SelectedMix m{0, api::OutputLayout::kItu2051_SoundSystemA_0_2_0};
    bool a = d->GetNumberOfOutputChannels(ch).ok(), b = d->GetSampleRate(rate).ok(), c = d->GetFrameSize(fs).ok(), e = d->GetOutputMix(m).ok();
    Ev("info").f("ok", a && b && c && e).f("refused", !a && !b && !c && !e).f("type", d->GetOutputSampleType() == api::OutputSampleType::kInt16LittleEndian ? 16 : 32)
        .raw("v", Obj().f("ch", ch).f("rate", rate).f("fs", fs).f("mix", m.mix_presentation_id).f("lay", (int)m.output_layout).end().s);
  }
  void Reset() {
    int from = 1; size_t skip = 0;
    if (!s.std_mode && R->P(60)) { std::vector<int> starts; for (size_t i = 0; i < s.obus.size(); ++i) if (s.obus[i].unit_start) starts.push_back(i + 1); if (!starts.empty()) { from = R->Pick(starts); skip = from > 1 ? s.obus[from - 2].end : 0; } }
    bool ok;
    if (R->P(50)) ok = d->Reset().ok();
    else {
      api::RequestedMix q; int sel = s.sel;
      if (R->P(60)) { sel = R->In(0, s.mixes.size() - 1); q.mix_presentation_id = s.mixes[sel].id; } else { sel = 0; if (R->P(30)) q.mix_presentation_id = 4444; }
      api::SelectedMix m{77, api::OutputLayout::kItu2051_SoundSystemA_0_2_0};
      ok = d->ResetWithNewMix(q, m).ok();
      if (!s.std_mode) { s.sel = sel; if (ok && ((int)m.mix_presentation_id != s.mixes[sel].id || (int)m.output_layout != kLays[s.els[s.mixes[sel].rel[0]].lay].api)) ok = false; }
    }
    Ev("reset").f("ok", ok).f("from", from).raw("c", Cfg(s)).f("avail", Avail()).f("done", Done());
    if (!s.std_mode) { dead = false; ended = false; data.assign(s.body.begin() + skip, s.body.end()); fed = 0; base = skip; }
  }
  size_t base = 0;
  size_t Piece(int how) {
    if (!s.std_mode) {  // whole units
      size_t stop = data.size();
      for (auto& o : s.obus) { size_t at = o.end - o.bytes.size(); if (o.unit_start && at > base + fed) { stop = at - base; if (R->P(60)) break; } }
      return stop - fed;
    }
    switch (how) {
      case 0: return data.size();
      case 1: return 1;
      case 2: return R->In(0, 12);
      case 3: return R->P(20) ? 0 : R->In(1, 60);
      case 4: { size_t off = s.descr.size(); if (fed < off) return off - fed; for (auto& o : s.obus) if (off + o.end > fed) return off + o.end - fed; return 1; }
      default: return R->P(50) ? R->In(0, 3) : R->In(0, 400);
    }
  }
};
// where the end of each descriptor and of the next OBU may lie is asked with every cut
static void D01() {
  Run r{Make()}; r.Open(); if (!r.d) return;
  if (R->P(30)) r.data.resize(R->In(0, r.data.size()));  // cut off anywhere
  int how = R->In(0, 5); const int drain = R->In(0, 3);
  if (r.data.size() > 700 && how == 1) how = 2;
  while (!r.dead && r.fed < r.data.size()) { r.Decode(r.Piece(how)); if (drain == 0 || (drain == 1 && R->P(30))) r.Drain(); }
  if (!r.dead && drain == 2) r.Drain();
  if (!r.dead) r.Signal();
  r.Drain(); r.Info();
}
static void D02() {
  Run r{Make()}; r.Open(); if (!r.d) return;
  const int how = R->In(2, 5); const int ends = R->P(50) ? 2 : 10;
  for (int i = R->In(5, 60); i > 0; --i) {
    const int x = R->In(0, 99);
    if (r.dead && r.s.std_mode) { r.Info(); if (R->P(30)) r.Reset(); break; }
    if (r.dead) { if (R->P(30)) r.Info(); r.Reset(); continue; }
    if (x < 45) r.Decode(R->P(5) ? 0 : r.Piece(how));
    else if (x < 70) r.Get(R->P(25));
    else if (x < 82) r.Info();
    else if (x < 82 + ends) r.Signal();
    else if (x < 96) r.Drain();
    else r.Reset();
  }
  if (!r.dead) { r.Signal(); r.Drain(); }
  r.Info();
}
static void D03() {
  Run r{Make()}; r.Open(); if (!r.d) return;
  const int how = R->P(50) ? 0 : 4;
  while (!r.dead && r.fed < r.data.size()) { r.Decode(r.Piece(how)); if (R->P(70)) r.Drain(); }
  if (!r.dead && r.Done() == false) r.Decode(0);
  if (!r.dead) r.Signal();
  r.Drain();
}
int main(int argc, char** argv) {
  Init(argc, argv); Rng rng(ArgI("seed", 1)); R = &rng; MODE = Arg("mode", "d01");
  for (long n = ArgI("n", 10), i = 0; i < n; ++i) MODE == "d01" ? D01() : MODE == "d02" ? D02() : D03();
  return 0;
}
