// E02: the order of OBUs in an output, whatever the calls and the failures.
#include <filesystem>
#include <fstream>
#include <list>
#include <memory>
#include <optional>
#include <unistd.h>
#include "elems.h"
#include "iamf/cli/audio_frame_with_data.h"
#include "iamf/cli/obu_sequencer_base.h"
#include "iamf/cli/obu_sequencer_iamf.h"
#include "iamf/cli/obu_sequencer_streaming_iamf.h"
#include "iamf/cli/parameter_block_with_data.h"
#include "iamf/cli/profile_filter.h"
#include "iamf/cli/temporal_unit_view.h"
#include "iamf/obu/arbitrary_obu.h"
#include "iamf/obu/ia_sequence_header.h"
#include "iamf/obu/metadata_obu.h"
#include "iamf/obu/mix_gain_parameter_data.h"
#include "iamf/obu/parameter_block.h"
#include "iamf/obu/temporal_delimiter.h"
using namespace el;
using namespace vt;
template <class V> static std::string Hex(const V& b) { static const char* d = "0123456789abcdef"; std::string s; for (uint8_t x : b) { s += d[x >> 4]; s += d[x & 15]; } return s; }
static const LebGenerator* G;
static Obj Put(const ObuBase& o) {
  WriteBitBuffer w(64, *G); const bool ok = o.ValidateAndWriteObu(w).ok();
  return Obj().f("w", ok).f("b", ok ? Hex(w.bit_buffer()) : std::string());
}
static Obj& operator+=(Obj& a, const Obj& b) { if (b.s.size() > 1) a.s += (a.s.size() > 1 ? "," : "") + b.s.substr(1); return a; }
struct Rec : ObuSequencerBase {
  std::vector<Raw> calls; int n = -1;
  using ObuSequencerBase::ObuSequencerBase;
  ~Rec() override = default;
  absl::Status Turn() { if (n == 0) return absl::InternalError("refused"); if (n > 0) --n; return absl::OkStatus(); }
  absl::Status PushSerializedDescriptorObus(uint32_t spf, uint32_t rate, uint8_t depth, std::optional<InternalTimestamp> first, int, absl::Span<const uint8_t> b) override {
    calls.push_back(Obj().f("c", "descr").f("stats", std::vector<int>{(int)spf, (int)rate, depth}).f("first", first ? std::vector<int>{(int)*first} : std::vector<int>{}).f("b", Hex(b)).end()); return Turn();
  }
  absl::Status PushSerializedTemporalUnit(InternalTimestamp t, int k, bool key, absl::Span<const uint8_t> b) override {
    calls.push_back(Obj().f("c", "unit").f("at", t).f("n", k).f("key", key).f("b", Hex(b)).end()); return Turn();
  }
  absl::Status PushFinalizedDescriptorObus(absl::Span<const uint8_t> b) override { calls.push_back(Obj().f("c", "final").f("b", Hex(b)).end()); return Turn(); }
  void CloseDerived() override { calls.push_back(Obj().f("c", "close").end()); }
  void AbortDerived() override { calls.push_back(Obj().f("c", "abort").end()); }
};
struct Arb { int hook, type, len, flag; bool red, inv; std::optional<int64_t> tick; int fill; };
static Arb AnyArb(int lo, int hi, std::optional<int64_t> tick, int bad) {
  return {(int)R->In(lo, hi), R->P(40) ? 4 : (int)R->In(24, 30), (int)R->In(0, 5), R->P(40), R->P(bad), R->P(bad), tick, (int)R->In(0, 255)};
}
static ArbitraryObu Real(const Arb& a) {
  ObuHeader h; h.type_specific_flag = a.flag && a.type == 4; h.obu_redundant_copy = a.red && a.type == 4;
  return ArbitraryObu((ObuType)a.type, h, std::vector<uint8_t>(a.type == 4 ? 0 : a.len, a.fill), (ArbitraryObu::InsertionHook)a.hook, a.tick, a.inv);
}
static Raw Told(const Arb& a, const ArbitraryObu& o) {
  Obj x = Obj().f("hook", a.hook).f("inv", a.inv).f("key", a.type == 4 && !a.flag).f("tick", a.tick ? std::vector<int64_t>{*a.tick} : std::vector<int64_t>{});
  x += Put(o); return x.end();
}
// --- descriptors
struct Cc { int id, spf, rate, depth; };
struct Ds { int p0, p1; std::vector<std::string> meta; std::vector<Cc> cc; std::vector<st::Element> els; std::vector<st::Mix> mixes; std::vector<Arb> arbs; bool red = false; };
static Ds AnyDs() {
  Ds d; next_sub = 0; d.p0 = R->In(0, 2); d.p1 = R->In(d.p0, 2);
  for (int k = R->P(60) ? 0 : R->In(1, 3); k > 0; --k) d.meta.push_back(std::string(1, 'a' + R->In(0, 25)));
  const int spf = R->P(70) ? 8 : R->In(1, 2000), rate = R->P(60) ? 48000 : 44100, depth = R->P(60) ? 16 : 24;
  const int n = R->P(10) ? 0 : R->In(1, 4);
  for (int k = 0; k < n; ++k) d.cc.push_back({(int)R->In(0, 40), R->P(98) ? spf : spf + 1, R->P(98) ? rate : 16000, R->P(93) ? depth : 32});
  for (size_t a = 0; a < d.cc.size(); ++a) for (size_t b = 0; b < a; ++b) if (d.cc[a].id == d.cc[b].id) d.cc[a].id += 41 + a;
  if (n) for (int k = R->In(0, 4); k > 0; --k) { st::Element e; e.id = 17 * k % 40 + (R->P(20) ? 200 : 0); e.codec = d.cc[0].id; Channels(e, {One(R->In(0, 1))}); d.els.push_back(e); }
  for (size_t a = 0; a < d.els.size(); ++a) std::swap(d.els[a], d.els[R->In(0, a)]);
  if (!d.els.empty()) for (int k = R->In(0, 3); k > 0; --k) {
    st::Mix m; m.id = R->In(0, 30) * 4 + k; st::SubMix s;
    std::vector<st::Element> l = d.els; for (int c = R->In(1, R->P(25) ? 3 : d.p0 == 0 ? 1 : 2); c > 0 && !l.empty(); --c) { s.elements.push_back({l.back().id, 0, {(uint32_t)c + 50, 48000}}); l.pop_back(); }
    s.out = {60, 48000}; s.layouts = {{2, 0}}; m.subs.push_back(s); d.mixes.push_back(m);
  }
  for (int k = R->P(50) ? 0 : R->In(1, 6); k > 0; --k) d.arbs.push_back(AnyArb(0, R->P(95) ? 5 : 8, std::nullopt, 2));
  return d;
}
static Ds Other(Ds d) {
  switch (R->In(0, 9)) {
    case 0: case 1: case 2: d.p1 = R->In(d.p0, 3); break;
    case 3: if (!d.mixes.empty()) { d.mixes.back().id = R->In(0, 120); break; } [[fallthrough]];
    case 4: if (!d.meta.empty()) { d.meta[0] = "z"; break; } [[fallthrough]];
    case 5: d.arbs.push_back(AnyArb(0, 5, std::nullopt, 0)); break;
    case 6: if (!d.cc.empty()) { auto& c = R->Pick(d.cc); const_cast<Cc&>(c).depth = c.depth == 16 ? 24 : 16; } break;
    case 7: if (!d.cc.empty()) { const int r = R->In(0, 1) ? 48000 : 44100, s = R->P(50) ? d.cc[0].spf : d.cc[0].spf ^ 1; for (auto& c : d.cc) { c.rate = r; c.spf = std::max(1, s); } } break;
    case 8: if (d.mixes.size() > 1) std::swap(d.mixes[0], d.mixes.back()); break;
    default: return AnyDs();
  }
  return d;
}
struct Built { std::optional<IASequenceHeaderObu> hdr; std::list<MetadataObu> meta; DescriptorObus d; std::list<ArbitraryObu> arbs; };
static Raw Build(const Ds& x, Built& b) {
  b.hdr.emplace(ObuHeader(), (ProfileVersion)x.p0, (ProfileVersion)x.p1);
  std::vector<Raw> meta, cc, els, mix, arbs;
  for (auto& t : x.meta) { MetadataIamfTags m; m.tags.push_back({t, "v"}); b.meta.push_back(MetadataObu::Create(ObuHeader(), m)); meta.push_back(Put(b.meta.back()).end()); }
  for (auto& c : x.cc) {
    auto o = Parse<CodecConfigObu>(st::LpcmConfig(c.id, c.spf, c.rate, c.depth, true)); if (!o.ok()) std::abort();
    Obj j = Obj().f("id", c.id).f("spf", c.spf).f("rate", c.rate).f("depth", c.depth); j += Put(*o); cc.push_back(j.end());
    b.d.codec_config_obus.emplace(c.id, *std::move(o));
  }
  for (auto& e : x.els) {
    auto o = Parse<AudioElementObu>(st::ElementPayload(e)); if (!o.ok()) std::abort();
    Obj j = Obj().f("id", (int)e.id); j += Put(*o); els.push_back(j.end());
    b.d.audio_elements.emplace(e.id, AudioElementWithData{.obu = *std::move(o), .codec_config = &b.d.codec_config_obus.at(e.codec)});
  }
  for (auto& m : x.mixes) {
    auto o = Parse<MixPresentationObu>(st::MixPayload(m)); if (!o.ok()) std::abort();
    absl::flat_hash_set<ProfileVersion> p = {(ProfileVersion)x.p0, (ProfileVersion)x.p1};
    const bool fits = ProfileFilter::FilterProfilesForMixPresentation(b.d.audio_elements, *o, p).ok();
    Obj j = Obj().f("fits", fits); j += Put(*o); mix.push_back(j.end()); b.d.mix_presentation_obus.push_back(*std::move(o));
  }
  for (auto& a : x.arbs) { b.arbs.push_back(Real(a)); arbs.push_back(Told(a, b.arbs.back())); }
  return Obj().raw("hdr", Put(*b.hdr).end().s).f("meta", meta).f("cc", cc).f("el", els).f("mix", mix).f("arbs", arbs).end();
}
// --- temporal units
struct Pool { std::list<CodecConfigObu> cc; std::list<AudioElementWithData> els; };
static Pool* P;
static void Fill() {
  next_sub = 0;
  for (int k = 0; k < 4; ++k) {
    st::Element e; e.id = (k * 7 + 3) % 11; e.codec = 0; Channels(e, {One(1)});
    P->cc.push_back(Parse<CodecConfigObu>(st::LpcmConfig(0, k == 3 ? 9 : 8, 48000, 16, true)).value());
    P->els.push_back(AudioElementWithData{.obu = Parse<AudioElementObu>(st::ElementPayload(e)).value(), .codec_config = &P->cc.back()});
  }
}
struct UnitIn { std::list<AudioFrameWithData> f; std::list<ParameterBlockWithData> p; std::list<ArbitraryObu> a; };
static uint32_t Trim() { return R->P(60) ? 0 : R->P(50) ? 8 : R->P(80) ? R->In(0, 9) : R->P(50) ? 4294967295u - R->In(0, 9) : 65536 * R->In(1, 3) + R->In(0, 8); }
// steady: a unit that fits after the others
static void AnyUnit(UnitIn& u, int64_t at, bool steady, bool cut, Obj& told) {
  uint32_t t0 = cut ? Trim() : 0, t1 = R->P(85) ? 0 : Trim();
  if (steady) { if (t0 > 8) t0 = 8; if (t1 > 8 - t0) t1 = 8 - t0; }
  std::vector<AudioElementWithData*> els; for (auto& e : P->els) els.push_back(&e);
  std::vector<Raw> f, p, a; const int odd = steady ? 0 : 6;
  if (R->P(odd)) { t0 = 4294967290u; t1 = R->In(6, 14); }
  const int n = R->P(4) ? 0 : R->In(1, 4), base = R->In(0, 30);
  for (int k = 0; k < n; ++k) {
    ObuHeader h; h.num_samples_to_trim_at_start = R->P(odd / 2) ? t0 + 1 : t0; h.num_samples_to_trim_at_end = R->P(odd / 2) ? t1 + 1 : t1;
    h.obu_redundant_copy = R->P(2);
    const AudioElementWithData* e = els[R->In(0, R->P(90) ? 2 : 3)]; const int sub = R->P(odd / 2) ? base : (base + k * 5) % 23 + (R->P(10) ? 200 : 0);
    const int64_t s = at + (R->P(odd / 3) ? 1 : 0), z = at + 8 + (R->P(odd / 3) ? 1 : 0);
    u.f.push_back(AudioFrameWithData{.obu = AudioFrameObu(h, sub, std::vector<uint8_t>(R->In(0, 3), R->In(0, 255))), .start_timestamp = s, .end_timestamp = z, .encoded_samples = {}, .audio_element_with_data = e});
    auto pr = [](uint32_t v) { return std::vector<int>{(int)(v >> 16), (int)(v & 65535)}; };
    Obj j = Obj().f("el", (int)e->obu.GetAudioElementId()).f("sub", sub).f("start", s).f("end", z).f("t0", pr(h.num_samples_to_trim_at_start)).f("t1", pr(h.num_samples_to_trim_at_end)).f("spf", (int)e->codec_config->GetNumSamplesPerFrame());
    j += Put(u.f.back().obu); f.push_back(j.end());
  }
  for (int k = R->P(40) ? 0 : R->In(1, 4); k > 0; --k) {
    const int id = R->P(odd / 2) ? 5 : (k * 11 + base) % 29 + (R->P(10) ? 300 : 0);
    MixGainParamDefinition def(ParamDefinition::BaseArgs{.parameter_id = (uint32_t)id, .parameter_rate = 48000});
    auto o = ParameterBlockObu::CreateMode1(ObuHeader(), def, *SubblockSchedule::CreateWithConstantSubblockDuration(8, 8));
    o->subblocks_[0] = std::make_unique<MixGainParameterData>(AnimationStepInt16{.start_point_value = (int16_t)R->In(-99, 99)});
    const int64_t s = at + (R->P(odd / 3) ? 1 : 0), z = at + (n ? 8 : 0) + (R->P(odd / 3) ? 1 : 0);
    Obj j = Obj().f("id", id).f("start", s).f("end", z); j += Put(*o); p.push_back(j.end());
    u.p.push_back(ParameterBlockWithData{.obu = std::move(o), .start_timestamp = s, .end_timestamp = z});
  }
  const bool inv = !n && R->P(70);
  for (int k = n && R->P(55) ? 0 : R->P(5) ? 0 : R->In(1, 5); k > 0; --k) {
    Arb x = AnyArb(R->P(97) ? 6 : 0, 8, at + (R->P(odd / 2) ? 1 : 0), n ? 1 : 0); if (R->P(odd / 3)) x.tick = std::nullopt;
    if (inv && R->P(50)) x.inv = true;
    u.a.push_back(Real(x)); a.push_back(Told(x, u.a.back()));
  }
  told += Obj().f("f", f).f("p", p).f("a", a);
}
static absl::StatusOr<TemporalUnitView> See(const UnitIn& u) { return TemporalUnitView::Create(u.p, u.f, u.a); }
static std::string Slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return {std::istreambuf_iterator<char>(f), {}}; }
static void Run(const std::string& dir) {
  auto gen = R->P(80) ? LebGenerator::Create() : LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, R->In(2, 6)); G = gen.get();
  const int kind = R->In(0, 9); const bool delay = kind < 5 && R->P(60), tds = R->P(50);
  static const char* names[] = {"calls", "calls", "calls", "calls", "calls", "file", "file", "stream", "stream", "nofile"};
  const std::string path = kind == 9 ? R->P(50) ? "" : dir + "/missing/out.iamf" : dir + "/out.iamf"; const bool broken = kind == 9 && !path.empty();
  std::filesystem::remove(dir + "/out.iamf"); bool there = false; std::string old;
  if (kind <= 6 && kind >= 5 && R->P(30)) { old.assign(R->In(0, 400), 'q'); std::ofstream(path) << old; there = true; }
  TemporalDelimiterObu td((ObuHeader()));
  WriteBitBuffer w(8, *G); (void)td.ValidateAndWriteObu(w);
  { Ev e("begin"); e.f("kind", names[kind]).f("delay", delay).f("td", tds ? Hex(w.bit_buffer()) : std::string()).f("there", there).f("b", Hex(old)); }
  std::unique_ptr<ObuSequencerBase> q; Rec* rec = nullptr; ObuSequencerStreamingIamf* str = nullptr;
  if (kind < 5) { auto r = std::make_unique<Rec>(*G, tds, delay); rec = r.get(); q = std::move(r); }
  else if (kind < 7 || kind == 9) q = std::make_unique<ObuSequencerIamf>(path, tds, *G);
  else { auto r = std::make_unique<ObuSequencerStreamingIamf>(tds, *G); str = r.get(); q = std::move(r); }
  Ds d = AnyDs(); int64_t at = R->P(50) ? 0 : R->In(0, 5) * 8; bool heard = false; int pushed = 0;
  const int steps = R->In(2, 14); const bool tidy = R->P(65);
  auto run = [&](const char* what, const Obj& told, auto&& call) {
    const int n = rec && R->P(6) ? R->In(0, 3) : broken ? 0 : -1;
    if (rec) { rec->calls.clear(); rec->n = n; }
    const bool ok = call();
    Ev e(what); static_cast<Obj&>(e) += told; e.f("n", n).f("ok", ok);
    if (rec) e.f("calls", rec->calls);
    else if (str) e.f("d", Hex(str->GetSerializedDescriptorObus())).f("u", Hex(str->GetPreviousSerializedTemporalUnit()));
    else if (kind == 9) e.f("there", !path.empty() && std::filesystem::exists(path));
    else { const bool t = std::filesystem::exists(path); e.f("there", t); e.f("b", t && ok && (!strcmp(what, "close") || !strcmp(what, "update")) ? Hex(Slurp(path)) : t ? Hex(Slurp(path)) : std::string()); }
  };
  for (int k = 0; k < steps; ++k) {
    const int x = R->In(0, 99); const bool lastone = k + 1 == steps;
    if (!pushed && (tidy || x < 70)) {
      Built b; const Obj t = Obj().raw("x", Build(d, b).s);
      run("push", t, [&] { return q->PushDescriptorObus(*b.hdr, b.meta, b.d.codec_config_obus, b.d.audio_elements, b.d.mix_presentation_obus, b.arbs).ok(); }); pushed = 1;
    } else if (!lastone && (x < (tidy ? 94 : 65))) {
      UnitIn u; Obj t; const bool steady = R->P(85);
      AnyUnit(u, at, steady, !heard || R->P(5), t);
      auto v = See(u);
      { Ev e("view"); static_cast<Obj&>(e) += t; e.f("ok", v.ok());
        if (v.ok()) {
          std::vector<int> subs, ids; std::vector<std::string> tags;
          for (auto* f : v->audio_frames_) subs.push_back(f->obu.GetSubstreamId());
          for (auto* p : v->parameter_blocks_) ids.push_back(p->obu->parameter_id_);
          for (auto* a : v->arbitrary_obus_) for (auto& y : u.a) if (&y == a) { WriteBitBuffer wb(8, *G); tags.push_back(a->ValidateAndWriteObu(wb).ok() ? Hex(wb.bit_buffer()) : std::string()); }
          e.raw("v", Obj().f("start", v->start_timestamp_).f("end", v->end_timestamp_).f("cut", v->num_samples_to_trim_at_start_).f("left", v->num_untrimmed_samples_).f("subs", subs).f("ids", ids).f("tags", tags).end().s);
        } }
      if (!v.ok()) continue;
      if (v->num_untrimmed_samples_) heard = true;
      at += 8;
      run("unit", t, [&] { return q->PushTemporalUnit(*v).ok(); });
    } else if (x < 94 || (lastone && x < 97)) {
      if (R->P(lastone ? 50 : 30)) run("close", Obj(), [&] { return q->Close().ok(); });
      else {
        Built b; const Obj t = Obj().raw("x", Build(R->P(30) ? d : Other(d), b).s);
        if (R->P(70) || tidy) run("update", t, [&] { return q->UpdateDescriptorObusAndClose(*b.hdr, b.meta, b.d.codec_config_obus, b.d.audio_elements, b.d.mix_presentation_obus, b.arbs).ok(); });
        else run("push", t, [&] { return q->PushDescriptorObus(*b.hdr, b.meta, b.d.codec_config_obus, b.d.audio_elements, b.d.mix_presentation_obus, b.arbs).ok(); });
      }
    } else run("abort", Obj(), [&] { q->Abort(); return true; });
  }
}
int main(int argc, char** argv) {
  Init(argc, argv); Rng rng(ArgI("seed", 1)); R = &rng; Pool pool; P = &pool; Fill();
  char dir[] = "/tmp/verif-seq-XXXXXX"; if (!mkdtemp(dir)) return 97;
  for (long n = ArgI("n", 10), i = 0; i < n; ++i) Run(dir);
  std::filesystem::remove(std::string(dir) + "/out.iamf"); rmdir(dir);
  return 0;
}
