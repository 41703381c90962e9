// M02: audio elements rendered to layouts and mixed, frame by frame, for every mix there is.
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include "iamf/cli/channel_label.h"
#include "iamf/cli/descriptor_obus.h"
#include "iamf/cli/layout_renderer_factory.h"
#include "iamf/cli/loudness_calculator_base.h"
#include "iamf/cli/loudness_calculator_factory_base.h"
#include "iamf/cli/obu_with_data_generator.h"
#include "iamf/cli/renderer/gains/get_gains.h"
#include "iamf/cli/rendering_mix_presentation_finalizer.h"
#include "iamf/cli/sample_processor_base.h"
#include "elems.h"
using namespace iamf_tools;
using namespace vt;
using st::Bytes;
static Rng* R;
using Samples = std::vector<std::vector<double>>;
using Spans = absl::Span<const absl::Span<const double>>;
static int Fix(double v) { v = std::round(v * 160000); return v > 2e9 ? 2000000000 : v < -2e9 ? -2000000000 : (int)v; }
static std::vector<std::vector<int>> Ints(Spans s) { std::vector<std::vector<int>> r; for (auto& c : s) { r.emplace_back(); for (double v : c) r.back().push_back(Fix(v)); } return r; }

// --- what the finalizer is given, which tells what it sees
struct Slot { bool made = false; std::vector<int> args; bool renders = false; int frames = 0, flushed = 0, heard = 0; std::vector<std::vector<int>> saw, listened; bool sick = false, deaf = false, mute = false; };
struct Place { int mix, sub, lay; bool operator<(const Place& o) const { return std::tie(mix, sub, lay) < std::tie(o.mix, o.sub, o.lay); } };
static std::map<Place, Slot>* S; static Place* Next;  // the layout the finalizer is at: layouts are told apart by their loudness
struct Twice : SampleProcessorBase {
  Slot* s; Twice(size_t n, size_t ch, Slot* s) : SampleProcessorBase(n, ch, n), s(s) {}
  absl::Status PushFrameDerived(Spans f) override {
    ++s->frames; s->saw = Ints(f);
    if (s->sick && s->frames == 2) return absl::InternalError("sick");
    for (size_t c = 0; c < f.size(); ++c) { output_channel_time_samples_[c].clear(); for (double v : f[c]) output_channel_time_samples_[c].push_back(2 * v); }
    return absl::OkStatus();
  }
  absl::Status FlushDerived() override { ++s->flushed; for (auto& c : output_channel_time_samples_) c.assign(1, 0.25); return absl::OkStatus(); }
};
struct Ear : LoudnessCalculatorBase {
  Slot* s; LoudnessInfo info; Ear(Slot* s, LoudnessInfo i) : s(s), info(i) {}
  absl::Status AccumulateLoudnessForSamples(Spans f) override { ++s->heard; s->listened = Ints(f); return s->deaf && s->heard == 2 ? absl::InternalError("deaf") : absl::OkStatus(); }
  absl::StatusOr<LoudnessInfo> QueryLoudness() const override { if (s->mute) return absl::InternalError("mute"); return info; }
};
struct Ears : LoudnessCalculatorFactoryBase {
  std::map<int, Place> at; std::map<Place, LoudnessInfo> told; std::set<Place> none; mutable std::vector<std::vector<int>> odd; int spf, rate;
  std::unique_ptr<LoudnessCalculatorBase> CreateLoudnessCalculator(const MixPresentationLayout& l, uint32_t n, int32_t r) const override {
    const Place p = at.at(l.loudness.integrated_loudness); if ((int)n != spf || r != rate) odd.push_back({(int)n, r});
    if (none.count(p)) return nullptr;
    return std::make_unique<Ear>(&(*S)[p], told.at(p));
  }
};
struct Renderers : LayoutRendererFactory {
  using LayoutRendererFactory::LayoutRendererFactory;
  mutable std::vector<std::pair<bool, std::vector<int>>> made;
  std::unique_ptr<LayoutRendererBase> CreateRenderer(const std::vector<const AudioElementWithData*>& a, const std::vector<SubMixAudioElement>& b, const MixGainParamDefinition& c, const Layout& l, int32_t ch, uint32_t rate, uint32_t spf) const override {
    auto r = LayoutRendererFactory::CreateRenderer(a, b, c, l, ch, rate, spf); made.push_back({r != nullptr, {ch, (int)rate, (int)spf}}); return r;
  }
};

// --- elements
static const char* kIn[] = {"0+1+0", "0+2+0", "0+5+0", "2+5+0", "4+5+0", "0+7+0", "7.1.2", "4+7+0", "3.1.2", ""};
static const char* kWide[] = {"4+7+0", "4+5+0", "4+7+0", "4+7+0", "4+7+0", "4+7+0", "4+7+0", "4+7+0", "9.1.6", "9.1.6", "9.1.6", "9.1.6", "9.1.6", "9+10+3", "9+10+3", "9+10+3", "7.1.5.4", "7.1.5.4", "7.1.5.4", "7.1.5.4"};
static const char* kOut[] = {"0+2+0", "0+5+0", "2+5+0", "4+5+0", "4+5+1", "3+7+0", "4+9+0", "9+10+3", "0+7+0", "4+7+0", "7.1.2", "3.1.2", "0+1+0", "9.1.6", "7.1.5.4"};
struct El { int id; std::string in; std::string told; bool binaural = false; int most = 8; };
static El Make(st::Element& e) {
  El r; r.id = e.id; Obj j;
  const int k = R->In(0, 9);
  if (k < 3) {
    e.type = 1; const int order = R->P(90) ? R->In(0, 4) : 5, ch = (order + 1) * (order + 1); st::W w; r.in = "A" + std::to_string(order);
    if (R->P(60)) {
      const int used = order == 5 ? R->In(1, 25) : R->P(40) ? ch : R->In(1, ch); std::vector<int> map, pos;
      for (int i = 0; i < used; ++i) map.push_back(i);
      while ((int)map.size() < std::min(ch, 25)) map.push_back(R->P(97) ? 255 : R->In(0, used - 1));
      if (R->P(60)) for (int i = map.size() - 1; i > 0; --i) std::swap(map[i], map[R->In(0, i)]);
      while ((int)map.size() < ch) map.push_back(255);
      w.leb(0).u8(ch).u8(used); for (int m : map) w.u8(m);
      el::Number(e, used); j = Obj().f("t", "mono").f("count", used).f("map", map);
    } else {
      const int n = R->In(1, std::min(ch, 25)), pairs = R->In(0, n / 2), subs = n - pairs; std::vector<std::vector<int>> d; w.leb(1).u8(ch).u8(subs).u8(pairs);
      for (int i = 0; i < n; ++i) { d.emplace_back(ch, 0); for (int q = R->In(0, 2); q > 0; --q) d[i][R->In(0, ch - 1)] = R->In(-4, 3); for (int v : d[i]) w.u16((uint16_t)(v * 8192)); }
      el::Number(e, subs); r.most = 4; j = Obj().f("t", "projection").f("channels", ch).f("count", subs).f("pairs", pairs).f("d", d);
    }
    e.config = w.b;
  } else if (k == 3) { const int x = R->In(0, 19); j = el::Channels(e, {el::One(15, x)}); r.in = kWide[x]; }
  else if (k < 6) {
    std::vector<st::Layer> ls; const int* prev = nullptr;
    for (int n = R->In(2, 4); n > 0; --n) {
      std::vector<int> fits; for (int l = 0; l < 9; ++l) if (!prev ? l < 4 : el::N[l] != prev && el::N[l][0] >= prev[0] && el::N[l][1] >= prev[1] && el::N[l][2] >= prev[2]) fits.push_back(l);
      if (fits.empty()) break;
      st::Layer y{R->Pick(fits), 0, 0}; el::Counts(prev, el::N[y.layout], y.coupled, y.subs); prev = el::N[y.layout]; ls.push_back(y);
    }
    j = el::Channels(e, ls); r.in = kIn[ls.back().layout];
  } else { const int l = R->P(25) ? 7 : R->P(15) ? 9 : R->In(0, 9); j = el::Channels(e, {el::One(l)}); r.in = kIn[l]; r.binaural = l == 9; }
  r.told = j.end().s; return r;
}
static std::string Rawn(const std::vector<std::vector<double>>& m) {
  std::string s = "["; for (auto& row : m) { s += s.size() > 1 ? ",[" : "["; bool c = false; for (double v : row) { s += (c ? "," : "") + std::to_string((int)std::lround(v * 1e6)); c = true; } s += "]"; } return s + "]";
}
// --- gains in tens of powers of ten
static int Power() { return R->P(45) ? 0 : R->In(-1, 1); }
static MixGainParamDefinition Gain(int pid, int rate, int k) { MixGainParamDefinition d(ParamDefinition::BaseArgs{.parameter_id = (uint32_t)pid, .parameter_rate = (uint32_t)rate}); d.default_mix_gain_ = QFormatOrFloatingPoint::MakeFromQ7_8(k * 5120); return d; }

static void Run() {
  std::map<Place, Slot> slots; S = &slots; const bool t0 = R->P(90), t1 = R->P(90), on = R->P(95), ears = R->P(80);
  const int rate = R->P(80) ? 48000 : 44100, spf = R->In(4, 8);
  DescriptorObus::CodecConfigsById codecs; std::vector<Raw> cj;
  auto codec = [&](int id, int n, int r, int bits) { const Bytes b = st::LpcmConfig(id, n, r, bits, true); codecs.emplace(id, el::Parse<CodecConfigObu>(b).value()); cj.push_back(Obj().f("id", id).f("spf", n).f("rate", r).f("bits", bits).end()); };
  codec(0, spf, rate, 16); codec(1, spf, rate, 24); codec(2, spf + 1, rate, 16); codec(3, spf, 96000, 16);
  DescriptorObus::AudioElementsById elements; std::vector<El> els; std::vector<Raw> ej; el::next_sub = R->In(0, 9);
  for (int n = R->In(1, 4), i = 0; i < n; ++i) {
    st::Element e; e.id = 10 + i; e.codec = R->P(94) ? R->P(80) ? 0 : 1 : R->In(2, 3); El x = Make(e);
    auto o = el::Parse<AudioElementObu>(st::ElementPayload(e)); if (!o.ok()) continue;
    auto d = ObuWithDataGenerator::GenerateAudioElementWithData(codecs, *o); if (!d.ok()) continue;
    std::vector<int> ids; for (auto s : e.subs) ids.push_back(s);
    elements.emplace(x.id, std::move(*d)); ej.push_back(Obj().f("id", x.id).f("codec", (int)e.codec).f("ids", ids).raw("c", x.told).end()); els.push_back(x);
  }
  if (els.empty()) return;
  // --- mixes
  DescriptorObus::MixPresentationObus mixes; std::vector<Raw> mj; std::map<std::string, std::string> mats; Ears ear; ear.spf = spf; ear.rate = rate; std::set<Place> dry; int serial = 0; std::vector<Place> all;
  for (int n = R->P(60) ? 1 : R->In(0, 3), i = 0; i < n; ++i) {
    const int mid = 40 + i; std::vector<MixPresentationSubMix> subs; std::vector<Raw> sj;
    for (int m = R->P(75) ? 1 : 2, b = 0; b < m; ++b) {
      MixPresentationSubMix s; std::vector<Raw> aj, lj; std::vector<int> order; for (size_t q = 0; q < els.size(); ++q) order.push_back(q);
      for (int q = (int)order.size() - 1; q > 0; --q) std::swap(order[q], order[R->In(0, q)]);
      order.resize(std::min<int>(order.size(), R->In(1, 3))); bool allbin = true;
      for (int q : order) if (!els[q].binaural) allbin = false;
      for (int q : order) {
        const int pid = R->In(1, 6), pr = R->P(98) ? rate : 16000, k = Power(), id = R->P(99) ? els[q].id : 77, mode = allbin ? R->In(0, 2) : R->P(50) ? 0 : 2;
        RenderingConfig rc; rc.headphones_rendering_mode = static_cast<RenderingConfig::HeadphonesRenderingMode>(mode);
        s.audio_elements.push_back({.audio_element_id = (uint32_t)id, .localized_element_annotations = {}, .rendering_config = std::move(rc), .element_mix_gain = Gain(pid, pr, k)});
        aj.push_back(Obj().f("id", id).f("mode", mode).f("pid", pid).f("rate", pr).f("k", k).end());
      }
      const int pid = R->In(1, 6), pr = R->P(98) ? rate : 16000, k = Power(); s.output_mix_gain = Gain(pid, pr, k);
      for (int q = R->P(60) ? 1 : 2, a = 0; a < q; ++a) {
        MixPresentationLayout y; int t = R->P(85) ? 2 : R->P(80) ? 3 : R->In(0, 1), ss = t == 2 ? R->P(97) ? R->In(0, 14) : 15 : 0;
        if (t == 2 && R->P(30)) ss = R->Pick(std::vector<int>{9, 10, 11, 13, 7, 14});
        y.loudness_layout.layout_type = static_cast<Layout::LayoutType>(t);
        if (t == 2) y.loudness_layout.specific_layout = LoudspeakersSsConventionLayout{.sound_system = static_cast<LoudspeakersSsConventionLayout::SoundSystem>(ss)}; else y.loudness_layout.specific_layout = LoudspeakersReservedOrBinauralLayout{};
        const Place p{mid, b, a}; const int tag = ++serial; y.loudness = {.info_type = (uint8_t)R->In(0, 1), .integrated_loudness = (int16_t)tag, .digital_peak = (int16_t)R->In(-9, 9), .true_peak = (int16_t)R->In(-9, 9)};
        ear.at[tag] = p; LoudnessInfo said = y.loudness; if (R->P(40)) { if (R->P(12)) said.integrated_loudness += R->P(50) ? 100 : -100; if (R->P(12)) said.digital_peak += R->P(50) ? 50 : -50; if (R->P(40)) said.true_peak += R->P(50) ? 50 : -50; if (R->P(50)) said.info_type ^= 1; }
        ear.told[p] = said; if (R->P(20)) ear.none.insert(p); if (R->P(40)) dry.insert(p);
        auto& slot = slots[p]; slot.sick = R->P(2); slot.deaf = R->P(2); slot.mute = R->P(2); all.push_back(p);
        auto info = [](const LoudnessInfo& l) { return Obj().f("type", (int)l.info_type).f("il", (int)l.integrated_loudness).f("dp", (int)l.digital_peak).f("tp", (int)l.true_peak).end(); };
        lj.push_back(Obj().f("t", t).f("ss", ss).f("user", info(y.loudness)).f("said", info(said)).f("ear", !ear.none.count(p)).f("wet", !dry.count(p)).f("sick", slot.sick).f("deaf", slot.deaf).f("mute", slot.mute).end());
        const std::string out = t == 2 && ss <= 14 ? kOut[ss] : t == 3 ? "0+2+0" : "";
        if (!out.empty()) for (int e : order) if (!els[e].in.empty()) { const std::string key = els[e].in + ">" + out; if (!mats.count(key)) { auto g = GetGainsForLayoutPair(els[e].in, out); mats[key] = g.ok() ? Rawn(*g) : "[]"; } }
        s.layouts.push_back(y);
      }
      subs.push_back(s); sj.push_back(Obj().f("els", aj).f("pid", pid).f("rate", pr).f("k", k).f("layouts", lj).end());
    }
    mixes.emplace_back(ObuHeader(), mid, 0, std::vector<std::string>{}, std::vector<std::string>{}, subs); mj.push_back(Obj().f("id", mid).f("subs", sj).end());
  }
  std::vector<Raw> tj; for (auto& [k, m] : mats) tj.push_back(Obj().f("in", k.substr(0, k.find('>'))).f("out", k.substr(k.find('>') + 1)).raw("m", m).end());
  Ev("begin").f("codecs", cj).f("els", ej).f("mixes", mj).f("mats", tj).f("t0", t0).f("t1", t1).f("on", on).f("ears", ears);
  Renderers rf(TrimmingSettings{.trim_beginning = t0, .trim_end = t1}); std::vector<Raw> pj;
  auto proc = [&](DecodedUleb128 mix, size_t sub, size_t lay, const Layout& l, int ch, int r, int bits, size_t n) -> std::unique_ptr<SampleProcessorBase> {
    const Place p{(int)mix, (int)sub, (int)lay}; pj.push_back(Obj().f("mix", p.mix).f("sub", p.sub).f("lay", p.lay).f("t", (int)l.layout_type).f("ch", ch).f("rate", r).f("bits", bits).f("spf", (int)n).end());
    if (dry.count(p)) return nullptr;
    return std::make_unique<Twice>(n, ch, &slots[p]);
  };
  auto f = RenderingMixPresentationFinalizer::Create(on ? &rf : nullptr, ears ? &ear : nullptr, elements, RenderingMixPresentationFinalizer::SampleProcessorFactory(proc), mixes);
  { std::vector<Raw> mk; for (auto& [ok, a] : rf.made) mk.push_back(Obj().f("ok", ok).f("a", a).end()); Ev("create").f("ok", f.ok()).f("made", mk).f("procs", pj).f("odd", ear.odd); }
  if (!f.ok()) return;
  int64_t at = R->In(0, 3) * spf; const bool tidy = R->P(60);
  for (int n = R->In(1, 6); n > 0; --n) {
    const int act = tidy && n <= 2 && R->P(70) ? (n == 2 ? 0 : 1) : R->In(0, 9);
    switch (act) {
      case 0: { if (tidy && n > 2) { ++n; break; }
        std::map<Place, int> before; for (auto& [p, s] : slots) before[p] = s.flushed;
        auto s = f->FinalizePushingTemporalUnits(); std::vector<Raw> fj; for (auto& p : all) fj.push_back(Raw{Js(slots[p].flushed - before[p])}); Ev("finish").f("ok", s.ok()).f("flushed", fj); break; }
      case 1: { if (tidy && n > 1) { ++n; break; }
        const bool check = R->P(50); auto s = f->GetFinalizedMixPresentationObus(check); std::vector<Raw> lj;
        if (s.ok()) { int k = 0; for (auto& m : *s) { int b = 0; for (auto& u : m.sub_mixes_) { int a = 0; for (auto& y : u.layouts) { auto& l = y.loudness; lj.push_back(Obj().f("mix", (int)m.GetMixPresentationId()).f("sub", b).f("lay", a).f("l", Obj().f("type", (int)l.info_type).f("il", (int)l.integrated_loudness).f("dp", (int)l.digital_peak).f("tp", (int)l.true_peak).end()).end()); ++a; } ++b; } ++k; } }
        Ev("get").f("check", check).f("ok", s.ok()).f("ls", lj); if (!s.ok() && R->P(70)) break; if (!s.ok()) break; break; }
      case 2: { Place p = all.empty() || R->P(40) ? Place{R->In(39, 44), R->In(0, 2), R->In(0, 2)} : R->Pick(all); auto s = f->GetPostProcessedSamplesAsSpan(p.mix, p.sub, p.lay);
        Ev("see").f("mix", p.mix).f("sub", p.sub).f("lay", p.lay).f("ok", s.ok()).f("y", s.ok() ? Ints(*s) : std::vector<std::vector<int>>{}); break; }
      default: {
        IdLabeledFrameMap frames; std::vector<Raw> fj; const int full = R->P(80) ? spf : R->In(0, spf), a = R->P(75) ? 0 : R->In(0, full), z = R->P(75) ? 0 : R->In(0, full - a);
        for (auto& x : els) {
          if (R->P(2)) continue;
          const auto& d = elements.at(x.id); LabeledFrame fr{}; std::set<ChannelLabel::Label> want; std::vector<Raw> sj; std::string js;
          if (auto* c = std::get_if<ScalableChannelLayoutConfig>(&d.obu.config_)) { for (auto& y : c->channel_audio_layer_configs) { auto l = ChannelLabel::LookupEarChannelOrderFromScalableLoudspeakerLayout(y.loudspeaker_layout, y.expanded_loudspeaker_layout); if (l.ok()) want.insert(l->begin(), l->end()); } }
          for (auto& [id, ls] : d.substream_id_to_labels) want.insert(ls.begin(), ls.end());
          for (int q = R->In(0, 2); q > 0; --q) want.insert(static_cast<ChannelLabel::Label>(R->In(1, (int)ChannelLabel::kBtFR)));
          want.erase(ChannelLabel::kOmitted); const int len = R->P(97) ? full : R->In(0, spf + 1);
          fr.samples_to_trim_at_start = R->P(99) ? a : R->In(0, 9); fr.samples_to_trim_at_end = R->P(98) ? z : R->P(90) ? R->In(0, 9) : 4294967295u;
          auto put = [&](ChannelLabel::Label l) {
            std::vector<int> v; const bool quiet = R->P(30); for (int t = R->P(99) || len == 0 ? len : len - 1; t > 0; --t) v.push_back(quiet || R->P(30) ? 0 : R->In(-x.most, x.most));
            std::vector<double> q; for (int s : v) q.push_back(s / 16.0);
            fr.label_to_samples[l] = q; js += (js.empty() ? "" : ",") + Js(ChannelLabel::LabelToStringForDebugging(l)) + ":" + Js(v);
          };
          for (auto l : want) {
            if (R->P(1) && R->P(50)) continue;
            auto dm = ChannelLabel::GetDemixedLabel(l); const bool has = dm.ok() && !want.count(*dm);
            if (has && R->P(30)) { put(*dm); if (R->P(20)) put(l); } else put(l);
          }
          auto& m = fr.demixing_params; const bool in = R->P(35); const int al = R->In(0, 4), be = R->In(0, 4), ga = R->In(0, 4), de = R->In(0, 4), w = R->In(0, 4);
          m = {al / 4.0, be / 4.0, ga / 4.0, de / 4.0, 0, 0, w / 4.0, in};
          fj.push_back(Obj().f("id", x.id).f("a", (int)fr.samples_to_trim_at_start).f("z", fr.samples_to_trim_at_end > 1000 ? 1000 : (int)fr.samples_to_trim_at_end).raw("x", "{" + js + "}").f("in", in).f("dm", std::vector<int>{al, be, ga, de, w}).end());
          frames.emplace(x.id, std::move(fr));
        }
        std::list<ParameterBlockWithData> blocks; std::vector<Raw> bj; std::vector<std::unique_ptr<MixGainParamDefinition>> defs; const int64_t end = at + spf;
        for (int pid = 1; pid <= 6; ++pid) if (R->P(30)) {
          defs.push_back(std::make_unique<MixGainParamDefinition>(ParamDefinition::BaseArgs{.parameter_id = (uint32_t)pid, .parameter_rate = (uint32_t)rate})); std::vector<std::vector<int>> sub; std::vector<uint32_t> ds;
          // while samples are cut off at the start, the gain does not move
          if (a > 0 || R->P(40)) sub.push_back({spf, Power()}); else { int left = spf; while (left > 0) { const int q = R->In(1, left); sub.push_back({q, Power()}); ds.push_back(q); left -= q; } }
          absl::StatusOr<SubblockSchedule> sc = sub.size() == 1 ? SubblockSchedule::CreateWithConstantSubblockDuration(spf, spf) : SubblockSchedule::CreateWithVariableSubblockDuration(ds);
          if (!sc.ok()) continue;
          auto o = ParameterBlockObu::CreateMode1(ObuHeader(), *defs.back(), *sc); if (o == nullptr) continue;
          for (size_t q = 0; q < sub.size(); ++q) o->subblocks_[q] = std::make_unique<MixGainParameterData>(AnimationStepInt16{.start_point_value = (int16_t)(sub[q][1] * 5120)});
          const int64_t s = R->P(99) ? at : at + 1, e = R->P(99) ? end : end - 1;
          bj.push_back(Obj().f("id", pid).f("s", (int)s).f("e", (int)e).f("g", sub).end()); blocks.push_back({.obu = std::move(o), .start_timestamp = s, .end_timestamp = e});
        }
        for (auto& [p, s] : slots) { s.saw.clear(); s.listened.clear(); }
        std::map<Place, std::pair<int, int>> before; for (auto& [p, s] : slots) before[p] = {s.frames, s.heard};
        auto s = f->PushTemporalUnit(frames, at, end, blocks); std::vector<Raw> oj;
        for (auto& p : all) {
          auto g = f->GetPostProcessedSamplesAsSpan(p.mix, p.sub, p.lay); auto& t = slots[p];
          oj.push_back(Obj().f("mix", p.mix).f("sub", p.sub).f("lay", p.lay).f("there", g.ok()).f("y", g.ok() ? Ints(*g) : std::vector<std::vector<int>>{}).f("n", t.frames - before[p].first).f("saw", t.saw).f("h", t.heard - before[p].second).f("same", t.listened == t.saw).f("heard", t.frames ? std::vector<std::vector<int>>{} : t.listened).end());
        }
        Ev("push").f("from", (int)at).f("to", (int)end).f("frames", fj).f("blocks", bj).f("ok", s.ok()).f("out", oj); if (s.ok() || R->P(50)) at = end;
      }
    }
  }
}
int main(int argc, char** argv) {
  Init(argc, argv); Rng rng(ArgI("seed", 1)); R = &rng; el::R = &rng;
  for (long n = ArgI("n", 10), i = 0; i < n; ++i) Run();
  return 0;
}
