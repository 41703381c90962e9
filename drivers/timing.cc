// T01, T02: the clocks of substreams and parameters; the parameters in force.
#include <cmath>
#include "elems.h"
#include "iamf/cli/global_timing_module.h"
#include "iamf/cli/obu_processor.h"
#include "iamf/cli/parameters_manager.h"
#include "iamf/obu/demixing_info_parameter_data.h"
#include "iamf/obu/param_definitions/param_definition_variant.h"
#include "iamf/obu/parameter_block.h"
#include "iamf/obu/recon_gain_info_parameter_data.h"
using namespace el;
using namespace vt;

static Raw T(int64_t t) { return Raw{Limbs((uint64_t)t)}; }
struct Dm { uint32_t id; int mode, w; };
struct El { st::Element e; std::vector<Dm> dm; std::vector<uint32_t> rg; int layers = 1; std::vector<int> flags; };
static int Milli(double v, double k) { const double x = v * k; return std::fabs(x - std::round(x)) < 1e-9 ? (int)std::round(x) : -77777; }
static Raw Mix(const DownMixingParams& p) {
  return Obj().f("p", std::vector<int>{Milli(p.alpha, 1e3), Milli(p.beta, 1e3), Milli(p.gamma, 1e3), Milli(p.delta, 1e3)}).f("w", Milli(p.w, 1e4)).f("idx", p.w_idx_used).f("coded", p.in_bitstream).end();
}
static Raw Layer(const std::optional<ReconGainElement>& e) {
  if (!e) return {"[]"};
  return {"[" + Obj().f("flag", (int)e->recon_gain_flag).f("g", std::vector<int>(e->recon_gain.begin(), e->recon_gain.end())).end().s + "]"};
}
static Raw Rec(const ReconGainInfoParameterData& d) { std::vector<Raw> v; for (auto& e : d.recon_gain_elements) v.push_back(Layer(e)); return {Js(v)}; }
static Raw Told(const El& x) {
  std::vector<int> s(x.e.subs.begin(), x.e.subs.end()); std::vector<Raw> d;
  for (auto& m : x.dm) d.push_back(Obj().f("id", m.id).f("mode", m.mode).f("w", m.w).end());
  return Obj().f("id", x.e.id).f("subs", s).f("dm", d).f("rg", x.rg).f("layers", x.layers).f("flags", x.flags).end();
}
static Bytes Params(const El& x, int dmdur, int rgdur, int rate) {
  st::W w; w.leb(x.dm.size() + x.rg.size());
  for (auto& m : x.dm) w.leb(1).leb(m.id).leb(rate).u8(0).leb(dmdur).leb(dmdur).u8(m.mode << 5).u8(m.w << 4);
  for (auto& r : x.rg) w.leb(2).leb(r).leb(rate).u8(0).leb(rgdur).leb(rgdur);
  return w.b;
}
// a channel-based element of one or more layers
static El Make(int id) {
  El x; x.e.id = id; x.e.codec = 0;
  std::vector<st::Layer> ls; const int n = R->In(1, 3); static const int lad[3] = {0, 1, 2};
  const int* prev = nullptr;
  for (int k = n == 1 ? R->In(0, 2) : 0; (int)ls.size() < n; ++k) {
    st::Layer y{lad[k], 0, 0}; Counts(prev, N[lad[k]], y.coupled, y.subs); prev = N[lad[k]]; ls.push_back(y);
  }
  x.layers = n;
  for (auto& l : ls) { l.recon = R->P(50); x.flags.push_back(l.recon); }
  Channels(x.e, ls);
  return x;
}
static uint32_t Dur() { return R->P(85) ? R->In(0, 3000) : R->P(50) ? 4294967295u - R->In(0, 2) : (uint32_t)R->Next(); }

static void Clocks() {
  next_sub = 0; const int n = R->In(0, 3); std::vector<std::vector<int>> els; std::vector<int> ids;
  auto cc = Parse<CodecConfigObu>(st::LpcmConfig(0, 8, 48000, 16, true));
  DescriptorObus::AudioElementsById by; std::vector<El> es;
  for (int i = 0; i < n; ++i) {
    El x = Make(i);
    if (R->P(4) && i && !es.empty()) x.e.subs.back() = es[0].e.subs[0];
    auto o = Parse<AudioElementObu>(st::ElementPayload(x.e));
    if (!o.ok()) std::abort();
    SubstreamIdLabelsMap labels; for (auto s : x.e.subs) labels[s] = {ChannelLabel::kMono};
    by.insert({(uint32_t)i, AudioElementWithData{.obu = *std::move(o), .codec_config = &*cc, .substream_id_to_labels = labels}});
    els.emplace_back(x.e.subs.begin(), x.e.subs.end()); es.push_back(x); for (auto s : x.e.subs) ids.push_back(s);
  }
  absl::flat_hash_map<DecodedUleb128, ParamDefinitionVariant> defs; std::vector<Raw> ps; std::vector<std::shared_ptr<MixGainParamDefinition>> held;
  std::vector<int> pids;
  for (int i = R->In(0, 4); i > 0; --i) {
    const int id = i * 3 + R->In(0, 2), rate = R->P(97) ? 48000 : 0;
    held.push_back(std::make_shared<MixGainParamDefinition>(ParamDefinition::BaseArgs{.parameter_id = (uint32_t)id, .parameter_rate = (uint32_t)rate}));
    defs.insert({(uint32_t)id, *held.back()}); ps.push_back(Obj().f("id", id).f("rate", rate).end()); pids.push_back(id);
  }
  auto g = GlobalTimingModule::Create(by, defs);
  auto pm = ParametersManager::Create(by);
  Ev("clocks").f("els", els).f("params", ps).f("ok", g != nullptr);
  if (!g) return;
  std::map<uint32_t, int64_t> at;
  for (int k = R->In(5, 40); k > 0; --k) {
    const int what = R->In(0, 99); InternalTimestamp a = -1, b = -1;
    if (what < 35) {
      const uint32_t d = Dur(); const int id = ids.empty() || R->P(5) ? R->In(0, 99) : R->Pick(ids);
      const bool ok = g->GetNextAudioFrameTimestamps(id, d, a, b).ok();
      Ev("frame").f("id", id).raw("dur", T(d).s).f("ok", ok).raw("start", T(a).s).raw("end", T(b).s);
    } else if (what < 50 && !es.empty()) {  // all substreams of an element, from frames of the bitstream
      const El& x = R->Pick(es); auto& aw = by.at(x.e.id); const bool wrong = R->P(8);
      for (int q = 0; q < (int)x.e.subs.size(); ++q) {
        const uint32_t s = wrong ? 77 : x.e.subs[q];
        AudioFrameObu f(ObuHeader{.num_samples_to_trim_at_end = (uint32_t)R->In(0, 3)}, s, std::vector<uint8_t>(3));
        auto r = ObuWithDataGenerator::GenerateAudioFrameWithData(aw, f, *g, **pm);
        if (r.ok()) { a = r->start_timestamp; b = r->end_timestamp; }
        Ev("frame").f("id", (int)s).raw("dur", T(8).s).f("ok", r.ok()).raw("start", T(a).s).raw("end", T(b).s);
      }
    } else if (what < 90) {
      const int id = pids.empty() || R->P(5) ? R->In(0, 99) : R->Pick(pids); const uint32_t d = Dur();
      const int64_t from = R->P(90) ? at[id] : at[id] + R->In(-2, 2); bool ok;
      if (R->P(50)) ok = g->GetNextParameterBlockTimestamps(id, from, d, a, b).ok();
      else {
        const uint32_t dd = d ? d : 1;
        MixGainParamDefinition def(ParamDefinition::BaseArgs{.parameter_id = (uint32_t)id, .parameter_rate = 1});
        auto o = ParameterBlockObu::CreateMode1(ObuHeader(), def, *SubblockSchedule::CreateWithConstantSubblockDuration(dd, dd));
        auto r = ObuWithDataGenerator::GenerateParameterBlockWithData(from, *g, std::move(o));
        ok = r.ok(); if (ok) { a = r->start_timestamp; b = r->end_timestamp; }
        if (defs.contains(id)) at[id] += dd;
        Ev("block").f("id", id).raw("at", T(from).s).raw("dur", T(dd).s).f("ok", ok).raw("start", T(a).s).raw("end", T(b).s);
        continue;
      }
      if (defs.contains(id)) at[id] += d;
      Ev("block").f("id", id).raw("at", T(from).s).raw("dur", T(d).s).f("ok", ok).raw("start", T(a).s).raw("end", T(b).s);
    } else {
      std::optional<InternalTimestamp> t; const bool ok = g->GetGlobalAudioFrameTimestamp(t).ok(); std::vector<Raw> v; if (t) v.push_back(T(*t));
      Ev("common").f("ok", ok).f("t", v);
    }
  }
}

// the parameters manager by itself
static std::unique_ptr<ParameterData> Data(int mode) { auto d = std::make_unique<DemixingInfoParameterData>(); d->dmixp_mode = (DemixingInfoParameterData::DMixPMode)mode; return d; }
static std::optional<ReconGainElement> RandomLayer() {
  if (R->P(25)) return std::nullopt;
  ReconGainElement e; e.recon_gain_flag = R->In(0, 4095); for (auto& g : e.recon_gain) g = R->In(0, 255); return e;
}
static void Manager() {
  next_sub = 0; const int n = R->In(1, 3); DescriptorObus::AudioElementsById by; std::vector<El> es; std::vector<Raw> js;
  const bool share = n > 1 && R->P(40); const Dm common{20, 0 + (int)R->Pick(std::vector<int>{0, 1, 2, 4, 5, 6}), (int)R->In(0, 10)};
  auto cc = Parse<CodecConfigObu>(st::LpcmConfig(0, 8, 48000, 16, true));
  bool twice = false;
  for (int i = 0; i < n; ++i) {
    El x = Make(10 * i + 3);
    if (share) x.dm = {common};
    else if (R->P(75)) x.dm = {{uint32_t(30 + i), (int)R->Pick(std::vector<int>{0, 1, 2, 4, 5, 6}), (int)(R->P(95) ? R->In(0, 10) : R->In(11, 15))}};
    if (R->P(60)) x.rg = {uint32_t(40 + i)};
    x.e.params = Params(x, 8, 8, 48000);
    auto o = Parse<AudioElementObu>(st::ElementPayload(x.e));
    if (!o.ok()) std::abort();
    if (R->P(2)) { for (auto& p : std::vector<AudioElementParam>(o->audio_element_params_)) if (!twice) { o->audio_element_params_.push_back(p); twice = true; } }
    by.insert({x.e.id, AudioElementWithData{.obu = *std::move(o), .codec_config = &*cc}});
    es.push_back(x); js.push_back(Told(x));
  }
  auto made = ParametersManager::Create(by);
  Ev("manager").f("els", js).f("twice", twice).f("ok", made.ok());
  if (!made.ok()) return;
  auto& m = **made;
  std::vector<std::unique_ptr<ParameterBlockWithData>> held;
  auto block = [&](const ParamDefinition& d, int64_t s, int64_t e) {
    auto o = ParameterBlockObu::CreateMode0(ObuHeader(), d);
    held.push_back(std::make_unique<ParameterBlockWithData>(ParameterBlockWithData{std::move(o), s, e})); return held.back().get();
  };
  ParamDefinition::BaseArgs args{.parameter_rate = 48000, .schedule = *SubblockSchedule::CreateWithConstantSubblockDuration(8, 8)};
  const int habit = R->In(0, 7); const int sure = R->P(60) ? 100 : R->In(50, 95);
  int64_t t = 0; bool stop = false;
  auto look = [&](const El& x) {
    if (R->P(8)) Ev("has").f("id", (int)x.e.id).f("is", m.DemixingParamDefinitionAvailable(x.e.id));
    DownMixingParams p; const bool ok = m.GetDownMixingParameters(x.e.id, p).ok();
    { Ev ev("getdm"); ev.f("id", (int)x.e.id).f("ok", ok); if (ok) ev.f("v", Mix(p)); }
    if (!ok) stop = true;
    ReconGainInfoParameterData d; const int layers = R->P(90) ? x.layers : R->In(0, 4);
    const bool ok2 = m.GetReconGainInfoParameterData(x.e.id, layers, d).ok();
    { Ev ev("getrg"); ev.f("id", (int)x.e.id).f("layers", layers).f("ok", ok2); if (ok2) ev.f("v", Rec(d)); }
  };
  for (int u = R->In(1, 18); u > 0 && !stop; --u) {
    std::vector<uint32_t> done;
    for (auto& x : es) {
      for (auto& d : x.dm) if (R->P(sure) && std::find(done.begin(), done.end(), d.id) == done.end()) {
        done.push_back(d.id); args.parameter_id = d.id; DemixingParamDefinition def(args);
        const int mode = R->P(80) ? habit : R->In(0, 7), off = R->P(98) ? 0 : R->In(-1, 1), ext = R->P(98) ? 0 : R->In(-1, 1);
        auto* b = block(def, t + off, t + 8 + ext); b->obu->subblocks_[0] = Data(mode);
        if (R->P(3)) look(x);
        m.AddDemixingParameterBlock(b);
        Ev("adddm").f("id", d.id).f("start", t + off).f("end", t + 8 + ext).f("mode", mode);
      }
      for (auto id : x.rg) if (R->P(sure)) {
        args.parameter_id = id; ReconGainParamDefinition def(args, x.e.id);
        const int off = R->P(98) ? 0 : R->In(-1, 1); auto* b = block(def, t + off, t + 8);
        std::vector<Raw> data;
        if (R->P(98)) {
          auto v = std::make_unique<ReconGainInfoParameterData>(); const int nl = R->P(97) ? x.layers : R->In(0, 4);
          for (int l = 0; l < nl; ++l) { v->recon_gain_elements.push_back(RandomLayer()); v->recon_gain_is_present_flags.push_back(true); }
          data.push_back(Rec(*v)); b->obu->subblocks_[0] = std::move(v);
        } else b->obu->subblocks_.clear();
        m.AddReconGainParameterBlock(b);
        Ev("addrg").f("id", id).f("start", t + off).f("end", t + 8).f("data", data);
      }
      if (R->P(3)) { args.parameter_id = 99; DemixingParamDefinition def(args); auto* b = block(def, t, t + 8); b->obu->subblocks_[0] = Data(1); m.AddDemixingParameterBlock(b); Ev("adddm").f("id", 99).f("start", t).f("end", t + 8).f("mode", 1); }
    }
    for (auto& x : es) for (int k = R->P(15) ? 2 : 1; k > 0; --k) look(x);
    if (R->P(5)) { El x; x.e.id = 500; look(x); }
    t += 8;
    if (stop) break;
    if (R->P(3)) { const bool ok = m.UpdateDemixingState(501, t).ok(); Ev("upddm").f("id", 501).f("t", t).f("ok", ok); }
    for (auto& x : es) {
      const int64_t at = R->P(98) ? t : t + R->In(-1, 1);
      const bool ok = m.UpdateDemixingState(x.e.id, at).ok(); Ev("upddm").f("id", (int)x.e.id).f("t", at).f("ok", ok);
      const bool ok2 = m.UpdateReconGainState(x.e.id, at).ok(); Ev("updrg").f("id", (int)x.e.id).f("t", at).f("ok", ok2);
      if (!ok || !ok2) stop = true;
    }
  }
}

// a bitstream: descriptors, then units of blocks and frames
static void Whole() {
  next_sub = 0; const int frame = R->P(50) ? 8 : 960, n = R->In(1, 3); std::vector<El> es; std::vector<Raw> js; Bytes all = st::Obu({31}, st::SequenceHeader(1, 1));
  auto put = [&](st::Hdr h, const Bytes& b) { const Bytes o = st::Obu(h, b); all.insert(all.end(), o.begin(), o.end()); };
  put({0}, st::LpcmConfig(0, frame, 48000, 16, true));
  const bool share = n > 1 && R->P(40); const Dm common{20, (int)R->Pick(std::vector<int>{0, 1, 2, 4, 5, 6}), (int)R->In(0, 10)};
  const int odd = n == 1 && R->P(10) ? frame / 2 : frame;  // blocks that do not cover their frame
  st::Mix mix; mix.id = 1; st::SubMix sm; std::vector<int> gains;
  for (int i = 0; i < n; ++i) {
    El x = Make(10 * i + 3);
    if (share) x.dm = {common};
    else if (R->P(75)) x.dm = {{uint32_t(30 + i), (int)R->Pick(std::vector<int>{0, 1, 2, 4, 5, 6}), (int)R->In(0, 10)}};
    if (R->P(60) && odd == frame) x.rg = {uint32_t(40 + i)};
    x.e.params = Params(x, odd, frame, 48000); put({1}, st::ElementPayload(x.e));
    es.push_back(x); js.push_back(Told(x));
    sm.elements.push_back({x.e.id, 0, {uint32_t(60 + i), 48000}}); gains.push_back(60 + i);
  }
  sm.out = {70, 48000}; gains.push_back(70); sm.layouts = {{2, 0}}; mix.subs = {sm}; put({2}, st::MixPayload(mix));
  const bool delim = R->P(50); const int habit = R->Pick(std::vector<int>{0, 1, 2, 4, 5, 6}), sure = R->P(60) ? 100 : R->In(50, 95);
  std::vector<Raw> obus;
  for (int u = R->In(1, 14); u > 0; --u) {
    if (delim) { put({4}, {}); obus.push_back(Obj().f("t", "d").end()); }
    std::vector<std::pair<Raw, Bytes>> bs;
    auto add = [&](int id, const char* kind, int dur, int mode, std::vector<Raw> data, const Bytes& p) {
      bs.push_back({Obj().f("t", "b").f("id", id).f("kind", kind).f("dur", dur).f("mode", mode).f("data", data).end(), p});
    };
    std::vector<uint32_t> done;
    for (auto& x : es) {
      for (auto& d : x.dm) if (R->P(sure) && std::find(done.begin(), done.end(), d.id) == done.end()) {
        done.push_back(d.id);
        for (int k = R->P(97) ? 1 : 2; k > 0; --k) { const int mode = R->P(80) ? habit : R->Pick(std::vector<int>{0, 1, 2, 4, 5, 6}); add(d.id, "dm", odd, mode, {}, st::W().leb(d.id).u8(mode << 5).b); }
      }
      for (auto id : x.rg) if (R->P(sure)) {
        st::W w; w.leb(id); std::vector<Raw> ls;
        for (int f : x.flags) {
          if (!f) { ls.push_back({"[]"}); continue; }
          const int flag = R->In(0, 4095); w.leb(flag); std::vector<int> g;
          for (int k = 0; k < 12; ++k) { g.push_back(flag >> k & 1 ? R->In(0, 255) : 0); if (flag >> k & 1) w.u8(g.back()); }
          ls.push_back({"[" + Obj().f("flag", flag).f("g", g).end().s + "]"});
        }
        add(id, "rg", frame, 0, {Raw{Js(ls)}}, w.b);
      }
    }
    for (int id : gains) if (R->P(40)) {
      const int dur = R->P(95) ? frame : R->In(1, frame); add(id, "gain", dur, 0, {}, st::W().leb(id).leb(dur).leb(dur).leb(0).u16(0).b);
    }
    if (R->P(3)) add(99, "stray", frame, 0, {}, st::W().leb(99).leb(frame).leb(frame).leb(0).u16(0).b);
    for (size_t k = 1; k < bs.size(); ++k) std::swap(bs[k], bs[R->In(0, k)]);
    for (auto& b : bs) { put({3}, b.second); obus.push_back(b.first); }
    std::vector<std::pair<int, uint32_t>> fs;
    for (int i = 0; i < n; ++i) {
      int ch = 0; size_t k = 0;
      for (auto& l : es[i].e.layers) for (int q = 0; q < l.subs; ++q) { ch = q < l.coupled ? 2 : 1; fs.push_back({ch, es[i].e.subs[k++]}); }
    }
    for (size_t k = 1; k < fs.size(); ++k) std::swap(fs[k], fs[R->In(0, k)]);
    for (auto& f : fs) { put({st::FrameType(f.second)}, st::FramePayload(f.second, Bytes(f.first * frame * 2))); obus.push_back(Obj().f("t", "f").f("id", f.second).end()); }
  }
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(all);
  bool missing; auto p = ObuProcessor::Create(false, rb.get(), missing);
  std::vector<Raw> units; bool ok = p != nullptr;
  for (bool more = ok; more;) {
    std::optional<ObuProcessor::OutputTemporalUnit> u;
    if (!p->ProcessTemporalUnit(true, u, more).ok()) { ok = false; break; }
    if (!u) continue;
    std::vector<Raw> f, b;
    for (auto& x : u->output_audio_frames) f.push_back(Obj().f("id", (int)x.obu.GetSubstreamId()).f("start", x.start_timestamp).f("end", x.end_timestamp).f("dm", Mix(x.down_mixing_params)).f("rg", Rec(x.recon_gain_info_parameter_data)).end());
    for (auto& x : u->output_parameter_blocks) b.push_back(Obj().f("id", (int)x.obu->parameter_id_).f("start", x.start_timestamp).f("end", x.end_timestamp).end());
    units.push_back(Obj().f("t", u->output_timestamp).f("frames", f).f("blocks", b).end());
  }
  Ev("whole").f("frame", frame).f("els", js).f("gains", gains).f("obus", obus).f("ok", ok).f("units", units);
}

int main(int argc, char** argv) {
  Init(argc, argv); Rng r(ArgI("seed", 1)); R = &r;
  const std::string mode = Arg("mode", "t01");
  for (long k = ArgI("n", 100); k > 0; --k) {
    if (R->P(30)) Whole(); else if (mode == "t01") Clocks(); else Manager();
  }
  return 0;
}
