#ifndef BLOCKS_H_
#define BLOCKS_H_
// B04: parameter definitions, schedules, parameter blocks and gains per tick.
#include <cmath>
#include "iamf/obu/extension_parameter_data.h"
#include "iamf/obu/mix_gain_parameter_data.h"
#include "iamf/obu/obu_header.h"
#include "iamf/obu/parameter_block.h"
#include "iamf/obu/recon_gain_info_parameter_data.h"
#include "defs.h"
[[maybe_unused]] static void DefRead(int k, const Bytes& d) {
  Def x = Make(k, {}); if (k == 2) { x.layers.clear(); x.p = std::make_unique<ReconGainParamDefinition>(ParamDefinition::BaseArgs{}, 3); }
  auto rb = Rd(d); auto s = x.p->ReadAndValidate(*rb);
  if (!s.ok()) x = Make(k, {});
  Ev("dr").f("kind", kKinds[k]).f("d", I(d)).f("ok", s.ok()).f("pos", rb->Tell()).raw("x", DefJ(x));
}
// bytes in the shape of a definition, not always a good one
[[maybe_unused]] static Bytes Rough(int k) {
  Bytes d; auto leb = [&](D v) { auto g = LebGenerator::Create(); Bytes b; if (R->P(10)) g = LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, R->In(5, 8)); (void)g->Uleb128ToUint8Vector(v, b); d.insert(d.end(), b.begin(), b.end()); };
  leb(Num()); leb(R->P(80) ? 48000 : R->P(50) ? 0 : Num());
  if (R->P(75)) {
    d.push_back(R->P(80) ? 0 : R->In(0, 127)); D dur = R->P(70) ? R->In(0, 30) : Num(), c = R->P(40) ? dur : R->P(50) ? 0 : R->P(70) ? R->In(0, 12) : Num();
    const bool exact = R->P(70); std::vector<D> l; if (c == 0) { l = List(); if (exact) { uint64_t t = 0; for (auto x : l) t += x; dur = t; } }
    leb(dur); leb(c);
    if (c == 0) { leb(R->P(90) ? l.size() : Num()); for (auto x : l) leb(x); }
  } else d.push_back(R->In(128, 255));
  auto x = Some(R->In(0, 13)); d.insert(d.end(), x.begin(), x.end());
  return d;
}
[[maybe_unused]] static void Defs(int k) {
  Def x = AnyDef(k); int mode; auto gen = Gen(mode); WriteBitBuffer wb(R->In(0, 30), *gen);
  auto s = x.p->ValidateAndWrite(wb);
  Ev("dw").raw("x", DefJ(x)).f("mode", mode).f("ok", s.ok()).f("bytes", s.ok() ? I(wb.bit_buffer()) : std::vector<int>{});
  Bytes d = wb.bit_buffer();
  if (s.ok()) { DefRead(k, d); Spoil(d); DefRead(k, d); }
  DefRead(k, Rough(k));
}

// --- blocks
[[maybe_unused]] static MixGainParameterData Gain() {
  MixGainParameterData g; switch (R->In(0, 2)) {
    case 0: g.param_data = AnimationStepInt16{S16()}; break;
    case 1: g.param_data = AnimationLinearInt16{S16(), S16()}; break;
    default: g.param_data = AnimationBezierInt16{.start_point_value = S16(), .end_point_value = S16(), .control_point_value = S16(), .control_point_relative_time = (uint8_t)(R->P(70) ? R->In(0, 255) : R->P(50) ? 0 : 255)}; }
  return g;
}
[[maybe_unused]] static std::string GainJ(const MixGainParameterData& g) {
  std::vector<int> v;
  if (auto* s = std::get_if<AnimationStepInt16>(&g.param_data)) v = {s->start_point_value};
  if (auto* s = std::get_if<AnimationLinearInt16>(&g.param_data)) v = {s->start_point_value, s->end_point_value};
  if (auto* s = std::get_if<AnimationBezierInt16>(&g.param_data)) v = {s->start_point_value, s->end_point_value, s->control_point_value, s->control_point_relative_time};
  return Obj().f("t", (int)g.GetAnimationType()).f("v", v).end().s;
}
[[maybe_unused]] static std::unique_ptr<ParameterData> Data(const Def& x) {
  switch (x.k) {
    case 0: return std::make_unique<MixGainParameterData>(Gain());
    case 1: return std::make_unique<DemixingInfoParameterData>(static_cast<DemixingInfoParameterData::DMixPMode>(R->P(85) ? R->In(0, 2) : R->In(0, R->P(80) ? 7 : 9)), R->P(90) ? R->In(0, 31) : R->In(30, 34));
    case 2: { auto p = x.p->CreateParameterData(); auto* g = static_cast<ReconGainInfoParameterData*>(p.get());
      for (size_t i = 0; i < x.layers.size(); ++i) if (x.layers[i]) { ReconGainElement e{.recon_gain_flag = R->P(80) ? (D)R->In(0, 4095) : Num()}; for (auto& v : e.recon_gain) v = R->In(0, 255); g->recon_gain_elements[i] = e; }
      if (R->P(3) && !g->recon_gain_elements.empty()) { if (R->P(50)) g->recon_gain_elements.pop_back(); else for (size_t i = 0; i < x.layers.size(); ++i) if (x.layers[i]) { g->recon_gain_elements[i].reset(); break; } }
      return p; }
    case 9: { auto p = std::make_unique<ExtensionParameterData>(); p->parameter_data_bytes = Some(R->In(0, 4)); return p; }
    default: return x.p->CreateParameterData();
  }
}
[[maybe_unused]] static std::string DataJ(const Def& x, const ParameterData* p) {
  switch (x.k) {
    case 0: return GainJ(*static_cast<const MixGainParameterData*>(p));
    case 1: { auto* g = static_cast<const DemixingInfoParameterData*>(p); return Js(std::vector<int>{g->dmixp_mode, g->reserved}); }
    case 2: { auto* g = static_cast<const ReconGainInfoParameterData*>(p); std::string s = "[";
      for (size_t i = 0; i < g->recon_gain_elements.size(); ++i) { s += i ? "," : ""; auto& e = g->recon_gain_elements[i]; s += e ? "[" + Obj().f("f", Pr(e->recon_gain_flag)).f("g", I(e->recon_gain)).end().s + "]" : "[]"; }
      return s + "]"; }
    case 9: return Js(I(static_cast<const ExtensionParameterData*>(p)->parameter_data_bytes));
    default: return "[]";
  }
}
[[maybe_unused]] static std::string SubsJ(const Def& x, const ParameterBlockObu& o) { std::string s = "["; for (size_t i = 0; i < o.subblocks_.size(); ++i) s += (i ? "," : "") + DataJ(x, o.subblocks_[i].get()); return s + "]"; }
[[maybe_unused]] static std::string LongJ(const ParameterBlockObu& o) {
  std::vector<D> l; for (D i = 0; i < o.GetNumSubblocks() && i < 300; ++i) { auto v = o.GetSubblockDuration(i); l.push_back(v.ok() ? *v : 0xfffffffe); } return Js(Prs(l));
}
[[maybe_unused]] static void BlockRead(const Def& x, const Bytes& d, int64_t n) {
  auto rb = Rd(d);
  if (R->P(30)) { auto id = ParameterBlockObu::PeekParameterId(*rb); Ev("id").f("d", I(d)).f("ok", id.ok()).f("id", Pr(id.ok() ? *id : 0)).f("pos", rb->Tell()); }
  auto o = ParameterBlockObu::CreateFromBuffer(ObuHeader{.obu_type = kObuIaParameterBlock}, n, *x.p, *rb);
  Ev e("br"); e.raw("x", DefJ(x)).f("d", I(d)).f("n", n).f("ok", o.ok()).f("pos", rb->Tell());
  if (o.ok()) e.f("footer", I((*o)->footer_)).f("dur", Pr((*o)->GetDuration())).f("const", Pr((*o)->GetConstantSubblockDuration())).f("count", (int)(*o)->GetNumSubblocks()).raw("longs", LongJ(**o)).raw("subs", SubsJ(x, **o)).f("id", Pr((*o)->parameter_id_));
}
[[maybe_unused]] static void Strip(Bytes& b) { auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(b); ObuHeader h; int64_t n; if (h.ReadAndValidate(*rb, n).ok()) b.erase(b.begin(), b.end() - n); }
[[maybe_unused]] static void Block(int k) {
  Def x = AnyDef(k); while (x.p->GetSchedule() && x.p->GetSchedule()->GetNumSubblocks() > 400) x = AnyDef(k);
  std::optional<SubblockSchedule> s;
  if (!x.p->GetSchedule()) { do s = Sched(false); while (!s || s->GetNumSubblocks() > 40); if (k && R->P(50)) s = *SubblockSchedule::CreateWithConstantSubblockDuration(9, 9); }
  ObuHeader h{.obu_type = kObuIaParameterBlock};
  // the factory of the other mode gives nothing
  const bool other = R->P(50) && (x.p->GetSchedule() ? ParameterBlockObu::CreateMode1(h, *x.p, s ? *s : *x.p->GetSchedule()) : ParameterBlockObu::CreateMode0(h, *x.p)) != nullptr;
  auto o = s ? ParameterBlockObu::CreateMode1(h, *x.p, *s) : ParameterBlockObu::CreateMode0(h, *x.p);
  if (!o) { Ev("none").f("other", other); return; }
  const int made = o->subblocks_.size();
  for (auto& p : o->subblocks_) p = Data(x);
  if (s && R->P(4)) { if (R->P(50)) o->subblocks_.pop_back(); else o->subblocks_.push_back(Data(x)); }
  o->footer_ = Some(R->P(80) ? 0 : R->In(1, 3));
  int mode; auto gen = Gen(mode); WriteBitBuffer wb(R->In(0, 30), *gen); auto st = o->ValidateAndWriteObu(wb);
  Bytes d = wb.bit_buffer(); if (st.ok()) Strip(d);
  Ev("bw").raw("x", DefJ(x)).raw("sch", SchJ(s)).raw("subs", SubsJ(x, *o)).f("footer", I(o->footer_)).f("mode", mode).f("ok", st.ok()).f("made", made).f("other", other).f("bytes", st.ok() ? I(d) : std::vector<int>{})
      .f("dur", Pr(o->GetDuration())).f("count", (int)o->GetNumSubblocks()).raw("longs", LongJ(*o));
  if (st.ok()) {
    BlockRead(x, d, d.size());
    int64_t n = d.size(); if (R->P(30)) n = R->In(0, n + 3);
    if (R->P(25)) { Def y = AnyDef(R->P(70) ? k : R->In(0, 9)); BlockRead(y, d, d.size()); }
    Spoil(d); BlockRead(x, d, R->P(50) ? n : (int64_t)d.size());
  } else { Bytes b = Some(R->In(0, 9)); BlockRead(x, b, b.size()); }
}

// data read into the same object over and over
[[maybe_unused]] static void Again() {
  const int k = std::vector<int>{0, 1, 2, 2, 9}[R->In(0, 4)]; Def x = AnyDef(k); auto p = x.p->CreateParameterData();
  for (int i = R->In(1, 4); i > 0; --i) {
    Bytes d; { WriteBitBuffer wb(9); auto q = Data(x); if (!q->Write(wb).ok()) continue; d = wb.bit_buffer(); }
    if (R->P(30)) Spoil(d);
    auto rb = Rd(d); auto s = p->ReadAndValidate(*rb);
    Ev("data").raw("x", DefJ(x)).f("d", I(d)).f("ok", s.ok()).f("pos", rb->Tell()).raw("v", s.ok() ? DataJ(x, p.get()) : "[]");
    if (!s.ok()) break;
  }
}
// --- gains
[[maybe_unused]] static void Ticks() {
  const bool big = R->P(25); std::vector<D> l; std::optional<SubblockSchedule> s;
  auto one = [&] { return (D)(big ? R->In(1, R->P(50) ? 3000 : 40000) : R->P(60) ? R->In(1, 12) : R->In(1, 500)); };
  if (R->P(50)) { int n = R->In(1, big ? 3 : 5); for (int i = 0; i < n; ++i) l.push_back(one()); s = *SubblockSchedule::CreateWithVariableSubblockDuration(l); }
  else { D c = one(); D dur = c * R->In(1, 4) + R->In(0, c - 1); s = *SubblockSchedule::CreateWithConstantSubblockDuration(dur, c); }
  const bool in_def = R->P(50); const bool wrong = R->P(3);
  ParamDefinition::BaseArgs a{.parameter_id = 5, .parameter_rate = 48000}; if (in_def) a.schedule = s;
  Def x = Make(wrong ? 5 : 0, a);
  ObuHeader h{.obu_type = kObuIaParameterBlock};
  auto o = in_def ? ParameterBlockObu::CreateMode0(h, *x.p) : ParameterBlockObu::CreateMode1(h, *x.p, *s);
  std::string as = "["; for (size_t i = 0; i < o->subblocks_.size(); ++i) { auto g = std::make_unique<MixGainParameterData>(Gain()); as += (i ? "," : "") + GainJ(*g); o->subblocks_[i] = std::move(g); }
  const D dur = s->GetDuration(); size_t size = R->P(50) ? dur : R->P(50) ? dur + R->In(1, 9) : R->In(0, dur);
  std::vector<float> g(size, 7777.0f);
  auto st = o->GetLinearMixGains(g);
  std::vector<int> at; std::vector<int> v;
  std::vector<D> longs; for (D i = 0; i < s->GetNumSubblocks(); ++i) longs.push_back(*s->GetSubblockDuration(i));
  auto add = [&](size_t t) { if (t >= size) return; at.push_back(t); const double y = 20.0 * std::log10((double)g[t]) * 4096.0; v.push_back(g[t] == 7777.0f ? 2000000000 : y != y || y > 1e9 || y < -1e9 ? 1900000000 : (int)std::lround(y)); };
  if (size <= 24) for (size_t t = 0; t < size; ++t) add(t);
  else { size_t f = 0; for (auto q : longs) { add(f); add(f + q - 1); add(f + q / 2); add(f + R->In(0, q - 1)); f += q; } add(size - 1); add(f); add(R->In(0, size - 1)); }
  std::vector<int> lg; for (auto q : longs) lg.push_back((int)q);
  Ev("gains").f("wrong", wrong).f("longs", lg).raw("a", as + "]").f("ok", st.ok()).f("at", at).f("v", v);
}
#endif
