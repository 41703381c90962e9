// Parameter definitions: made up, and as JSON.
#ifndef DEFS_H_
#define DEFS_H_
#include <memory>
#include "iamf/common/leb_generator.h"
#include "iamf/common/q_format_or_floating_point.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "iamf/obu/demixing_info_parameter_data.h"
#include "iamf/obu/param_definitions/param_definition_variant.h"
#include "iamf/obu/param_definitions/demixing_param_definition.h"
#include "iamf/obu/param_definitions/cart8_param_definition.h"
#include "iamf/obu/param_definitions/cart16_param_definition.h"
#include "iamf/obu/param_definitions/subblock_schedule.h"
#include "vtrace.h"
using namespace iamf_tools;
using namespace vt;
static Rng* R;
[[maybe_unused]] static bool g_log = true;  // log the schedules of definitions
using Bytes = std::vector<uint8_t>;
using D = DecodedUleb128;
template <class V> static std::vector<int> I(const V& v) { std::vector<int> r; for (auto x : v) r.push_back((uint8_t)x); return r; }
static std::vector<int> Pr(uint64_t v) { return {(int)(v >> 16), (int)(v & 0xffff)}; }
static std::vector<std::vector<int>> Prs(const std::vector<D>& v) { std::vector<std::vector<int>> r; for (auto x : v) r.push_back(Pr(x)); return r; }
static D Num() {
  switch (R->In(0, 4)) { case 0: return 0; case 1: return R->In(0, 300); case 2: return (1u << (7 * R->In(1, 4))) - R->In(0, 1); case 3: return 0xffffffffu - R->In(0, 3); default: return (uint32_t)R->Next() >> R->In(0, 31); }
}
static Bytes Some(int n) { Bytes b; for (int i = 0; i < n; ++i) b.push_back(R->P(20) ? 0 : R->P(20) ? 255 : R->In(0, 255)); return b; }
static std::unique_ptr<LebGenerator> Gen(int& mode) {
  mode = R->P(65) ? 0 : R->In(1, 8);
  return mode ? LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, mode) : LebGenerator::Create();
}
static std::unique_ptr<ReadBitBuffer> Rd(const Bytes& d) {
  if (R->P(60)) return MemoryBasedReadBitBuffer::CreateFromSpan(d);
  auto s = StreamBasedReadBitBuffer::Create(R->In(1, 30)); (void)s->PushBytes(d); return s;
}
static const char* kKinds[] = {"gain", "demix", "recon", "polar", "cart8", "cart16", "dpolar", "dcart8", "dcart16", "ext"};

// --- schedules
struct Sch { std::optional<SubblockSchedule> s; };
static std::string SchJ(const std::optional<SubblockSchedule>& s) {
  if (!s) return "[]";
  std::vector<D> list;
  if (s->GetConstantSubblockDuration() == 0) for (D i = 0; i < s->GetNumSubblocks(); ++i) list.push_back(*s->GetSubblockDuration(i));
  return "[" + Obj().f("dur", Pr(s->GetDuration())).f("const", Pr(s->GetConstantSubblockDuration())).f("list", Prs(list)).end().s + "]";
}
static std::vector<D> List() {
  std::vector<D> l; int n = R->P(80) ? R->In(1, 5) : R->P(85) ? R->In(6, 12) : 0;
  for (int i = 0; i < n; ++i) l.push_back(R->P(70) ? R->In(1, 20) : R->P(70) ? R->In(1, 3000) : Num());
  return l;
}
static std::optional<SubblockSchedule> Sched(bool log) {
  absl::StatusOr<SubblockSchedule> s = absl::InternalError("");
  D dur = 0, cst = 0; std::vector<D> list; const bool even = R->P(55);
  if (even) {
    dur = R->P(60) ? R->In(1, 40) : Num(); cst = R->P(50) ? R->In(1, 12) : R->P(50) ? dur : Num();
    if (R->P(10)) { D k = R->In(1, 22369); cst = k; dur = R->In(191998, 192001) * k + R->In(-1, 1); }
    s = SubblockSchedule::CreateWithConstantSubblockDuration(dur, cst);
  } else {
    list = List();
    if (!list.empty() && R->P(10)) { uint64_t t = 0; for (auto x : list) t += x; if (t < 0x100000000ull) list.push_back(0xffffffffull - t + R->In(0, 1)); }
    s = SubblockSchedule::CreateWithVariableSubblockDuration(list);
  }
  if (log) {
    std::string q = "[";
    std::vector<int> at = {-1, 0, 1, 2, 5};
    const D n = s.ok() ? s->GetNumSubblocks() : 0;
    if (s.ok()) for (D k : {n - 1, n, n + 1}) at.push_back((int)k);
    if (s.ok()) for (size_t k = 0; k < at.size(); ++k) {
      auto v = s->GetSubblockDuration(at[k]);
      q += (k ? "," : "") + Obj().f("i", at[k]).f("ok", v.ok()).f("v", Pr(v.ok() ? *v : 0)).end().s;
    }
    Ev("sched").f("even", even).f("dur", Pr(dur)).f("const", Pr(cst)).f("list", Prs(list)).f("ok", s.ok()).f("n", (int)n)
        .f("gd", Pr(s.ok() ? s->GetDuration() : 0)).f("gc", Pr(s.ok() ? s->GetConstantSubblockDuration() : 0)).raw("q", q + "]");
  }
  if (!s.ok()) return std::nullopt;
  return *s;
}

// --- definitions
struct Def { int k = 0; std::unique_ptr<ParamDefinition> p; std::vector<bool> layers; };
static std::string J(const std::vector<bool>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += std::string(i ? "," : "") + (v[i] ? "true" : "false"); return s + "]"; }
static std::vector<int> Vals(int k, const ParamDefinition* p) {
  switch (k) {
    case 0: return {static_cast<const MixGainParamDefinition*>(p)->default_mix_gain_.GetQ7_8()};
    case 1: { auto& x = static_cast<const DemixingParamDefinition*>(p)->default_demixing_info_parameter_data_; return {x.dmixp_mode, x.reserved, x.default_w, x.reserved_for_future_use}; }
    case 3: { auto* x = static_cast<const PolarParamDefinition*>(p); return {x->default_azimuth_, x->default_elevation_, x->default_distance_}; }
    case 4: { auto* x = static_cast<const Cart8ParamDefinition*>(p); return {x->default_x_, x->default_y_, x->default_z_}; }
    case 5: { auto* x = static_cast<const Cart16ParamDefinition*>(p); return {x->default_x_, x->default_y_, x->default_z_}; }
    case 6: { auto* x = static_cast<const DualPolarParamDefinition*>(p); return {x->default_first_azimuth_, x->default_first_elevation_, x->default_first_distance_, x->default_second_azimuth_, x->default_second_elevation_, x->default_second_distance_}; }
    case 7: { auto* x = static_cast<const DualCart8ParamDefinition*>(p); return {x->default_first_x_, x->default_first_y_, x->default_first_z_, x->default_second_x_, x->default_second_y_, x->default_second_z_}; }
    case 8: { auto* x = static_cast<const DualCart16ParamDefinition*>(p); return {x->default_first_x_, x->default_first_y_, x->default_first_z_, x->default_second_x_, x->default_second_y_, x->default_second_z_}; }
    default: return {};
  }
}
static Obj DefO(int k, const ParamDefinition* p) {
  return Obj().f("kind", kKinds[k]).f("id", Pr(p->GetParameterId())).f("rate", Pr(p->GetParameterRate())).f("res", (int)p->GetReserved())
      .raw("sch", SchJ(p->GetSchedule())).f("vals", Vals(k, p)).f("bytes", k == 9 ? I(static_cast<const ExtendedParamDefinition*>(p)->param_definition_bytes_) : std::vector<int>{});
}
static std::string DefJ(const Def& d) { return DefO(d.k, d.p.get()).raw("layers", J(d.layers)).end().s; }
static int16_t S16() { return R->P(50) ? R->In(-600, 600) : R->P(50) ? R->In(-32768, 32767) : R->P(50) ? 32767 : -32768; }
static Def Make(int k, const ParamDefinition::BaseArgs& a) {
  Def d; d.k = k;
  switch (k) {
    case 0: { auto p = std::make_unique<MixGainParamDefinition>(a); p->default_mix_gain_ = QFormatOrFloatingPoint::MakeFromQ7_8(S16()); d.p = std::move(p); break; }
    case 1: { auto p = std::make_unique<DemixingParamDefinition>(a); auto& x = p->default_demixing_info_parameter_data_;
      x.dmixp_mode = static_cast<DemixingInfoParameterData::DMixPMode>(R->P(70) ? R->In(0, 2) : R->In(0, R->P(90) ? 7 : 9)); x.reserved = R->P(95) ? R->In(0, 31) : R->In(30, 34); x.default_w = R->P(95) ? R->In(0, 15) : R->In(14, 18); x.reserved_for_future_use = R->P(95) ? R->In(0, 15) : R->In(14, 18); d.p = std::move(p); break; }
    case 2: { auto p = std::make_unique<ReconGainParamDefinition>(a, 7); int n = R->In(0, 4); for (int i = 0; i < n; ++i) { d.layers.push_back(R->P(65)); p->aux_data_.push_back({.recon_gain_is_present_flag = d.layers.back()}); } d.p = std::move(p); break; }
    case 3: { auto p = std::make_unique<PolarParamDefinition>(a); p->default_azimuth_ = R->P(70) ? R->In(-200, 200) : S16(); p->default_elevation_ = R->In(-128, 127); p->default_distance_ = R->P(90) ? R->In(0, 127) : R->In(0, 255); d.p = std::move(p); break; }
    case 4: { auto p = std::make_unique<Cart8ParamDefinition>(a); p->default_x_ = R->In(-128, 127); p->default_y_ = R->In(-128, 127); p->default_z_ = R->In(-128, 127); d.p = std::move(p); break; }
    case 5: { auto p = std::make_unique<Cart16ParamDefinition>(a); p->default_x_ = S16(); p->default_y_ = S16(); p->default_z_ = S16(); d.p = std::move(p); break; }
    case 6: { auto p = std::make_unique<DualPolarParamDefinition>(a); p->default_first_azimuth_ = R->In(-200, 200); p->default_first_elevation_ = R->In(-128, 127); p->default_first_distance_ = R->In(0, 127);
      p->default_second_azimuth_ = R->In(-200, 200); p->default_second_elevation_ = R->In(-128, 127); p->default_second_distance_ = R->P(90) ? R->In(0, 127) : R->In(0, 255); d.p = std::move(p); break; }
    case 7: { auto p = std::make_unique<DualCart8ParamDefinition>(a); p->default_first_x_ = R->In(-128, 127); p->default_first_y_ = R->In(-128, 127); p->default_first_z_ = R->In(-128, 127);
      p->default_second_x_ = R->In(-128, 127); p->default_second_y_ = R->In(-128, 127); p->default_second_z_ = R->In(-128, 127); d.p = std::move(p); break; }
    case 8: { auto p = std::make_unique<DualCart16ParamDefinition>(a); p->default_first_x_ = S16(); p->default_first_y_ = S16(); p->default_first_z_ = S16();
      p->default_second_x_ = S16(); p->default_second_y_ = S16(); p->default_second_z_ = S16(); d.p = std::move(p); break; }
    default: { auto p = std::make_unique<ExtendedParamDefinition>(static_cast<ParamDefinition::ParameterDefinitionType>(77), a); p->param_definition_bytes_ = Some(R->In(0, 6)); d.p = std::move(p); }
  }
  return d;
}
[[maybe_unused]] static D g_param = 0;  // while muted: no two definitions with the same id
static Def AnyDef(int k) {
  ParamDefinition::BaseArgs a{.parameter_id = g_mute ? g_param++ : Num(), .parameter_rate = R->P(92) ? (R->P(50) ? 48000 : Num()) : 0, .reserved = (uint8_t)(R->P(80) ? 0 : R->P(90) ? R->In(0, 127) : R->In(126, 130))};
  if (k == 1 || k == 2) { if (R->P(85)) { D x = R->P(85) ? R->In(1, 2000) : Num(); auto s = SubblockSchedule::CreateWithConstantSubblockDuration(x, x); if (s.ok()) a.schedule = *s; } else a.schedule = Sched(g_log); }
  else if (R->P(55)) { do a.schedule = Sched(g_log); while (a.schedule && a.schedule->GetNumSubblocks() > 40); }
  return Make(k, a);
}
static void Spoil(Bytes& d) {
  switch (R->In(0, 3)) {
    case 0: if (!d.empty()) d.resize(R->In(0, d.size() - 1)); break;
    case 1: if (!d.empty()) d[R->In(0, d.size() - 1)] = R->P(30) ? 0 : R->In(0, 255); break;
    case 2: if (!d.empty()) d[R->In(0, std::min<int>(7, d.size() - 1))] = R->In(0, 12); break;
    default:;
  }
  auto x = Some(R->P(50) ? 0 : R->In(1, 3)); d.insert(d.end(), x.begin(), x.end());
}
#endif
