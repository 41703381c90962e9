// G02: parameter blocks, metadata OBUs and arbitrary OBUs made from what the user's metadata says, and metadata made of them.
#include "blocks.h"
#include "metadata.h"
#include "iamf/cli/global_timing_module.h"
#include "iamf/cli/parameter_block_with_data.h"
#include "iamf/cli/proto/arbitrary_obu.pb.h"
#include "iamf/cli/proto/metadata_obu.pb.h"
#include "iamf/cli/proto/parameter_block.pb.h"
#include "iamf/cli/proto_conversion/obu_to_proto/ia_sequence_header_metadata_generator.h"
#include "iamf/cli/proto_conversion/obu_to_proto/obu_header_metadata_generator.h"
#include "iamf/cli/proto_conversion/obu_to_proto/parameter_block_metadata_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/arbitrary_obu_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/metadata_obu_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.h"
#include "iamf/obu/arbitrary_obu.h"
#include "iamf/obu/ia_sequence_header.h"
#include "iamf/obu/metadata_obu.h"
static std::string HeadT(const ObuHeader& h) {
  return Obj().f("type", (int)h.obu_type).f("red", h.obu_redundant_copy).f("flag", h.type_specific_flag).f("te", Pr(h.num_samples_to_trim_at_end)).f("ts", Pr(h.num_samples_to_trim_at_start))
      .f("has_ext", h.extension_header_bytes.has_value()).f("ext", h.extension_header_bytes ? I(*h.extension_header_bytes) : std::vector<int>{}).end().s;
}
template <class T, class F> static std::string List(const T& v, F f) { std::string s; for (auto& x : v) s += (s.empty() ? "" : ",") + f(x); return "[" + s + "]"; }
static std::string Txt(const std::string& s) { return Js(I(s)); }
static ParamDefinitionVariant Var(const Def& x) {
  switch (x.k) {
#define AS(K, T) case K: return *static_cast<const T*>(x.p.get())
    AS(0, MixGainParamDefinition); AS(1, DemixingParamDefinition); AS(2, ReconGainParamDefinition); AS(3, PolarParamDefinition); AS(4, Cart8ParamDefinition); AS(5, Cart16ParamDefinition);
    AS(6, DualPolarParamDefinition); AS(7, DualCart8ParamDefinition); AS(8, DualCart16ParamDefinition); default: return *static_cast<const ExtendedParamDefinition*>(x.p.get());
  }
}
static int Few(int lo, int hi) { return R->P(96) ? R->In(lo, hi) : R->Pick<int>({lo - 1, hi + 1, 2 * hi, 65536, -65536, 0}); }
static void Trims(ip::ObuHeaderMetadata* h) { if (R->P(25)) h->set_num_samples_to_trim_at_end(Num()); if (R->P(25)) h->set_num_samples_to_trim_at_start(Num()); }
static void DataMd(const Def& x, ip::ParameterSubblock& s) {
  const int k = R->P(96) ? x.k : R->In(0, 3);
  if (k == 0) { auto& p = *s.mutable_mix_gain_parameter_data()->mutable_param_data(); switch (R->In(0, 2)) {
      case 0: p.mutable_step()->set_start_point_value(Few(-32768, 32767)); break;
      case 1: p.mutable_linear()->set_start_point_value(Few(-32768, 32767)); p.mutable_linear()->set_end_point_value(S16()); break;
      default: { auto& b = *p.mutable_bezier(); b.set_start_point_value(S16()); b.set_end_point_value(Few(-32768, 32767)); b.set_control_point_value(S16()); b.set_control_point_relative_time(R->In(0, 255)); } } }
  else if (k == 1) { auto& d = *s.mutable_demixing_info_parameter_data(); d.set_dmixp_mode(static_cast<ip::DMixPMode>(R->In(R->P(95), 8))); if (R->P(40)) d.set_reserved(R->In(0, 31)); }
  else if (k == 2) { auto& g = *s.mutable_recon_gain_info_parameter_data(); size_t n = x.layers.size(); if (R->P(6)) n = R->In(0, 4);
    for (size_t i = 0; i < n; ++i) { auto& m = *g.add_recon_gains_for_layer()->mutable_recon_gain(); if (i < x.layers.size() && x.layers[i]) for (int j = R->In(0, 5); j > 0; --j) m[R->P(97) ? R->In(0, 11) : R->Pick<int>({11, 12, 15, 31})] = R->P(97) ? R->In(0, 255) : R->Pick<int>({256, 511, 65536}); } }
  else s.mutable_parameter_data_extension()->set_parameter_data_bytes(Str(R->In(0, 4)));
}
using When = std::map<D, int64_t>;
static void BlockMd(const std::vector<Def>& defs, When& when, ip::ParameterBlockObuMetadata& m) {
  const Def& x = R->Pick(defs); const D id = x.p->GetParameterId(); m.set_parameter_id(R->P(97) ? id : Num());
  if (R->P(25)) { Head(m.mutable_obu_header(), false); Trims(m.mutable_obu_header()); }
  auto s = x.p->GetSchedule(); bool list = false;
  if (!s) { do s = Sched(false); while (!s || s->GetNumSubblocks() > 12); if (x.k && R->P(80)) s = *SubblockSchedule::CreateWithConstantSubblockDuration(9, 9); list = s->GetConstantSubblockDuration() == 0;
    m.set_duration(s->GetDuration()); m.set_constant_subblock_duration(s->GetConstantSubblockDuration()); }
  else if (R->P(20)) { m.set_duration(Num()); m.set_constant_subblock_duration(Num()); }
  const int n = s->GetNumSubblocks() + (R->P(4) ? R->In(-1, 1) : 0);
  for (int i = 0; i < n; ++i) { auto& b = *m.add_subblocks(); if (list || R->P(10)) b.set_subblock_duration(list && i < (int)s->GetNumSubblocks() ? *s->GetSubblockDuration(i) : R->In(0, 9)); DataMd(x, b); }
  int64_t& t = when[id]; m.set_start_timestamp(t + (R->P(2) ? R->In(-1, 1) : 0)); t += s->GetDuration();
}
static int Kind(const std::vector<Def>& defs, D id) { for (auto& d : defs) if (d.p->GetParameterId() == id) return &d - &defs[0]; return -1; }
static void Blocks() {
  std::vector<Def> defs; absl::flat_hash_map<D, ParamDefinitionVariant> map;
  for (int i = R->In(1, 3); i > 0; --i) {
    Def d; do d = AnyDef(R->P(96) ? R->In(0, 2) : R->In(3, 9)); while (map.count(d.p->GetParameterId()) || (d.p->GetSchedule() && d.p->GetSchedule()->GetNumSubblocks() > 12) || (d.p->GetParameterRate() == 0) || ((d.k == 1 || d.k == 2) && d.p->GetSchedule() && d.p->GetSchedule()->GetNumSubblocks() > 2 && R->P(80)));
    map.emplace(d.p->GetParameterId(), Var(d)); defs.push_back(std::move(d));
  }
  auto time = GlobalTimingModule::Create({}, map); const bool over = R->P(80);
  ParameterBlockGenerator g(over, map); const bool ok = g.Initialize({}).ok();
  Ev("start").f("over", over).raw("defs", List(defs, DefJ)).f("ok", ok);
  if (!ok || !time) return;
  When when;
  for (int turn = R->In(1, 3); turn > 0; --turn) {
    for (int i = R->In(0, 3); i > 0; --i) {
      ip::ParameterBlockObuMetadata m; BlockMd(defs, when, m); if (R->P(25)) Changes(m); const bool ok = g.AddMetadata(m).ok();
      Ev("add").raw("m", Dump(m)).f("ok", ok);
    }
    std::vector<int> kinds = {0, 1, 2}; for (int i = 0; i < 3; ++i) std::swap(kinds[i], kinds[R->In(0, 2)]); std::list<ParameterBlockWithData> all;
    for (int k : kinds) {
      std::list<ParameterBlockWithData> own; auto& out = R->P(50) ? own : all; const size_t had = out.size();
      auto st = k == 0 ? g.GenerateMixGain(*time, out) : k == 1 ? g.GenerateDemixing(*time, out) : g.GenerateReconGain({}, {}, *time, out);
      auto first = out.begin(); std::advance(first, std::min(had, out.size())); std::vector<const ParameterBlockWithData*> fresh; for (; st.ok() && first != out.end(); ++first) fresh.push_back(&*first);
      Ev("gen").f("kind", kKinds[k]).f("ok", st.ok()).raw("blocks", List(fresh, [&](auto* b) {
        const int j = Kind(defs, b->obu->parameter_id_); Def none; const Def& x = j < 0 ? none : defs[j];
        return Obj().raw("h", HeadT(b->obu->header_)).f("id", Pr(b->obu->parameter_id_)).raw("s", Quad(b->start_timestamp)).raw("e", Quad(b->end_timestamp)).f("dur", Pr(b->obu->GetDuration())).f("const", Pr(b->obu->GetConstantSubblockDuration()))
            .raw("longs", LongJ(*b->obu)).raw("subs", SubsJ(x, *b->obu)).end().s; }));
      if (!st.ok()) return;
    }
  }
}
// metadata of what there is
static void Back() {
  const int k = R->Pick<int>({0, 1, 2, 9}); Def x = AnyDef(k); auto p = Data(x); std::optional<D> dur; if (R->P(50)) dur = Num();
  const auto type = k == 9 ? static_cast<ParamDefinition::ParameterDefinitionType>(R->In(3, 300)) : static_cast<ParamDefinition::ParameterDefinitionType>(k);
  auto m = ParameterBlockMetadataGenerator::GenerateParameterSubblockMetadata(type, dur, *p);
  Ev("back").f("kind", kKinds[k]).raw("v", DataJ(x, p.get())).f("dur", dur ? std::vector<std::vector<int>>{Pr(*dur)} : std::vector<std::vector<int>>{}).f("ok", m.ok()).raw("m", m.ok() ? "[" + Dump(*m) + "]" : "[]");
}
static ObuHeader AnyHead() {
  ObuHeader h; h.obu_type = kObuIaSequenceHeader; h.obu_redundant_copy = R->P(30); h.type_specific_flag = R->P(30); h.num_samples_to_trim_at_end = R->P(60) ? 0 : Num(); h.num_samples_to_trim_at_start = R->P(60) ? 0 : Num(); if (R->P(35)) h.extension_header_bytes = Some(R->In(0, 5)); return h;
}
static void HeadBack() {
  ObuHeader h = AnyHead(); auto m = ObuHeaderMetadataGenerator::Generate(h);
  Ev("head").raw("h", HeadT(h)).f("ok", m.ok()).raw("m", m.ok() ? "[" + Dump(*m) + "]" : "[]");
  auto a = [] { return R->Pick<ProfileVersion>({ProfileVersion::kIamfSimpleProfile, ProfileVersion::kIamfBaseProfile, ProfileVersion::kIamfBaseEnhancedProfile, ProfileVersion::kIamfBaseAdvancedProfile, ProfileVersion::kIamfAdvanced1Profile, ProfileVersion::kIamfAdvanced2Profile, ProfileVersion::kIamfReserved255Profile}); };
  const auto p = a(), q = a(); IASequenceHeaderObu o(h, p, q); auto s = IaSequenceHeaderMetadataGenerator::Generate(o);
  std::string d = "[]"; if (s.ok()) d = "[" + Obj().f("p", (int)s->primary_profile()).f("a", (int)s->additional_profile()).raw("h", Dump(s->obu_header())).end().s + "]";
  Ev("seqback").raw("h", HeadT(h)).f("p", (int)p).f("a", (int)q).f("ok", s.ok()).raw("m", d);
}
static void Extra() {
  pb::RepeatedPtrField<ip::ArbitraryObuMetadata> v;
  for (int i = R->In(1, 2); i > 0; --i) { auto& m = *v.Add(); m.set_insertion_hook(static_cast<ip::InsertionHook>(R->In(R->P(97), 9))); m.set_obu_type(static_cast<ip::ArbitraryObuType>(R->P(97) ? R->In(1, 32) : 0)); if (R->P(60)) { Head(m.mutable_obu_header(), R->P(40)); Trims(m.mutable_obu_header()); }
    if (R->P(70)) m.set_payload(Str(R->In(0, 6))); if (R->P(30)) m.set_invalidates_bitstream(R->P(70)); if (R->P(60)) m.set_insertion_tick(R->P(70) ? R->In(0, 99) : R->Pick<int64_t>({-1, 1ll << 33, 65536, -70000})); if (R->P(20)) Changes(m); }
  std::list<ArbitraryObu> out; ArbitraryObuGenerator g(v); const bool ok = g.Generate(out).ok();
  Ev("extra").raw("m", List(v, [](auto& m) { return Dump(m); })).f("ok", ok).raw("y", ok ? List(out, [](const ArbitraryObu& o) { return Obj().raw("h", HeadT(o.header_)).f("payload", I(o.payload_)).f("hook", (int)o.insertion_hook_).raw("tick", o.insertion_tick_ ? "[" + Quad(*o.insertion_tick_) + "]" : "[]").f("bad", o.invalidates_bitstream_).end().s; }) : "[]");
}
static void Meta() {
  pb::RepeatedPtrField<ip::MetadataObuMetadata> v;
  for (int i = R->In(1, 2); i > 0; --i) { auto& m = *v.Add(); if (R->P(50)) { auto& t = *m.mutable_metadata_itu_t_t35(); const int c = R->P(40) ? 255 : R->P(90) ? R->In(0, 254) : R->Pick<int>({256, 511, 65536}); t.set_itu_t_t35_country_code(c); if (c == 255 ? R->P(90) : R->P(10)) t.set_itu_t_t35_country_code_extension_byte(R->P(90) ? R->In(0, 255) : R->In(250, 700)); t.set_itu_t_t35_payload_bytes(Str(R->In(0, 6))); }
    else { auto& t = *m.mutable_metadata_iamf_tags(); for (int j = R->In(0, 3); j > 0; --j) { auto& a = *t.add_tags(); a.set_name(std::string(R->In(0, 4), 'n')); a.set_value(std::string(R->In(0, 4), 'v')); } }
    if (R->P(20)) Changes(m); }
  std::list<MetadataObu> out; MetadataObuGenerator g(v); const bool ok = g.Generate(out).ok();
  Ev("meta").raw("m", List(v, [](auto& m) { return Dump(m); })).f("ok", ok).raw("y", ok ? List(out, [](const MetadataObu& o) {
    Obj j; j.raw("h", HeadT(o.header_)).f("t", (int)o.GetMetadataType());
    if (auto* t = std::get_if<MetadataITUTT35>(&o.GetMetadataVariant())) j.f("code", (int)t->itu_t_t35_country_code).f("more", t->itu_t_t35_country_code_extension_byte ? std::vector<int>{*t->itu_t_t35_country_code_extension_byte} : std::vector<int>{}).f("bytes", I(t->itu_t_t35_payload_bytes));
    else { auto& g = std::get<MetadataIamfTags>(o.GetMetadataVariant()); j.raw("tags", List(g.tags, [](auto& t) { return "[" + Txt(t.tag_name) + "," + Txt(t.tag_value) + "]"; })); }
    return j.end().s; }) : "[]");
}
int main(int argc, char** argv) {
  Init(argc, argv); g_log = false;
  Rng r(ArgI("seed", 1)); R = &r;
  const int n = ArgI("n", 10);
  for (int i = 0; i < n; ++i) {
    Ev("begin").f("i", i); Blocks();
    if (R->P(40)) Back(); if (R->P(15)) HeadBack(); if (R->P(25)) Extra(); if (R->P(25)) Meta();
  }
}
