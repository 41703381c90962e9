// E04: parameter blocks split at frame boundaries.
#include <list>
#include "iamf/cli/parameter_block_partitioner.h"
#include "vtrace.h"
using namespace iamf_tools;
using namespace vt;
namespace pb = iamf_tools_cli_proto;
static Rng* R;
using Block = pb::ParameterBlockObuMetadata;
static int V() { return R->P(60) ? R->In(-600, 600) : R->P(80) ? R->In(-32768, 32767) : R->P(50) ? 32767 : -32768; }
static void Fill(pb::ParameterSubblock& s, int kind) {
  switch (kind) {
    case 0: s.mutable_mix_gain_parameter_data()->mutable_param_data()->mutable_step()->set_start_point_value(V()); break;
    case 1: { auto* l = s.mutable_mix_gain_parameter_data()->mutable_param_data()->mutable_linear(); l->set_start_point_value(V()); l->set_end_point_value(V()); break; }
    case 2: { auto* b = s.mutable_mix_gain_parameter_data()->mutable_param_data()->mutable_bezier(); b->set_start_point_value(V()); b->set_end_point_value(V()); b->set_control_point_value(V()); b->set_control_point_relative_time(R->In(0, 255)); break; }
    case 3: s.mutable_demixing_info_parameter_data()->set_dmixp_mode(static_cast<pb::DMixPMode>(R->In(0, 3))); s.mutable_demixing_info_parameter_data()->set_reserved(R->In(0, 31)); break;
    case 4: { auto* g = s.mutable_recon_gain_info_parameter_data(); for (int k = R->In(0, 2); k > 0; --k) (*g->add_recon_gains_for_layer()->mutable_recon_gain())[R->In(0, 11)] = R->In(0, 255); break; }
    case 5: s.mutable_mix_gain_parameter_data(); break;
    default: break;
  }
}
static std::string DataJ(const pb::ParameterSubblock& s) {
  if (s.has_mix_gain_parameter_data()) {
    auto& p = s.mix_gain_parameter_data().param_data();
    if (p.has_step()) return Obj().f("k", "step").f("v", std::vector<int>{p.step().start_point_value()}).end().s;
    if (p.has_linear()) return Obj().f("k", "linear").f("v", std::vector<int>{p.linear().start_point_value(), p.linear().end_point_value()}).end().s;
    if (p.has_bezier()) { auto& b = p.bezier(); return Obj().f("k", "bezier").f("v", std::vector<int>{b.start_point_value(), b.end_point_value(), b.control_point_value(), b.control_point_relative_time()}).end().s; }
    return Obj().f("k", "none").f("v", std::vector<int>{}).end().s;
  }
  if (s.has_demixing_info_parameter_data()) { auto& d = s.demixing_info_parameter_data(); return Obj().f("k", "demix").f("v", std::vector<int>{(int)d.dmixp_mode(), (int)d.reserved()}).end().s; }
  if (s.has_recon_gain_info_parameter_data()) {
    std::vector<int> v; for (auto& l : s.recon_gain_info_parameter_data().recon_gains_for_layer()) { v.push_back(-1); std::map<int, int> m(l.recon_gain().begin(), l.recon_gain().end()); for (auto& [k, g] : m) { v.push_back(k); v.push_back(g); } }
    return Obj().f("k", "recon").f("v", v).end().s;
  }
  return Obj().f("k", "none").f("v", std::vector<int>{}).end().s;
}
// times are written relative to a base and in units of a scale
static int64_t g_base, g_scale;
static int T(int64_t t) { t -= g_base; return t % g_scale || t / g_scale > 1000000000 || t / g_scale < -1000000000 ? 2000000001 : (int)(t / g_scale); }
static int Dur(int64_t t) { return t % g_scale || t / g_scale > 1000000000 ? 2000000001 : (int)(t / g_scale); }
static std::string BlockJ(const Block& b) {
  std::string s = "["; for (int i = 0; i < b.subblocks_size(); ++i) s += (i ? "," : "") + Obj().f("d", Dur(b.subblocks(i).subblock_duration())).raw("x", DataJ(b.subblocks(i))).end().s;
  return Obj().raw("id", Limbs(b.parameter_id(), 2)).f("start", T(b.start_timestamp())).f("dur", Dur(b.duration())).f("const", Dur(b.constant_subblock_duration())).raw("subs", s + "]").end().s;
}
static void One() {
  g_scale = R->P(60) ? 1 : R->In(2, 20000); g_base = R->P(40) ? 0 : R->P(60) ? R->In(0, 100000) : R->P(50) ? (int64_t)R->In(1, 1 << 30) << 24 : -(int64_t)R->In(0, 100000);
  const int most = R->P(70) ? 9 : std::min<int>(2000, 1000000000 / g_scale / 8);
  Block b; b.set_parameter_id(R->P(80) ? R->In(0, 200) : R->In(0, 0xffffffffll)); b.set_start_timestamp(g_base + g_scale * (R->P(70) ? 0 : R->In(-5, 20)));
  const int kind = R->P(65) ? -1 : R->In(0, 4); int64_t dur = 0; const int n = R->P(3) ? 0 : R->P(70) ? R->In(1, 5) : R->In(1, 9);
  if (R->P(50)) { for (int i = 0; i < n; ++i) { auto* s = b.add_subblocks(); const int64_t d = g_scale * R->In(R->P(1) ? 0 : 1, most); s->set_subblock_duration(d); dur += d; } }
  else { const int64_t c = g_scale * R->In(1, most); for (int i = 0; i < n; ++i) { auto* s = b.add_subblocks(); if (R->P(30)) s->set_subblock_duration(c); } dur = n ? c * (n - 1) + g_scale * R->In(1, c / g_scale) : c; b.set_constant_subblock_duration(c); }
  if (R->P(4)) dur += g_scale * R->In(-2, 2); if (dur < 0) dur = 0;
  b.set_duration(dur);
  for (int i = 0; i < b.subblocks_size(); ++i) Fill(*b.mutable_subblocks(i), R->P(1) ? R->In(5, 6) : kind < 0 ? R->In(0, R->P(85) ? 1 : 2) : R->P(99) ? kind : R->In(0, 4));
  for (int k = R->In(1, 4); k > 0; --k) {
    int64_t from = b.start_timestamp() + g_scale * R->In(R->P(5) ? -3 : 0, dur / g_scale), to = R->P(80) ? from + g_scale * R->In(0, std::max<int64_t>(0, (b.start_timestamp() + dur - from) / g_scale)) : from + g_scale * R->In(-2, dur / g_scale + 3);
    if (R->P(20)) from = b.start_timestamp(); if (R->P(20)) to = b.start_timestamp() + dur;
    Block out; auto s = ParameterBlockPartitioner::PartitionParameterBlock(b, from, to, out);
    Ev("part").raw("b", BlockJ(b)).f("from", T(from)).f("to", T(to)).f("ok", s.ok()).raw("out", s.ok() ? "[" + BlockJ(out) + "]" : "[]");
  }
  { int64_t pd = g_scale * (R->P(3) ? 0 : R->P(60) && dur ? std::max<int64_t>(1, dur / g_scale / R->In(1, 4)) : R->In(1, most * 2)); std::list<Block> outs; const bool was = R->P(20); if (was) outs.push_back(Block());
    if (pd && dur / pd > 300) pd = dur;
    auto s = ParameterBlockPartitioner::PartitionFrameAligned(pd, b, outs); const bool kept = !was || (!outs.empty() && outs.front().subblocks_size() == 0); if (was && !outs.empty()) outs.pop_front();
    std::string j = "["; bool c = false; for (auto& o : outs) { j += (c ? "," : "") + BlockJ(o); c = true; }
    Ev("frames").raw("b", BlockJ(b)).f("pd", Dur(pd)).f("ok", s.ok()).f("kept", kept).raw("outs", j + "]"); }
  { g_scale = 1; std::vector<uint32_t> q; const int c = R->P(70) ? R->In(1, 4) : R->In(1, 2000000000); for (int i = R->In(0, 6); i > 0; --i) q.push_back(R->P(80) ? c : R->In(0, c)); if (!q.empty() && R->P(40)) q.back() = R->In(0, (int64_t)c + 1);
    Ev("const").f("q", q).f("c", (int)ParameterBlockPartitioner::FindConstantSubblockDuration(q)); }
  { pb::CodecConfigObuMetadata m; const int f = R->In(0, 100000); m.mutable_codec_config()->set_num_samples_per_frame(f); const int p = R->In(0, 6); uint32_t pd = 77;
    const pb::ProfileVersion all[] = {pb::PROFILE_VERSION_INVALID, pb::PROFILE_VERSION_SIMPLE, pb::PROFILE_VERSION_BASE, pb::PROFILE_VERSION_BASE_ENHANCED, pb::PROFILE_VERSION_BASE_ADVANCED, pb::PROFILE_VERSION_ADVANCED1, pb::PROFILE_VERSION_ADVANCED2};
    auto s = ParameterBlockPartitioner::FindPartitionDuration(all[p], m, pd); Ev("len").f("p", p).f("f", f).f("ok", s.ok()).f("pd", (int)pd); }
}
int main(int argc, char** argv) {
  Init(argc, argv);
  Rng r(ArgI("seed", 1)); R = &r;
  const int n = ArgI("n", 10);
  for (int i = 0; i < n; ++i) { Ev("begin").f("i", i); One(); }
}
