// R01: the gain tables and the decompression of gain matrices.
#include <cmath>
#include <set>
#include "iamf/cli/renderer/gains/compressed_gains_codebook.h"
#include "iamf/cli/renderer/gains/get_gains.h"
#include "iamf/cli/renderer/gains/precomputed_compressed_gains.h"
#include "iamf/cli/renderer/gains/precomputed_compressed_gains_decoder.h"
#include "iamf/cli/renderer/gains/precomputed_gains.h"
#include "vtrace.h"
using namespace iamf_tools;
using namespace vt;
typedef std::vector<std::vector<double>> M;
static int Q(double v) { return std::isfinite(v) && std::fabs(v) < 2000 ? (int)std::llround(v * 1e6) : 2000000001; }
static std::vector<std::vector<int>> Q(const M& m) {
  std::vector<std::vector<int>> r;
  for (auto& row : m) { r.emplace_back(); for (double v : row) r.back().push_back(Q(v)); }
  return r;
}
static const char* Code(const absl::Status& s) {
  switch (s.code()) {
    case absl::StatusCode::kOk: return "OK";
    case absl::StatusCode::kNotFound: return "NOT_FOUND";
    case absl::StatusCode::kInvalidArgument: return "INVALID";
    default: return "OTHER";
  }
}
int main(int argc, char** argv) {
  Init(argc, argv);
  Rng r(ArgI("seed", 1));
  const int shard = ArgI("shard", 0), n = ArgI("n", 200);
  const std::vector<std::string> names = {"0+1+0", "0+2+0", "0+5+0", "2+5+0", "4+5+0", "0+7+0", "4+7+0", "9+10+3", "7.1.5.4",
      "3.1.2", "7.1.2", "9.1.6", "4+5+1", "3+7+0", "4+9+0", "A0", "A1", "A2", "A3", "A4", "", "A5", "0+2+1", "stereo", "a1", "0+5+0 "};
  if (shard == 0) {
    const auto codebook = GetCodebook();
    std::vector<int> cb; for (double v : codebook) cb.push_back(Q(v));
    Ev("codebook").f("v", cb);
    auto old = InitPrecomputedGains();
    std::set<std::pair<std::string, std::string>> table;
    int dup = 0;
    for (auto& e : GetPrecomputedGainsTable()) dup += !table.insert({e.input_layout, e.output_layout}).second;
    Ev("table").f("size", (int)table.size()).f("duplicates", dup);
    for (auto& i : names) for (auto& o : names) {
      auto g = GetGainsForLayoutPair(i, o);
      std::vector<std::vector<int>> oldm; bool has_old = false;
      if (old.contains(i) && old[i].contains(o)) { has_old = true; oldm = Q(old[i][o]); }
      Ev("pair").f("in", i).f("out", o).f("status", Code(g.status())).f("listed", table.count({i, o}) > 0)
          .f("rows", g.ok() ? Q(*g) : std::vector<std::vector<int>>()).f("has_ref", has_old).f("ref", oldm);
    }
    for (auto& e : GetPrecomputedGainsTable()) {  // the stored form of each matrix
      CompressedMatrix c;
      std::vector<int> d, b;
      if (e.is_dense) { c.dense_data.assign(e.dense_data, e.dense_data + e.size); for (float v : c.dense_data) d.push_back(Q(v)); }
      else { c.sparse_blob.assign(e.sparse_blob, e.sparse_blob + e.size); for (int v : c.sparse_blob) b.push_back(v); }
      auto g = DecompressMatrix(e.input_layout, e.output_layout, c);
      Ev("decompress").f("in", e.input_layout).f("out", e.output_layout).f("dense", d).f("blob", b)
          .f("status", Code(g.status())).f("rows", g.ok() ? Q(*g) : std::vector<std::vector<int>>());
    }
  }
  const int cbn = GetCodebook().size();
  for (int t = 0; t < n; ++t) {
    std::string in = r.Pick(names), out = r.Pick(names);
    if (r.P(70)) { in = names[r.In(0, 19)]; out = names[r.In(0, 19)]; }
    static const std::map<std::string, int> ch = {{"0+1+0", 1}, {"0+2+0", 2}, {"0+5+0", 6}, {"2+5+0", 8}, {"4+5+0", 10}, {"0+7+0", 8},
      {"4+7+0", 12}, {"9+10+3", 24}, {"7.1.5.4", 17}, {"3.1.2", 6}, {"7.1.2", 10}, {"9.1.6", 16}, {"4+5+1", 11}, {"3+7+0", 12},
      {"4+9+0", 14}, {"A0", 1}, {"A1", 4}, {"A2", 9}, {"A3", 16}, {"A4", 25}};
    const int R = ch.count(in) ? ch.at(in) : 3, C = ch.count(out) ? ch.at(out) : 3;
    CompressedMatrix c;
    std::vector<int> d, b;
    const int kind = r.In(0, 9);
    if (kind < 2) {
      int len = R * C + (r.P(30) ? (int)r.In(-3, 3) : 0); if (len < 0) len = 0;
      for (int i = 0; i < len; ++i) { c.dense_data.push_back((float)r.In(-64, 64) / 64); d.push_back(Q(c.dense_data.back())); }
    }
    if (kind >= 1 && kind < 9) {
      std::vector<int> len(R), col, idx;
      for (int i = 0; i < R; ++i) {
        len[i] = r.In(0, std::min(C, 4));
        int c0 = r.In(0, C - len[i]);
        for (int j = 0; j < len[i]; ++j) { col.push_back(c0 + j); idx.push_back(r.In(0, cbn - 1)); }
      }
      b = len; b.insert(b.end(), col.begin(), col.end()); b.insert(b.end(), idx.begin(), idx.end());
      if (kind >= 5 && !b.empty()) {
        int w = r.In(0, 4);
        if (w == 0) b.pop_back();
        else if (w == 1) b.resize(r.In(0, b.size()));
        else if (w == 2) b[r.In(0, R - 1)] += r.In(1, 3);
        else if (w == 3) { b.push_back(0); b.push_back(0); }
        else b[r.In(0, b.size() - 1)] = r.In(0, 255);
      }
      for (int v : b) c.sparse_blob.push_back(v);
    }
    auto g = DecompressMatrix(in, out, c);
    Ev("decompress").f("in", in).f("out", out).f("dense", d).f("blob", b)
        .f("status", Code(g.status())).f("rows", g.ok() ? Q(*g) : std::vector<std::vector<int>>());
  }
}
