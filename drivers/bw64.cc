// A01: files with ADM metadata: chunks, metadata, and splicing.
#include <filesystem>
#include <fstream>
#include <sstream>
#include "iamf/cli/adm_to_user_metadata/adm/bw64_reader.h"
#include "iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.h"
#include "iamf/obu/ia_sequence_header.h"
#include "vtrace.h"
using namespace iamf_tools;
using namespace iamf_tools::adm_to_user_metadata;
using namespace vt;
namespace fs = std::filesystem;
static Rng* R;
static std::string Le32(uint32_t v) { std::string s; for (int i = 0; i < 4; ++i) s += (char)(v >> 8 * i); return s; }
static std::string Le16(uint32_t v) { return Le32(v).substr(0, 2); }
static std::vector<int> B(const std::string& s) { std::vector<int> r; for (unsigned char c : s) r.push_back(c); return r; }
struct Doc { std::string text, programme; std::vector<Raw> objects; int tracks = 0; };
static Doc MkDoc(int k) {
  Doc d; d.programme = "P" + std::to_string(k) + (R->P(30) ? "&\"<x" : "");
  std::string esc; for (char c : d.programme) esc += c == '&' ? "&amp;" : c == '"' ? "&quot;" : c == '<' ? "&lt;" : std::string(1, c);
  d.text = R->P(30) ? "<?xml version=\"1.0\"?>\n<a>" : "<a>";
  d.text += "<audioProgramme audioProgrammeName=\"" + esc + "\"/>";
  const int n = R->P(5) ? 0 : R->In(1, 3);
  for (int i = 0; i < n; ++i) {
    const int imp = R->P(60) ? 10 : R->In(0, 10), trk = R->In(1, 3);
    static const char* kPack[] = {"none", "known", "unknown"};
    const char* pack = kPack[R->P(80) ? 0 : R->In(1, 2)];
    const std::string id = "AO" + std::to_string(i);
    d.text += "<audioObject audioObjectID=\"" + id + "\"" + (imp == 10 && R->P(50) ? "" : " importance=\"" + std::to_string(imp) + "\"") + ">";
    if (pack == kPack[1]) d.text += "<audioPackFormatIDRef>AP_00010002</audioPackFormatIDRef>";
    if (pack == kPack[2]) d.text += R->P(50) ? "<audioPackFormatIDRef>AP_00039002</audioPackFormatIDRef>" : "<audioPackFormatIDRef>AP_1</audioPackFormatIDRef>";
    for (int t = 0; t < trk; ++t) d.text += "<audioTrackUIDRef>T" + std::to_string(d.tracks + t) + "</audioTrackUIDRef>";
    d.text += "</audioObject>";
    d.tracks += trk;
    d.objects.push_back(Obj().f("id", id).f("importance", imp).f("pack", pack).f("tracks", trk).end());
  }
  d.text += "</a>";
  return d;
}
static std::string Chunk(const std::string& name, const std::string& body, bool fuzz) {
  uint32_t size = body.size();
  if (fuzz && R->P(8)) { static const uint32_t o[] = {0xffffffffu, 0x80000000u, 0x01000000u, 0, 1, 7}; size = R->P(40) ? o[R->In(0, 5)] : (uint32_t)((int)size + R->In(-3, 3)); }
  std::string s = name + Le32(size) + body;
  if (body.size() % 2 && !(fuzz && R->P(6))) s += (char)(R->P(50) ? 0 : 0xff);
  return s;
}
static std::string FmtBody(int ch, uint32_t rate, int bits, bool fuzz) {
  std::string f = Le16(R->P(70) ? 1 : 0xfffe) + Le16(ch) + Le32(rate) + Le32(rate * ch * bits / 8) + Le16(ch * bits / 8) + Le16(bits);
  if (R->P(20)) f += std::string(R->In(1, 24), 'z');
  if (fuzz && R->P(8)) f = f.substr(0, R->In(0, 15));
  return f;
}
static void Wipe() { for (auto& e : fs::directory_iterator(fs::current_path())) if (e.path().extension() == ".wav") fs::remove(e.path()); }
static Raw File(const fs::path& p, int name, std::string* pcm = nullptr, int* nch = nullptr) {
  std::ifstream in(p, std::ios::binary); std::string s((std::istreambuf_iterator<char>(in)), {});
  auto u = [&](size_t o, int n) { uint32_t v = 0; for (int i = 0; i < n && o + i < s.size(); ++i) v |= (uint32_t)(uint8_t)s[o + i] << 8 * i; return v; };
  int ch = u(22, 2), rate = u(24, 4), bits = u(34, 2);
  size_t o = 12; std::string d; bool got = false;
  while (o + 8 <= s.size() && !got) { uint32_t n = u(o + 4, 4); if (s.substr(o, 4) == "data") { got = true; d = s.substr(o + 8, n); } o += 8 + n + (n & 1); }
  if (pcm) *pcm = d;
  if (nch) *nch = ch;
  return Obj().f("name", name).f("channels", ch).f("rate", rate).f("bits", bits).f("pcm", B(d)).end();
}
static void ReadScenario() {
  std::vector<Doc> docs; const int nd = R->In(1, 2);
  for (int i = 0; i < nd; ++i) docs.push_back(MkDoc(i));
  std::vector<Raw> dj; for (auto& d : docs) dj.push_back(Obj().f("bytes", B(d.text)).f("programme", B(d.programme)).f("objects", d.objects).end());
  Ev("begin").f("docs", dj);
  const bool fuzz = R->P(45);
  const Doc& main = docs[R->In(0, nd - 1)];
  static const int kBits[] = {16, 24, 32}; static const uint32_t kRate[] = {48000, 96000, 44100, 8000};
  const bool dolby = R->P(20);
  int bits = dolby && R->P(80) ? 24 : kBits[R->In(0, 2)]; uint32_t rate = kRate[R->In(0, dolby && R->P(80) ? 1 : 3)];
  int ch = R->P(80) ? std::max(1, main.tracks) : R->In(1, 8);
  if (fuzz && R->P(6)) bits = R->In(0, 40);
  if (fuzz && R->P(4)) ch = 0;
  if (fuzz && R->P(4)) rate = R->P(50) ? 0 : (uint32_t)R->Next();
  const int frame = std::max(1, bits / 8 * ch);
  std::string data(frame * R->In(0, 4) + (R->P(8) ? R->In(1, frame) : 0), 0); for (auto& c : data) c = R->Next();
  if (R->P(3)) { data.resize(frame * R->In(4096 / frame, 4096 / frame + 40)); for (auto& c : data) c = R->Next(); }
  std::vector<std::string> cs;
  auto add = [&](const std::string& s) { cs.insert(cs.begin() + R->In(0, cs.size()), s); };
  if (!(fuzz && R->P(6))) add(Chunk("fmt ", FmtBody(ch, rate, bits, fuzz), fuzz));
  if (!(fuzz && R->P(6))) {
    std::string t = main.text;
    if (fuzz && R->P(8)) { if (R->P(50)) t.resize(R->In(0, t.size() - 1)); else t += "</b>"; }
    add(Chunk("axml", t, fuzz));
  }
  if (!(R->P(6))) add(Chunk("data", data, fuzz));
  if (dolby) add(Chunk("dbmd", std::string(R->In(0, 9), 'd'), fuzz));
  const int extra = R->P(50) ? 0 : R->In(1, 3);
  for (int i = 0; i < extra; ++i) {
    static const char* kNames[] = {"LIST", "chna", "axmk", "Data", "bext"};
    add(Chunk(R->P(85) ? kNames[R->In(0, 4)] : (R->P(50) ? "fmt " : "axml"), R->P(30) ? docs[0].text : std::string(R->In(0, 21), 'q'), fuzz));
  }
  std::string f = std::string("RIFF") + Le32(R->P(80) ? 0 : (uint32_t)R->Next()) + "WAVE";
  for (auto& c : cs) f += c;
  if (fuzz && R->P(4)) f[R->In(0, 11)] ^= 1 << R->In(0, 6);
  if (R->P(20)) f.resize(R->In(R->P(70) ? (int)f.size() / 2 : 0, f.size() - 1));
  const int thr = R->P(60) ? 0 : R->In(0, 10);
  std::istringstream is(f);
  std::ifstream ifs;
  std::istream* in = &is;
  if (R->P(30)) { { std::ofstream o("in.bin", std::ios::binary); o << f; } ifs.open("in.bin", std::ios::binary); in = &ifs; }
  auto r = Bw64Reader::BuildFromStream(thr, *in);
  {
    std::vector<Raw> asked; std::vector<std::vector<int>> ids; std::vector<std::string> objs;
    if (r.ok()) {
      std::vector<std::string> q = {"fmt ", "axml", "data", "dbmd", "LIST", "chna", "axmk", "Data", "bext", "RIFF", "WAVE", "", "zzzz"};
      // every name that a walk may have come across
      for (size_t o = 12; o + 8 <= f.size(); ++o) { std::string n = f.substr(o, 4); if (r->GetChunkInfo(n).ok() && std::find(q.begin(), q.end(), n) == q.end()) q.push_back(n); }
      for (auto& n : q) {
        auto ci = r->GetChunkInfo(n);
        asked.push_back(Obj().f("name", B(n)).f("status", ci.ok() ? "OK" : absl::IsFailedPrecondition(ci.status()) ? "PRECONDITION" : "OTHER")
            .f("hi", ci.ok() ? (int)(ci->size >> 24) : 0).f("lo", ci.ok() ? (int)(ci->size & 0xffffff) : 0).f("offset", ci.ok() ? (int)ci->offset : 0).end());
      }
      for (auto& o : r->adm_.audio_objects) objs.push_back(o.id);
      auto hl = [](uint32_t v) { return Obj().f("hi", (int)(v >> 24)).f("lo", (int)(v & 0xffffff)).end(); };
      auto& m = r->format_info_;
      Ev("read").f("bytes", B(f)).f("threshold", thr).f("ok", true).f("asked", asked).f("objects", objs)
          .f("fmt", Obj().f("tag", m.format_tag).f("channels", m.num_channels).f("rate", hl(m.samples_per_sec)).f("avg", hl(m.avg_bytes_per_sec)).f("align", m.block_align).f("bits", m.bits_per_sample).end())
          .f("dolby", r->adm_.file_type == kAdmFileTypeDolby).f("programme", r->adm_.audio_programmes.empty() ? std::vector<int>{-1} : B(r->adm_.audio_programmes[0].name));
    } else {
      Ev("read").f("bytes", B(f)).f("threshold", thr).f("ok", false);
    }
  }
  if (!r.ok() || r->adm_.file_type != kAdmFileTypeDefault || r->format_info_.samples_per_sec > 10000000) return;
  Wipe();
  int lfe = 0; in->clear();
  auto st = SpliceWavFilesFromAdm(fs::current_path(), "x", ProfileVersion::kIamfBaseProfile, *r, *in, lfe);
  std::vector<Raw> files;
  for (int i = 1; i < 12; ++i) { fs::path p = "x_converted" + std::to_string(i) + ".wav"; if (fs::exists(p)) files.push_back(File(p, i)); }
  Ev("splice").f("ok", st.ok()).f("files", files);
  Wipe();
}
static std::string DolbyFile(const std::vector<std::string>& xml, const std::string& data, int ch) {
  std::string x = "<a>"; for (auto& s : xml) x += s; x += "</a>";
  return std::string("RIFF") + Le32(0) + "WAVE" + Chunk("fmt ", Le16(1) + Le16(ch) + Le32(48000) + Le32(48000 * ch * 3) + Le16(ch * 3) + Le16(24), false) +
         Chunk("axml", x, false) + Chunk("dbmd", "", false) + Chunk("data", data, false);
}
static void DolbyScenario() {
  Ev("begin").f("docs", std::vector<int>{});
  const int ch = R->In(2, 5), n = R->In(2, 24);
  std::vector<std::string> xml; std::vector<int> lfe; int lfes = 0;
  for (int c = 0; c < ch; ++c) {
    bool l = R->P(40) && lfes + 1 < ch;
    if (l) { lfe.push_back(c); ++lfes; }
    std::string s = std::string("<audioChannelFormat audioChannelFormatName=\"") + (l ? "RoomCentricLFE" : "Room" + std::to_string(c)) + "\">";
    const int blocks = R->In(1, 2); const int split = n > 2 ? R->In(1, n - 1) : 1;
    for (int k = 0; k < blocks; ++k) {
      char t[128]; std::snprintf(t, sizeof t, "<audioBlockFormat rtime=\"00:00:%010.7f\" duration=\"00:00:%010.7f\">", k ? split / 48000.0 : 0.0, (blocks == 1 ? n : k ? n - split : split) / 48000.0);
      s += t;
      for (const char* ax : {"X", "Y", "Z"}) s += std::string("<position coordinate=\"") + ax + "\">" + std::to_string(R->In(-10, 10) / 10.0) + "</position>";
      s += "</audioBlockFormat>";
    }
    xml.push_back(s + "</audioChannelFormat>");
  }
  std::string data(ch * 3 * n, 0); for (auto& c : data) c = R->Next();
  for (size_t i = 2; i < data.size(); i += 3) data[i] = (char)R->In(-12, 12);  // quiet enough not to clip
  std::vector<std::string> xml2; std::string data2;
  for (int c = 0; c < ch; ++c) if (std::find(lfe.begin(), lfe.end(), c) == lfe.end()) xml2.push_back(xml[c]);
  for (int t = 0; t < n; ++t) for (int c = 0; c < ch; ++c) if (std::find(lfe.begin(), lfe.end(), c) == lfe.end()) data2 += data.substr((t * ch + c) * 3, 3);
  auto run = [&](const std::string& f, ProfileVersion v, bool* ok, int* count) {
    Wipe(); std::istringstream is(f);
    auto r = Bw64Reader::BuildFromStream(0, is); *count = 0; *ok = false;
    if (!r.ok()) return;
    is.clear();
    *ok = SpliceWavFilesFromAdm(fs::current_path(), "y", v, *r, is, *count).ok();
  };
  bool ok; int cnt, nch = 0; std::string pcm;
  const bool base = R->P(50);
  run(DolbyFile(xml2, data2, ch - lfes), base ? ProfileVersion::kIamfBaseProfile : ProfileVersion::kIamfBaseEnhancedProfile, &ok, &cnt);
  if (ok) File("y_converted1.wav", 1, &pcm, &nch);
  Ev("convert").f("ok", ok).f("channels", nch).f("out", ok ? B(pcm) : std::vector<int>{});
  run(DolbyFile(xml, data, ch), ProfileVersion::kIamfBaseEnhancedProfile, &ok, &cnt);
  pcm.clear(); nch = 0;
  if (ok) File("y_converted1.wav", 1, &pcm, &nch);
  std::vector<std::vector<int>> files;
  for (int i = 2; i < 9; ++i) { fs::path p = "y_converted" + std::to_string(i) + ".wav"; if (ok && fs::exists(p)) { std::string d; File(p, i, &d); files.push_back(B(d)); } }
  Ev("separate").f("ok", ok).f("channels", nch).f("out", ok ? B(pcm) : std::vector<int>{}).f("count", cnt).f("lfe", lfe).f("files", files).f("data", B(data)).f("nch", ch);
  Wipe();
}
int main(int argc, char** argv) {
  Init(argc, argv); Rng r(ArgI("seed", 1)); R = &r;
  setenv("TMPDIR", fs::current_path().c_str(), 1);
  const int n = ArgI("n", 100);
  for (int i = 0; i < n; ++i) { ReadScenario(); if (i % 6 == 0) DolbyScenario(); }
  return 0;
}
