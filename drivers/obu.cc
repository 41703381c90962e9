// B01: the header and frame of every OBU.
#include <list>
#include <memory>
#include "absl/types/span.h"
#include "iamf/common/leb_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "iamf/obu/arbitrary_obu.h"
#include "iamf/obu/audio_frame.h"
#include "iamf/obu/metadata_obu.h"
#include "iamf/obu/obu_header.h"
#include "iamf/obu/temporal_delimiter.h"
#include "vtrace.h"
using namespace iamf_tools;
using namespace vt;
static Rng* R;
using Bytes = std::vector<uint8_t>;
static const char* Code(const absl::Status& s) {
  return s.ok() ? "OK" : absl::IsResourceExhausted(s) ? "EXHAUSTED" : absl::IsInvalidArgument(s) ? "INVALID" : "OTHER";
}
template <class V> static std::vector<int> I(const V& v) { std::vector<int> r; for (auto x : v) r.push_back((uint8_t)x); return r; }
static std::vector<int> Pr(uint64_t v) { return {(int)(v >> 16), (int)(v & 0xffff)}; }
static uint32_t Num() {
  switch (R->In(0, 4)) { case 0: return 0; case 1: return R->In(0, 300); case 2: return (1u << (7 * R->In(1, 4))) - R->In(0, 1); case 3: return 0xffffffffu - R->In(0, 3); default: return (uint32_t)R->Next() >> R->In(0, 31); }
}
static Bytes Some(int n) { Bytes b; for (int i = 0; i < n; ++i) b.push_back(R->P(20) ? 0 : R->P(20) ? 255 : R->In(0, 255)); return b; }
static int Few() { return R->P(80) ? R->In(0, 6) : R->P(90) ? R->In(0, 40) : R->In(120, 140); }
static std::unique_ptr<LebGenerator> Gen(int& mode) {
  mode = R->P(60) ? 0 : R->In(1, 8);
  return mode ? LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, mode) : LebGenerator::Create();
}
static ObuHeader Hdr(bool legal) {
  ObuHeader h; h.obu_type = static_cast<ObuType>(R->P(50) ? R->In(5, 23) : R->In(0, 31));
  h.obu_redundant_copy = R->P(legal ? 10 : 35); h.type_specific_flag = R->P(40);
  if (R->P(legal ? 60 : 85)) { h.num_samples_to_trim_at_end = Num(); h.num_samples_to_trim_at_start = Num(); }
  if (R->P(30)) h.extension_header_bytes = Some(R->P(90) ? Few() : R->In(140, 300));
  return h;
}
static Raw HJ(const ObuHeader& h) {
  const auto e = h.extension_header_bytes.value_or(Bytes{});
  return Obj().f("type", (int)h.obu_type).f("red", h.obu_redundant_copy).f("flag", h.type_specific_flag).f("te", Pr(h.num_samples_to_trim_at_end))
      .f("ts", Pr(h.num_samples_to_trim_at_start)).f("has_ext", h.GetExtensionHeaderFlag()).f("ext", I(e.size() <= 400 ? e : Bytes{})).end();
}
static std::unique_ptr<ReadBitBuffer> Rd(const Bytes& d, int at) {
  std::unique_ptr<ReadBitBuffer> rb;
  if (R->P(60)) rb = MemoryBasedReadBitBuffer::CreateFromSpan(d);
  else { auto s = StreamBasedReadBitBuffer::Create(R->In(1, 30)); (void)s->PushBytes(d); rb = std::move(s); }
  for (int i = 0; i < at; ++i) { uint8_t x; (void)rb->ReadUnsignedLiteral(8, x); }
  return rb;
}
static void HeaderRead(const Bytes& d, int at) {
  if (R->P(60)) {
    auto rb = Rd(d, at); auto m = ObuHeader::PeekObuTypeAndTotalObuSize(*rb);
    uint64_t t = m.ok() ? (uint64_t)m->total_obu_size : 0;
    Ev("peek").f("d", I(d)).f("at", at).f("st", Code(m.status())).f("type", m.ok() ? (int)m->obu_type : -1).f("total", Pr(t >> 47 ? 0 : t)).f("pos", rb->Tell());
  }
  auto rb = Rd(d, at); ObuHeader h; int64_t n = -7; auto s = h.ReadAndValidate(*rb, n);
  if (!s.ok()) h = ObuHeader{.obu_type = kObuIaCodecConfig};
  Ev("hr").f("d", I(d)).f("at", at).f("st", Code(s)).f("h", HJ(h)).f("n", s.ok() ? n : 0).f("pos", rb->Tell()).f("trim", s.ok() && h.GetObuTrimmingStatusFlag())
      .f("opt", s.ok() && h.GetOptionalFieldsFlag()).f("key", s.ok() && h.GetIsKeyFrame());
}
static void Header(int fixed = -1) {
  int mode; auto gen = Gen(mode); ObuHeader h = Hdr(false);
  if (fixed >= 0) { h.obu_type = static_cast<ObuType>(fixed % 32); h.obu_redundant_copy = fixed / 32 % 2; h.type_specific_flag = fixed / 64 % 2; if (R->P(50)) h.extension_header_bytes.reset(); }
  if (R->P(2)) h.extension_header_bytes = Bytes(R->P(50) ? 2097152 - R->In(0, 20) : R->In(400, 70000));
  WriteBitBuffer wb(R->In(0, 50), *gen);
  int64_t n = fixed >= 0 || R->P(50) ? R->In(0, 300) : R->P(60) ? 2097152 - R->In(-2, 24) - (int64_t)h.GetExtensionHeaderSize() : R->P(50) ? (int64_t)Num() : R->P(50) ? -R->In(1, 9) : (int64_t)4294967295ll + R->In(-2, 9);
  auto s = h.ValidateAndWrite(n, wb);
  const bool longe = h.GetExtensionHeaderSize() > 400;
  Ev("hw").f("h", HJ(h)).f("extn", h.extension_header_bytes ? (int)h.extension_header_bytes->size() : -1).f("n", n < 0 || n > 4294967295ll ? std::vector<int>{} : Pr(n))
      .f("mode", mode).f("ok", s.ok()).f("long", longe).f("bytes", I(longe ? Bytes{} : wb.bit_buffer()));
  if (longe) return;
  Bytes d = wb.bit_buffer(); if (!s.ok()) d = Some(R->In(0, 20));
  int at = R->P(70) ? 0 : R->In(1, 3); Bytes pre = Some(at); d.insert(d.begin(), pre.begin(), pre.end());
  HeaderRead(d, at);
  auto more = Some(R->In(0, 4));
  switch (R->In(0, 3)) {
    case 0: d.resize(R->In(at, std::max<int>(at, d.size()))); break;
    case 1: if ((int)d.size() > at) d[R->In(at, d.size() - 1)] = R->P(30) ? 255 : R->In(0, 255); break;
    case 2: if ((int)d.size() > at) d[at] = R->In(0, 255); break;
    default: { // sizes of every kind, also impossible ones
      d.resize(at); d.push_back(R->In(0, 255));
      int lebs = R->In(1, 4);
      for (int i = 0; i < lebs; ++i) {
        Bytes b; uint32_t v = R->P(30) ? 2097152 - R->In(0, 14) : Num(); auto g = R->P(50) ? LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, R->In(5, 8)) : LebGenerator::Create();
        (void)g->Uleb128ToUint8Vector(v, b); d.insert(d.end(), b.begin(), b.end());
      }
    }
  }
  d.insert(d.end(), more.begin(), more.end()); HeaderRead(d, at);
  for (int i = 0; i < 2; ++i) HeaderRead(Some(R->In(0, 14)), 0);
}
static std::string Str() { std::string s; int n = R->P(88) ? R->In(0, 5) : R->In(125, 130); for (int i = 0; i < n; ++i) s += (char)(R->P(1) ? 0 : R->In(1, 255)); return s; }
static Raw Tags(const MetadataIamfTags& t) {
  std::string s = "["; for (size_t i = 0; i < t.tags.size(); ++i) s += (i ? "," : "") + Js(std::vector<std::vector<int>>{I(t.tags[i].tag_name), I(t.tags[i].tag_value)}); return Raw{s + "]"};
}
template <class O> static void Write(Ev& e, O& o, bool reread, Bytes* out = nullptr) {
  int mode; auto gen = Gen(mode); WriteBitBuffer wb(R->In(0, 40), *gen); o.footer_ = Some(R->P(60) ? 0 : R->In(1, 9));
  Bytes before = Some(R->P(60) ? 0 : R->In(1, 3)); (void)wb.WriteUint8Span(before);
  auto s = o.ValidateAndWriteObu(wb);
  e.f("mode", mode).f("ok", s.ok()).f("h", HJ(o.header_)).f("footer", I(o.footer_)).f("before", I(before)).f("bytes", I(wb.bit_buffer()));
  if (s.ok() && out) out->assign(wb.bit_buffer().begin() + before.size(), wb.bit_buffer().end());
}
template <class O> static void Again(Ev& e, const absl::StatusOr<O>& o) {
  if (!o.ok()) { e.f("wok", false).f("again", Bytes{}); return; }
  auto gen = LebGenerator::Create(); WriteBitBuffer wb(64, *gen); auto s = o->ValidateAndWriteObu(wb);
  Bytes b = wb.bit_buffer();
  if (s.ok()) { auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(b); ObuHeader h; int64_t n; if (h.ReadAndValidate(*rb, n).ok()) b.erase(b.begin(), b.end() - n); }
  e.f("wok", s.ok()).f("again", I(b));
}
static bool Canon(const Bytes& d) { return d.empty() || d[0] < 128 || (d.size() > 1 && d[1] < 128 && d[1] > 0); }
static void Payload(const ObuHeader& h, const Bytes& d, int64_t n) {
  auto rb = Rd(d, 0); Ev e("or"); e.f("d", I(d)).f("n", n).f("h", HJ(h)).f("canon", Canon(d));
  if (h.obu_type == kObuIaTemporalDelimiter) {
    auto o = TemporalDelimiterObu::CreateFromBuffer(h, n, *rb); e.f("kind", "delim").f("st", Code(o.status())).f("pos", rb->Tell());
    e.f("footer", o.ok() ? I(o->footer_) : std::vector<int>{}); Again(e, o);
  } else if (h.obu_type == kObuIaMetadata) {
    auto o = MetadataObu::CreateFromBuffer(h, n, *rb); e.f("kind", "meta").f("st", Code(o.status())).f("pos", rb->Tell());
    if (o.ok()) {
      e.f("footer", I(o->footer_)).f("type", Pr((uint32_t)o->GetMetadataType()));
      auto* t = std::get_if<MetadataITUTT35>(&o->GetMetadataVariant()); auto* g = std::get_if<MetadataIamfTags>(&o->GetMetadataVariant());
      if (t) e.f("cc", t->itu_t_t35_country_code).f("cx", t->itu_t_t35_country_code_extension_byte ? (int)*t->itu_t_t35_country_code_extension_byte : -1).f("payload", I(t->itu_t_t35_payload_bytes));
      if (g) e.f("tags", Tags(*g));
    }
    Again(e, o);
  } else {
    auto o = AudioFrameObu::CreateFromBuffer(h, n, *rb); e.f("kind", "frame").f("st", Code(o.status())).f("pos", rb->Tell());
    if (o.ok()) e.f("footer", I(o->footer_)).f("id", Pr(o->GetSubstreamId())).f("audio", I(o->audio_frame_));
    Again(e, o);
  }
}
static void Obus(int k0 = -1, uint32_t id0 = 0) {
  ObuHeader h = Hdr(true); Bytes out; if (R->P(60)) h.obu_redundant_copy = false;
  switch (k0 >= 0 ? k0 : R->In(0, 3)) {
    case 0: { uint32_t id = k0 >= 0 ? id0 : R->P(60) ? R->In(0, 24) : Num(); Bytes a = Some(Few()); AudioFrameObu o(h, id, a);
      Ev e("ow"); e.f("kind", "frame").f("id", Pr(id)).f("audio", I(a)); Write(e, o, true, &out); break; }
    case 1: { if (R->P(50)) h.type_specific_flag = false; TemporalDelimiterObu o(h); Ev e("ow"); e.f("kind", "delim"); Write(e, o, true, &out); break; }
    case 2: {
      if (R->P(80)) h.type_specific_flag = false;
      MetadataVariant v; Ev e("ow"); e.f("kind", "meta");
      if (R->P(50)) {
        MetadataIamfTags t; int k = R->P(95) ? R->In(0, 4) : R->In(254, 257); const bool many = k > 9; for (int i = 0; i < k; ++i) t.tags.push_back(many ? MetadataIamfTags::Tag{"a", ""} : MetadataIamfTags::Tag{Str(), Str()});
        e.raw("meta", Obj().f("type", Pr(2)).f("tags", Tags(t)).end().s); v = t;
      } else {
        MetadataITUTT35 t; t.itu_t_t35_country_code = R->P(50) ? 255 : R->In(0, 254); if (t.itu_t_t35_country_code == 255 && R->P(85)) t.itu_t_t35_country_code_extension_byte = R->In(0, 255);
        t.itu_t_t35_payload_bytes = Some(Few());
        e.raw("meta", Obj().f("type", Pr(1)).f("cc", t.itu_t_t35_country_code).f("has_cx", t.itu_t_t35_country_code_extension_byte.has_value()).f("cx", t.itu_t_t35_country_code_extension_byte.value_or(0)).f("payload", I(t.itu_t_t35_payload_bytes)).end().s); v = t;
      }
      auto o = MetadataObu::Create(h, v); Write(e, o, true, &out); break; }
    default: {
      const bool bad = R->P(10); Bytes p = Some(Few()); ArbitraryObu o(h.obu_type, h, p, ArbitraryObu::kInsertionHookAfterDescriptors, std::nullopt, bad);
      Ev e("ow"); e.f("kind", "arb").f("type", (int)h.obu_type).f("payload", I(p)).f("invalidates", bad); Write(e, o, false, &out); }
  }
  if (!out.empty()) { // read it back the way a stream is read
    HeaderRead(out, 0);
    auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(out); ObuHeader g; int64_t n; 
    if (g.ReadAndValidate(*rb, n).ok() && (g.obu_type == 4 || g.obu_type == 24 || (g.obu_type >= 5 && g.obu_type <= 23))) {
      Bytes d(out.end() - n, out.end());
      Payload(g, d, n);
      int64_t m = n; if (R->P(30)) m = R->In(0, n + 3);
      switch (R->In(0, 3)) { case 0: if (n) d.resize(R->In(0, n - 1)); break; case 1: if (n) d[R->In(0, std::min<int>(n - 1, 4))] = R->In(0, 255); break; case 2: { auto x = Some(R->In(1, 5)); d.insert(d.end(), x.begin(), x.end()); break; } default:; }
      Payload(g, d, m);
    }
  }
  static const std::vector<int> kinds = {4, 5, 5, 6, 7, 23, 22, 24, 24, 24};
  ObuHeader k{.obu_type = static_cast<ObuType>(R->Pick(kinds))}; Bytes d = Some(R->In(0, 12)); if (k.obu_type == 24 && !d.empty()) d[0] = R->In(0, 3);
  Payload(k, d, R->P(60) ? (int64_t)d.size() : R->In(0, d.size() + 2));
}
static void Hooks() {
  int mode; auto gen = Gen(mode); std::list<ArbitraryObu> obus; std::string js = "["; int k = R->In(0, 5);
  for (int i = 0; i < k; ++i) {
    ObuHeader h = Hdr(true); if (R->P(80)) { h.obu_redundant_copy = false; if (!R->P(20)) { h.type_specific_flag = false; } }
    Bytes p = Some(R->In(0, 4)); auto hook = static_cast<ArbitraryObu::InsertionHook>(R->In(0, 2)); bool bad = R->P(4);
    obus.emplace_back(h.obu_type, h, p, hook, std::nullopt, bad); obus.back().footer_ = Some(R->In(0, 2));
    js += (i ? "," : "") + Obj().f("h", HJ(obus.back().header_)).f("payload", I(p)).f("footer", I(obus.back().footer_)).f("hook", (int)hook).f("invalidates", bad).end().s;
  }
  auto hook = static_cast<ArbitraryObu::InsertionHook>(R->In(0, 2)); WriteBitBuffer wb(R->In(0, 40), *gen);
  auto s = ArbitraryObu::WriteObusWithHook(hook, obus, wb);
  Ev("hook").f("hook", (int)hook).f("mode", mode).raw("list", js + "]").f("ok", s.ok()).f("bytes", I(wb.bit_buffer()));
}
int main(int argc, char** argv) {
  Init(argc, argv);
  Rng r(ArgI("seed", 1)); R = &r;
  const int n = ArgI("n", 10);
  for (int t = 0; t < 32; ++t) Ev("tu").f("type", t).f("is", ObuHeader::IsTemporalUnitObuType(static_cast<ObuType>(t)));
  const int sh = ArgI("shard", 0);
  for (int i = sh; i < 128; i += 8) { Ev("begin").f("i", i); Header(i); }
  for (int i = sh; i < 26; i += 8) { Ev("begin").f("i", i); Obus(0, i); }
  for (int i = 0; i < n; ++i) { Ev("begin").f("i", i); Header(); Obus(); if (i % 3 == 0) Hooks(); }
}
