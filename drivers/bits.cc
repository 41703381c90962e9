// B02: the bit readers and the bit writer.
#include <filesystem>
#include <fstream>
#include <memory>
#include <optional>
#include <limits>
#include "absl/types/span.h"
#include "iamf/common/leb_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "vtrace.h"
using namespace iamf_tools;
using namespace vt;
static Rng* R;
static const char* Code(const absl::Status& s) {
  return s.ok() ? "OK" : absl::IsResourceExhausted(s) ? "EXHAUSTED" : absl::IsFailedPrecondition(s) ? "PRECONDITION" : absl::IsInvalidArgument(s) ? "INVALID" : "OTHER";
}
static std::vector<int> B(uint64_t v, int n) { std::vector<int> r; for (int i = n - 1; i >= 0; --i) r.push_back(v >> i & 1); return r; }
template <class V> static std::vector<int> I(const V& v) { std::vector<int> r; for (auto x : v) r.push_back((uint8_t)x); return r; }
static std::vector<uint8_t> Noise(int n) {
  std::vector<uint8_t> r; const int mode = R->In(0, 5);
  for (int i = 0; i < n; ++i) r.push_back(mode == 0 ? 0 : mode == 1 ? 0xff : mode == 2 ? (R->P(80) ? 0x80 | R->In(0, 127) : R->In(0, 127)) : mode == 3 ? (R->P(70) ? 0x80 : R->In(0, 255)) : R->In(0, 255));
  return r;
}
struct Op { int kind, n, max; };
// One operation of the reader, recorded.
static void ReadOp(ReadBitBuffer& rb, const Op& o) {
  switch (o.kind) {
    case 0: {
      uint64_t v = 0; absl::Status s; const int m = o.max;
      if (m == 8) { uint8_t x = 0; s = rb.ReadUnsignedLiteral(o.n, x); v = x; }
      else if (m == 16) { uint16_t x = 0; s = rb.ReadUnsignedLiteral(o.n, x); v = x; }
      else if (m == 32) { uint32_t x = 0; s = rb.ReadUnsignedLiteral(o.n, x); v = x; }
      else s = rb.ReadUnsignedLiteral(o.n, v);
      // bits above the requested ones must be zero: they show up as a longer value
      bool over = s.ok() && o.n < 64 && o.n >= 0 && (v >> o.n);
      Ev("lit").f("n", o.n).f("max", m).f("st", Code(s)).f("v", s.ok() ? B(v, over ? 64 : o.n) : std::vector<int>{}).f("pos", rb.Tell()); break;
    }
    case 1: { bool x = false; auto s = rb.ReadBoolean(x); Ev("lit").f("n", 1).f("max", 64).f("st", Code(s)).f("v", B(x, 1)).f("pos", rb.Tell()); break; }
    case 2: { int16_t x = 0; auto s = rb.ReadSigned16(x); Ev("lit").f("n", 16).f("max", 64).f("st", Code(s)).f("v", B((uint16_t)x, 16)).f("pos", rb.Tell()); break; }
    case 3: { int8_t x = 0; auto s = rb.ReadSigned8(x); Ev("lit").f("n", 8).f("max", 64).f("st", Code(s)).f("v", B((uint8_t)x, 8)).f("pos", rb.Tell()); break; }
    case 4: { int16_t x = 0; auto s = rb.ReadSigned9(x); bool in = x >= -256 && x <= 255;
      Ev("lit").f("n", 9).f("max", 64).f("st", Code(s)).f("v", in ? B((uint16_t)x, 9) : std::vector<int>{}).f("pos", rb.Tell()); break; }
    case 5: { std::string x = "old"; auto s = rb.ReadString(x); Ev("str").f("st", Code(s)).f("v", I(x)).f("pos", rb.Tell()); break; }
    case 6: { DecodedUleb128 x = 0; int8_t n = 0; absl::Status s; const auto p = rb.Tell();
      if (o.n & 1) { s = rb.ReadULeb128(x); n = (rb.Tell() - p) / 8; } else s = rb.ReadULeb128(x, n);
      Ev("uleb").f("st", Code(s)).f("v", B(x, 32)).f("size", n).f("pos", rb.Tell()); break; }
    case 7: { uint32_t mx = o.max ? (uint32_t)R->Next() >> R->In(0, 31) : 0xffffffffu, x = 0; auto s = rb.ReadIso14496_1Expanded(mx, x);
      Ev("iso").f("max", B(mx, 32)).f("st", Code(s)).f("v", B(x, 32)).f("pos", rb.Tell()); break; }
    case 8: { std::vector<uint8_t> x(o.n, 7); auto s = rb.ReadUint8Span(absl::MakeSpan(x)); Ev("span").f("n", o.n).f("st", Code(s)).f("v", I(x)).f("pos", rb.Tell()); break; }
    default: Ev("avail").f("n", rb.NumBytesAvailable()).f("any", rb.IsDataAvailable());
  }
}
static Op RndOp() {
  static const int mx[] = {8, 16, 32, 64};
  Op o{(int)R->In(0, 9), 0, 0};
  if (R->P(45)) o.kind = 0;
  if (o.kind == 0) { o.max = mx[R->In(0, 3)]; o.n = R->P(4) ? -(int)R->In(1, 9) : R->P(4) ? o.max + R->In(1, 9) : R->P(50) ? R->In(0, 9) : R->In(0, o.max); }
  else if (o.kind == 8) o.n = R->P(90) ? R->In(0, 5) : R->In(0, 70);
  else { o.n = R->In(0, 9); o.max = R->In(0, 2); }
  return o;
}
static int g_file = 0;
// A reader of the given bytes; for a stream part of them may come later.
static void Reader(std::vector<uint8_t> data, const std::vector<Op>& script) {
  const int kind = R->In(0, 2); const int cap = R->P(70) ? R->In(1, 6) : R->In(1, 40);
  std::unique_ptr<ReadBitBuffer> rb; StreamBasedReadBitBuffer* sb = nullptr; std::string fn;
  size_t given = data.size();
  if (kind == 0) rb = MemoryBasedReadBitBuffer::CreateFromSpan(data);
  else if (kind == 1) {
    fn = "b" + std::to_string(g_file++); std::ofstream(fn, std::ios::binary).write((const char*)data.data(), data.size());
    rb = FileBasedReadBitBuffer::CreateFromFilePath(cap, fn);
  } else { auto s = StreamBasedReadBitBuffer::Create(cap); sb = s.get(); rb = std::move(s); given = 0; }
  Ev("begin").f("data", sb ? std::vector<int>{} : I(data)).f("kind", kind).f("cap", cap).f("ok", rb != nullptr);
  if (!rb) return;
  size_t next = 0; const bool hop = R->P(70); int steps = script.empty() ? R->In(3, 25) : (int)script.size();
  bool flushed = false;
  for (int i = 0, guard = 0; i < steps && guard < 90; ++guard) {
    if (sb && given < data.size() && R->P(35)) {
      size_t n = R->P(40) ? data.size() - given : std::min<size_t>(data.size() - given, R->In(0, 6));
      std::vector<uint8_t> part(data.begin() + given, data.begin() + given + n); given += n;
      auto s = sb->PushBytes(part); Ev("push").f("data", I(part)).f("st", Code(s)); continue;
    }
    if (sb && R->P(8)) { sb->Flush(); flushed = true; Ev("flush").f("cap", cap); if (R->P(50)) continue; }
    if (hop && (R->P(12) || (i == 0 && R->P(30)))) {
      const int tot = 8 * (int)data.size(); bool told = R->P(50), after = R->P(70); if (told) (void)rb->Tell();
      int64_t to = R->P(6) ? -R->In(1, 40) : R->P(8) ? tot + R->In(0, 20) : R->In(0, tot);
      if (!script.empty() && !sb && R->P(50)) { // there and back
        int64_t p = rb->Tell(); to = R->In(0, tot); auto s = rb->Seek(to); Ev("seek").f("to", to).f("told", true).f("told_after", false).f("st", Code(s));
        if (R->P(50)) ReadOp(*rb, RndOp());
        s = rb->Seek(p); Ev("seek").f("to", p).f("told", false).f("told_after", true).f("st", Code(s)).f("pos", rb->Tell()); continue;
      }
      auto s = rb->Seek(to);
      Ev e("seek"); e.f("to", to).f("told", told).f("told_after", after).f("st", Code(s)); if (after) e.f("pos", rb->Tell());
      continue;
    }
    if (hop && R->P(5)) { int n = R->In(-3, 6); auto s = rb->IgnoreBytes(n); Ev("ignore").f("n", n).f("st", Code(s)).f("pos", rb->Tell()); continue; }
    ReadOp(*rb, script.empty() ? RndOp() : script[i]); ++i;
  }
  (void)next; (void)flushed;
  rb.reset(); if (!fn.empty()) std::filesystem::remove(fn);
}
static uint64_t Val(int n) { uint64_t v = R->Next(); if (R->P(25)) v = R->P(50) ? ~0ull : R->Next() >> R->In(0, 63); return n >= 64 ? v : n <= 0 ? 0 : v & ((1ull << n) - 1); }
// Writes, then reads what was written the same way.
static void Life() {
  const int mode = R->P(50) ? 0 : R->In(1, 8);
  auto gen = mode ? LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, mode) : LebGenerator::Create();
  WriteBitBuffer wb(R->In(0, 20), *gen);
  Ev("w_begin").f("mode", mode);
  std::vector<Op> script; std::vector<uint8_t> flushed_bytes; const int steps = R->In(2, 14);
  auto rec = [&](Ev& e, const absl::Status& s) { e.f("st", Code(s)).f("off", wb.bit_offset()).f("bytes", I(wb.bit_buffer())); };
  for (int i = 0; i < steps; ++i) {
    switch (R->P(40) ? 0 : R->In(0, 9)) {
      case 0: {
        int max = R->P(50) ? 32 : 64, n = R->P(4) ? -(int)R->In(1, 5) : R->P(4) ? max + R->In(1, 5) : R->P(50) ? R->In(0, 9) : R->In(0, max);
        uint64_t v = R->P(92) ? Val(n) : Val(max); if (max == 32) v &= 0xffffffffu;
        auto s = max == 32 ? wb.WriteUnsignedLiteral((uint32_t)v, n) : wb.WriteUnsignedLiteral64(v, n);
        Ev e("w_lit"); e.f("v", B(v, 64)).f("n", n).f("max", max); rec(e, s);
        if (s.ok()) { static const int mx[] = {8, 16, 32, 64}; int m = mx[R->In(0, 3)]; script.push_back({0, n, n <= m ? m : 64}); } break;
      }
      case 1: { bool b = R->P(50); auto s = wb.WriteBoolean(b); Ev e("w_signed"); e.f("v", B(b, 1)).f("fits", true); rec(e, s); script.push_back({1, 0, 0}); break; }
      case 2: { int16_t v = (int16_t)R->Next(); auto s = wb.WriteSigned16(v); Ev e("w_signed"); e.f("v", B((uint16_t)v, 16)).f("fits", true); rec(e, s); script.push_back({2, 0, 0}); break; }
      case 3: { int8_t v = (int8_t)R->Next(); auto s = wb.WriteSigned8(v); Ev e("w_signed"); e.f("v", B((uint8_t)v, 8)).f("fits", true); rec(e, s); script.push_back({3, 0, 0}); break; }
      case 4: { int16_t v = R->P(80) ? R->In(-256, 255) : R->P(50) ? (R->P(50) ? 256 : -257) : (int16_t)R->Next(); bool fits = v >= -256 && v <= 255;
        auto s = wb.WriteSigned9(v); Ev e("w_signed"); e.f("v", fits ? B((uint16_t)v, 9) : std::vector<int>{}).f("fits", fits); rec(e, s); if (s.ok()) script.push_back({4, 0, 0}); break; }
      case 5: { std::string v; int n = R->P(85) ? R->In(0, 6) : R->In(120, 132); for (int k = 0; k < n; ++k) v += (char)(R->P(1) ? 0 : R->In(1, 255));
        auto s = wb.WriteString(v); Ev e("w_str"); e.f("v", I(v)); rec(e, s); if (s.ok()) script.push_back({5, 0, 0}); break; }
      case 6: { uint32_t v = (uint32_t)Val(32) >> R->In(0, 31); if (R->P(30)) v = (1u << R->In(0, 31)) - R->In(0, 1);
        auto s = wb.WriteUleb128(v); Ev e("w_uleb"); e.f("v", B(v, 32)); rec(e, s); if (s.ok()) script.push_back({6, (int)R->In(0, 1), 0}); break; }
      case 7: { uint32_t v = (uint32_t)Val(32) >> R->In(0, 31); auto s = wb.WriteIso14496_1Expanded(v); Ev e("w_iso"); e.f("v", B(v, 32)); rec(e, s); script.push_back({7, 0, 0}); break; }
      case 8: { auto v = Noise(R->P(90) ? R->In(0, 5) : R->In(0, 40)); auto s = wb.WriteUint8Span(v); Ev e("w_span"); e.f("v", I(v)); rec(e, s); script.push_back({8, (int)v.size(), 0}); break; }
      default: {
        if (R->P(25)) { wb.Reset(); Ev e("w_reset"); rec(e, absl::OkStatus()); script.clear(); break; }
        if (R->P(60)) break;
        std::optional<std::fstream> f; const std::string fn = "w" + std::to_string(g_file++); const bool has = R->P(70);
        if (has) f.emplace(fn, std::ios::binary | std::ios::out);
        auto s = wb.FlushAndWriteToFile(f); if (f) f->close();
        std::string b; if (has) { std::ifstream x(fn, std::ios::binary); b.assign((std::istreambuf_iterator<char>(x)), {}); std::filesystem::remove(fn); }
        Ev e("w_flush"); e.f("has_file", has).f("file", I(b)); rec(e, s); if (s.ok()) script.clear();
      }
    }
  }
  std::vector<uint8_t> data = wb.bit_buffer();
  if (R->P(20)) { auto x = Noise(R->In(1, 3)); data.insert(data.end(), x.begin(), x.end()); }
  if (R->P(20) && !data.empty()) data.resize(R->In(0, data.size() - 1));
  if (!script.empty()) Reader(data, script);
  auto n = Noise(R->P(70) ? R->In(0, 30) : R->In(0, 150)); Reader(n, {});
  // signed leb128 and the generator's modes
  uint32_t v = (uint32_t)((int32_t)Val(32) >> R->In(0, 31)); std::vector<uint8_t> out; auto s = gen->Sleb128ToUint8Vector((int32_t)v, out);
  Ev("sleb").f("v", B(v, 32)).f("mode", mode).f("st", s.ok() ? "OK" : "INVALID").f("out", I(out));
  int sz = R->In(-2, 11); bool fx = R->P(60);
  Ev("leb_generator").f("mode", fx ? "fixed" : "min").f("size", sz).f("some", LebGenerator::Create(fx ? LebGenerator::GenerationMode::kFixedSize : LebGenerator::GenerationMode::kMinimum, sz) != nullptr);
}
// How much a streaming reader may hold.
static void Limit() {
  auto rb = StreamBasedReadBitBuffer::Create(R->In(1, 2000000)); Ev("lim_begin").f("k", 0);
  static const std::vector<uint8_t> z(5000000);
  int64_t held = 0;
  for (int i = 0; i < 8; ++i) {
    if (R->P(70)) {
      int64_t n = R->P(40) ? 4194304 - held + R->In(-1, 2) : R->P(50) ? R->In(0, 2100000) : R->In(0, 10); if (n < 0) n = 0; if (n > 5000000) n = 5000000;
      auto s = rb->PushBytes(absl::MakeConstSpan(z.data(), n)); if (s.ok()) held = rb->NumBytesAvailable();
      Ev("lim_push").f("n", n).f("st", Code(s)).f("avail", rb->NumBytesAvailable());
    } else {
      int64_t n = R->P(40) ? held : R->In(0, held); auto s = rb->IgnoreBytes(n); rb->Flush(); held = rb->NumBytesAvailable();
      Ev("lim_drop").f("n", n).f("st", Code(s)).f("avail", held);
    }
  }
}
int main(int argc, char** argv) {
  Init(argc, argv);
  Rng r(ArgI("seed", 1)); R = &r;
  const int n = ArgI("n", 10);
  for (int i = 0; i < n; ++i) { Life(); if (i % 50 == 0) Limit(); }
}
