// N01: numeric conversions.
#include <cmath>
#include <limits>
#include "absl/types/span.h"
#include "iamf/cli/sample_processing_utils.h"
#include "iamf/common/q_format_or_floating_point.h"
#include "iamf/common/utils/numeric_utils.h"
#include "iamf/common/utils/validation_utils.h"
#include "vtrace.h"
using namespace iamf_tools;
using namespace vt;
static Rng* R;
static Raw WM(bool neg, uint64_t mag) { return Obj().f("n", neg && mag != 0).raw("m", Limbs(mag)).end(); }
template <class T> static Raw W(T v) {
  if constexpr (std::is_signed_v<T>) return WM(v < 0, v < 0 ? 0 - (uint64_t)(int64_t)v : (uint64_t)v);
  else return WM(false, (uint64_t)v);
}
template <class T> static const char* Name() {
  if constexpr (std::is_same_v<T, bool>) return "bool";
  else if constexpr (std::is_signed_v<T>) return sizeof(T) == 1 ? "i8" : sizeof(T) == 2 ? "i16" : sizeof(T) == 4 ? "i32" : "i64";
  else return sizeof(T) == 1 ? "u8" : sizeof(T) == 2 ? "u16" : sizeof(T) == 4 ? "u32" : "u64";
}
// values around the limits of every type, and random ones
template <class T> static T Val() {
  static const int bits[] = {0, 1, 7, 8, 15, 16, 31, 32, 63};
  uint64_t v = uint64_t{1} << bits[R->In(0, 8)];
  switch (R->In(0, 4)) {
    case 0: v = R->Next() >> R->In(0, 63); break;
    case 1: v = 0 - v; break;
    case 2: v = 0 - (R->Next() >> R->In(0, 63)); break;
    default: break;
  }
  return (T)(v + R->In(-2, 2));
}
template <class A, class B> static void Cast1() {
  A a = Val<A>();
  B b{};
  bool ok = StaticCastIfInRange("x", a, b).ok();
  Ev("cast").f("from", Name<A>()).f("to", Name<B>()).f("v", W(a)).f("ok", ok).f("r", W(b));
}
template <class A, class B> static void CastSpan() {
  std::vector<A> a(R->In(0, 4));
  for (auto& x : a) x = R->P(60) ? (A)R->In(0, 100) : Val<A>();
  std::vector<B> b(R->P(80) ? a.size() : R->In(0, 5));
  bool ok = StaticCastSpanIfInRange<A, B>("x", absl::MakeConstSpan(a), absl::MakeSpan(b)).ok();
  std::string va = "[", vb = "[";
  for (size_t i = 0; i < a.size(); ++i) va += (i ? "," : "") + W(a[i]).s;
  for (size_t i = 0; i < b.size(); ++i) vb += (i ? "," : "") + W(b[i]).s;
  Ev("castall").f("to", Name<B>()).raw("v", va + "]").f("room", (int)b.size()).f("ok", ok).raw("r", vb + "]");
}
template <class A> static void CastFrom() {
  Cast1<A, int8_t>(); Cast1<A, uint8_t>(); Cast1<A, int16_t>(); Cast1<A, uint16_t>(); Cast1<A, int32_t>();
  Cast1<A, uint32_t>(); Cast1<A, int64_t>(); Cast1<A, uint64_t>();
}
struct Sized { size_t n; size_t size() const { return n; } };
template <class T> static void SizeEq() {
  Sized s{R->P(30) ? (size_t)Val<uint64_t>() : (size_t)R->In(0, 300)};
  T rep = R->P(60) ? (T)s.n : R->P(50) ? (T)R->In(0, 120) : Val<T>();
  bool ok = ValidateContainerSizeEqual("x", s, rep).ok();
  Ev("size").f("type", Name<T>()).f("actual", W(s.n)).f("reported", W(rep)).f("ok", ok);
}
int main(int argc, char** argv) {
  Init(argc, argv);
  Rng r(ArgI("seed", 1));
  R = &r;
  const int shard = ArgI("shard", 0), n = ArgI("n", 100);
  const uint16_t one = 1;
  Ev("endian").f("big", IsNativeBigEndian()).f("native", *(const uint8_t*)&one == 0);
  for (int v = -32768 + shard; v < 32768; v += 8 * (ArgI("dense", 0) ? 1 : 8)) {
    QFormatOrFloatingPoint q = QFormatOrFloatingPoint::MakeFromQ7_8(v);
    Ev("q78back").f("v", v).f("steps", (int)std::lround(Q7_8ToFloat(v) * 256.0)).f("wsteps", (int)std::lround(q.GetFloatingPoint() * 256.0)).f("wq", q.GetQ7_8());
  }
  for (int v = shard; v < 256; v += 8) Ev("q08back").f("v", v).f("steps", (int)std::lround(Q0_8ToFloat(v) * 256.0));
  for (int t = 0; t < n; ++t) {
    {
      uint32_t a = Val<uint32_t>(), b = r.P(50) ? Val<uint32_t>() : (uint32_t)(0 - a + (uint32_t)r.In(-2, 2)), s = 0;
      bool ok = AddUint32CheckOverflow(a, b, s).ok();
      Ev("add").raw("a", Limbs(a, 2)).raw("b", Limbs(b, 2)).f("ok", ok).raw("r", Limbs(s, 2));
    }
    switch (r.In(0, 7)) {
      case 0: CastFrom<int8_t>(); break;
      case 1: CastFrom<uint8_t>(); break;
      case 2: CastFrom<int16_t>(); break;
      case 3: CastFrom<uint16_t>(); break;
      case 4: CastFrom<int32_t>(); break;
      case 5: CastFrom<uint32_t>(); break;
      case 6: CastFrom<int64_t>(); break;
      default: CastFrom<uint64_t>(); break;
    }
    Cast1<uint32_t, bool>(); Cast1<uint32_t, uint8_t>(); Cast1<int32_t, int16_t>(); Cast1<size_t, uint8_t>();
    { char c = (char)r.In(0, 255); uint8_t u = 0; bool ok = StaticCastIfInRange("c", c, u).ok();
      Ev("cast").f("from", "char").f("to", "u8").f("v", W((uint8_t)c)).f("ok", ok).f("r", W(u)); }
    CastSpan<uint32_t, uint8_t>(); CastSpan<int32_t, int16_t>(); CastSpan<int, uint32_t>();
    SizeEq<uint8_t>(); SizeEq<uint32_t>(); SizeEq<size_t>(); SizeEq<int>();
    for (int w = 0; w < 2; ++w) {
      const bool q78 = w == 0;
      const int f = 13;
      int num = q78 ? (r.P(40) ? (int)r.In(-34000, 34000) * 32 + (int)r.In(-33, 33) : r.P(50) ? (int)r.In(-4096, 4096)
                       : (r.P(50) ? 32767 * 32 : -32768 * 32) + (int)r.In(-40, 40))
                    : (int)r.In(-100, 8192 + 100);
      if (r.P(25)) num = q78 ? (r.P(50) ? 32767 * 32 : -32768 * 32) + (int)r.In(-1, 1) : (r.P(50) ? 8192 : 0) + (int)r.In(-1, 1);
      float v = (float)num / 8192.0f;
      std::string sp;
      if (r.P(6)) { static const float s[] = {NAN, INFINITY, -INFINITY, 1e30f, -1e30f}; v = s[r.In(0, 4)]; sp = "special"; }
      if (q78) {
        int16_t q = 12345; bool ok = FloatToQ7_8(v, q).ok();
        auto wq = QFormatOrFloatingPoint::CreateFromFloatingPoint(v);
        Ev("q78").f("num", num).f("f", f).f("special", sp).f("ok", ok).f("r", q).f("wok", wq.ok()).f("wr", wq.ok() ? wq->GetQ7_8() : 0)
            .f("wback", wq.ok() ? (int)std::lround(wq->GetFloatingPoint() * 256.0) : 0);
      } else {
        uint8_t q = 123; bool ok = FloatToQ0_8(v, q).ok();
        Ev("q08").f("num", num).f("f", f).f("special", sp).f("ok", ok).f("r", q);
      }
    }
    {
      static const int sizes[] = {8, 16, 24, 32, 8, 16, 24, 32, 16, 24, 1, 7, 12, 20, 31, 33, 40, 64, 248, 255};
      uint32_t s = r.P(50) ? (uint32_t)r.Next() : Val<uint32_t>();
      int bits = sizes[r.In(0, 19)]; bool big = r.P(50);
      uint8_t buf[24]; std::vector<uint8_t> before; for (auto& x : buf) { x = r.In(0, 255); before.push_back(x); }
      size_t pos = r.In(0, 8), p0 = pos;
      bool ok = WritePcmSample(s, bits, big, buf, pos).ok();
      std::vector<int> sb, out; for (int i = 0; i < 4; ++i) sb.push_back((s >> (8 * i)) & 255);
      bool around = true;
      for (size_t i = 0; i < 24; ++i) if (i >= p0 && i < pos) out.push_back(buf[i]); else around = around && buf[i] == before[i];
      Ev("writepcm").f("s", sb).f("bits", bits).f("big", big).f("ok", ok).f("moved", (int)(pos - p0)).f("out", out).f("around", around);
    }
    {
      std::vector<uint8_t> b(r.P(90) ? r.In(1, 4) : r.In(0, 6)); for (auto& x : b) x = r.P(30) ? (r.P(50) ? 255 : 128) : r.In(0, 255);
      int32_t v = 0; bool big = r.P(50);
      bool ok = (big ? BigEndianBytesToInt32(b, v) : LittleEndianBytesToInt32(b, v)).ok();
      std::vector<int> sb; for (int i = 0; i < 4; ++i) sb.push_back(((uint32_t)v >> (8 * i)) & 255);
      Ev("readpcm").f("b", b).f("big", big).f("ok", ok).f("s", sb);
    }
    {
      int64_t m = Val<int64_t>() % (int64_t{1} << 53); int f = r.In(0, 31); double d = std::ldexp((double)m, -f); std::string sp;
      if (r.P(40)) { m = (r.P(50) ? 1 : -1) * ((int64_t{1} << (31 + f > 52 ? 52 : 31 + f)) + r.In(-3, 3)); d = std::ldexp((double)m, -f); }
      if (r.P(6)) { int k = r.In(0, 2); d = k == 0 ? NAN : k == 1 ? INFINITY : -INFINITY; sp = k == 0 ? "nan" : k == 1 ? "+inf" : "-inf"; }
      int32_t out = 0; bool ok = ClipDoubleToInt32(d, out).ok();
      Ev("clip").f("v", W(m)).f("f", f).f("special", sp).f("ok", ok).f("r", W(out));
      m = r.P(30) ? Val<int64_t>() % (int64_t{1} << 53) : (int64_t)(r.Next() >> 11) * (r.P(50) ? 1 : -1);
      f = r.In(31, 55); if (r.P(20)) { f = r.In(31, 51); m = (r.P(50) ? 1 : -1) * ((int64_t{1} << f) + r.In(-3, 3)); }
      d = std::ldexp((double)m, -f); sp = "";
      if (r.P(6)) { int k = r.In(0, 2); d = k == 0 ? NAN : k == 1 ? INFINITY : -INFINITY; sp = "special"; }
      ok = NormalizedFloatingPointToInt32(d, out).ok();
      Ev("toint").f("t", "double").f("v", W(m)).f("f", f).f("special", sp).f("ok", ok).f("r", W(out));
      m = (int64_t)(r.Next() >> 40) * (r.P(50) ? 1 : -1); f = r.In(31, 40); if (r.P(60)) f = r.In(22, 24); if (f < 31) { m <<= 10; f += 10; }
      float fl = (float)std::ldexp((double)m, -f); sp = "";
      if (r.P(6)) { int k = r.In(0, 2); fl = k == 0 ? NAN : k == 1 ? INFINITY : -INFINITY; sp = "special"; }
      ok = NormalizedFloatingPointToInt32(fl, out).ok();
      Ev("toint").f("t", "float").f("v", W(m)).f("f", f).f("special", sp).f("ok", ok).f("r", W(out));
    }
    {
      int32_t v = r.P(50) ? (int32_t)r.Next() : Val<int32_t>(), back = 0;
      double d = Int32ToNormalizedFloatingPoint<double>(v), s = std::ldexp(d, 31);
      float fl = Int32ToNormalizedFloatingPoint<float>(v); double fs = std::ldexp((double)fl, 31);
      bool exact = std::floor(s) == s && std::fabs(s) < 1e10 && std::fabs(fs) < 1e10 && NormalizedFloatingPointToInt32(d, back).ok();
      Ev("tonorm").f("v", W(v)).f("exact", exact).f("d", W((int64_t)(exact ? s : 0))).f("fl", W((int64_t)(exact ? fs : 0))).f("back", W(back));
    }
  }
}
