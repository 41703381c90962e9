// The metadata a user writes: as JSON, every field that counts, and changed anywhere.
#ifndef METADATA_H_
#define METADATA_H_
#include <algorithm>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/message.h>
#include "defs.h"
#include "iamf/cli/proto/obu_header.pb.h"
namespace pb = google::protobuf;
namespace ip = iamf_tools_cli_proto;
using FD = pb::FieldDescriptor;
// --- a message as JSON, every field that counts
[[maybe_unused]] static std::string Big(uint64_t v) { return Js(std::vector<int>{(int)(v >> 32), (int)((v >> 16) & 0xffff), (int)(v & 0xffff)}); }
[[maybe_unused]] static std::string Quad(int64_t v) { const uint64_t u = v; return Js(std::vector<int>{(int)(u >> 48), (int)((u >> 32) & 0xffff), (int)((u >> 16) & 0xffff), (int)(u & 0xffff)}); }
[[maybe_unused]] static std::string Dump(const pb::Message& m);
[[maybe_unused]] static std::string Value(const pb::Message& m, const FD* f, int i) {
  auto* r = m.GetReflection();
  switch (f->cpp_type()) {
#define GET(T) (i < 0 ? r->Get##T(m, f) : r->GetRepeated##T(m, f, i))
    case FD::CPPTYPE_UINT32: return Js(Pr(GET(UInt32)));
    case FD::CPPTYPE_INT32: return Js((int)GET(Int32));
    case FD::CPPTYPE_UINT64: return Big(GET(UInt64));
    case FD::CPPTYPE_INT64: return Quad(GET(Int64));
    case FD::CPPTYPE_BOOL: return Js(GET(Bool));
    case FD::CPPTYPE_ENUM: return Js((int)(i < 0 ? r->GetEnumValue(m, f) : r->GetRepeatedEnumValue(m, f, i)));
    case FD::CPPTYPE_FLOAT: return Js((int)std::lround(GET(Float) * 256));
    case FD::CPPTYPE_DOUBLE: return Js((int)std::lround(GET(Double) * 256));
    case FD::CPPTYPE_STRING: { auto s = GET(String); return Js(I(s)); }
    case FD::CPPTYPE_MESSAGE: return Dump(GET(Message));
    default: abort();
  }
}
[[maybe_unused]] static bool Skipped(const FD* f) { return f->name().find("encoder_metadata") != std::string::npos; }
[[maybe_unused]] static std::string Dump(const pb::Message& m) {
  static const std::vector<std::string> kHas = {"primary_profile", "additional_profile", "param_definition_type", "element_gain_offset_config", "decoder_specific_info", "itu_t_t35_country_code_extension_byte"};
  auto* d = m.GetDescriptor(); auto* r = m.GetReflection(); Obj o;
  for (int k = 0; k < d->field_count(); ++k) {
    auto* f = d->field(k); if (Skipped(f)) continue;
    if (f->is_map()) { std::vector<std::string> v; for (int i = 0; i < r->FieldSize(m, f); ++i) { auto& e = r->GetRepeatedMessage(m, f, i); v.push_back("[" + Value(e, e.GetDescriptor()->field(0), -1) + "," + Value(e, e.GetDescriptor()->field(1), -1) + "]"); }
      std::sort(v.begin(), v.end()); std::string s; for (auto& x : v) s += (s.empty() ? "" : ",") + x; o.raw(f->name().c_str(), "[" + s + "]"); continue; }
    if (f->is_repeated()) { std::string s = "["; for (int i = 0; i < r->FieldSize(m, f); ++i) s += (i ? "," : "") + Value(m, f, i); o.raw(f->name().c_str(), s + "]"); continue; }
    const bool one = f->containing_oneof() != nullptr;
    if (one || f->options().deprecated() || std::find(kHas.begin(), kHas.end(), f->name()) != kHas.end()) o.f(("has_" + f->name()).c_str(), r->HasField(m, f));
    if ((!one && !f->options().deprecated()) || r->HasField(m, f)) o.raw(f->name().c_str(), Value(m, f, -1));
  }
  return o.end().s;
}

// --- a change to one field, anywhere
struct Leaf { pb::Message* m; const FD* f; int i; };
[[maybe_unused]] static void Leaves(pb::Message* m, std::vector<Leaf>& v) {
  auto* d = m->GetDescriptor(); auto* r = m->GetReflection();
  for (int k = 0; k < d->field_count(); ++k) {
    auto* f = d->field(k); if (Skipped(f) || f->is_map()) continue;
    if (f->is_repeated()) {
      if (R->P(30)) v.push_back({m, f, -1});
      for (int i = 0; i < r->FieldSize(*m, f); ++i) if (f->cpp_type() == FD::CPPTYPE_MESSAGE) Leaves(r->MutableRepeatedMessage(m, f, i), v); else if (R->P(50)) v.push_back({m, f, i});
    } else if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
      if (R->P(15)) v.push_back({m, f, -1});
      if (r->HasField(*m, f)) Leaves(r->MutableMessage(m, f), v);
    } else if (!f->options().deprecated() || R->P(20)) v.push_back({m, f, -1});
  }
}
[[maybe_unused]] static uint32_t U32(uint32_t cur) { return R->P(40) ? cur + R->Pick<int>({1, -1, 256, 65536, 2, -2}) : R->Pick<uint32_t>({0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 65535, 65536, 65537, 0x7fffffffu, 0x80000000u, 0xffffffffu, (uint32_t)R->In(0, 300)}); }
[[maybe_unused]] static int32_t S32(int32_t cur) { return R->P(30) && std::abs(cur) < 1000000 ? cur + R->Pick<int>({1, -1, 256, -256, 65536, -65536}) : R->Pick<int32_t>({0, 1, -1, 127, 128, 255, 256, -128, -129, -256, 180, 181, -181, 32767, 32768, -32768, -32769, 65535, 65536, -65536, 2147483647, -2147483647, R->In(-300, 300)}); }
[[maybe_unused]] static void Change(pb::Message& top) {
  std::vector<Leaf> v; Leaves(&top, v); if (v.empty()) return;
  auto [m, f, i] = R->Pick(v); auto* r = m->GetReflection();
  if (f->is_repeated() && i < 0) {
    const int n = r->FieldSize(*m, f);
    if (n && R->P(50)) { r->RemoveLast(m, f); return; }
    if (n && f->cpp_type() == FD::CPPTYPE_MESSAGE) { auto* a = r->AddMessage(m, f); a->CopyFrom(r->GetRepeatedMessage(*m, f, R->In(0, n - 1))); return; }
    switch (f->cpp_type()) {
      case FD::CPPTYPE_UINT32: r->AddUInt32(m, f, R->In(0, 5)); return;
      case FD::CPPTYPE_INT32: r->AddInt32(m, f, R->In(0, 5)); return;
      case FD::CPPTYPE_ENUM: r->AddEnum(m, f, f->enum_type()->value(R->In(0, f->enum_type()->value_count() - 1))); return;
      case FD::CPPTYPE_STRING: r->AddString(m, f, "x"); return;
      case FD::CPPTYPE_MESSAGE: r->AddMessage(m, f); return;
      default: return;
    }
  }
  if (f->cpp_type() == FD::CPPTYPE_MESSAGE) { if (r->HasField(*m, f)) r->ClearField(m, f); else r->MutableMessage(m, f); return; }
  if (i < 0 && R->P(12)) { r->ClearField(m, f); return; }
#define SET(T, expr) { auto cur = i < 0 ? r->Get##T(*m, f) : r->GetRepeated##T(*m, f, i); (void)cur; auto nv = (expr); if (i < 0) r->Set##T(m, f, nv); else r->SetRepeated##T(m, f, i, nv); return; }
  switch (f->cpp_type()) {
    case FD::CPPTYPE_UINT32: SET(UInt32, U32(cur))
    case FD::CPPTYPE_INT32: SET(Int32, S32(cur))
    case FD::CPPTYPE_UINT64: SET(UInt64, R->Pick<uint64_t>({0, 1, 65536, (1ull << 36) - 1, 1ull << 36, 1ull << 40}))
    case FD::CPPTYPE_INT64: SET(Int64, R->P(60) ? cur + R->Pick<int>({1, -1, 256}) : R->Pick<int64_t>({0, 1, -1, 1ll << 32, -(1ll << 40)}))
    case FD::CPPTYPE_BOOL: SET(Bool, !cur)
    case FD::CPPTYPE_ENUM: { auto* e = f->enum_type()->value(R->In(0, f->enum_type()->value_count() - 1)); if (i < 0) r->SetEnum(m, f, e); else r->SetRepeatedEnum(m, f, i, e); return; }
    case FD::CPPTYPE_FLOAT: SET(Float, (float)R->In(-40000, 40000) / 256)
    case FD::CPPTYPE_STRING: SET(String, std::string(R->In(0, 20), (char)R->In(1, 255)))
    default: return;
  }
}
[[maybe_unused]] static void Changes(pb::Message& m) { if (R->P(55)) return; for (int k = R->P(75) ? 1 : R->In(2, 3); k > 0; --k) Change(m); }

[[maybe_unused]] static void Head(ip::ObuHeaderMetadata* h, bool flag) {
  if (R->P(20)) h->set_obu_redundant_copy(R->P(50)); if (flag || R->P(5)) h->set_obu_trimming_status_flag(flag || R->P(50));
  if (R->P(15)) h->set_obu_extension_flag(R->P(80)); if (R->P(15)) { auto b = Some(R->In(0, 4)); h->set_extension_header_bytes(std::string(b.begin(), b.end())); }
}
[[maybe_unused]] static std::string Str(int n) { auto b = Some(n); return std::string(b.begin(), b.end()); }
#endif
