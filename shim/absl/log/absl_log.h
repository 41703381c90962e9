// Harness stand-in for absl/log (Abseil 20220623 does not ship it).
#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include <type_traits>
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/string_view.h"
#include "absl/status/status.h"
#include "absl/base/log_severity.h"
namespace verif_shim {
enum Severity { kINFO = 0, kWARNING = 1, kERROR = 2, kFATAL = 3 };
struct StringifySink {
  std::string s;
  void Append(size_t n, char c) { s.append(n, c); }
  void Append(absl::string_view v) { s.append(v.data(), v.size()); }
  bool PutPaddedString(absl::string_view v, int, int, bool) {
    Append(v);
    return true;
  }
  friend void AbslFormatFlush(StringifySink* sink, absl::string_view v) {
    sink->Append(v);
  }
};
template <typename T>
concept HasOstream = requires(std::ostream& o, const T& t) { o << t; };
template <typename T>
concept HasStringify =
    requires(StringifySink& s, const T& t) { AbslStringify(s, t); };
// A message sink. Non-fatal messages are dropped.
class Msg {
 public:
  Msg(int sev, const char* file, int line) : sev_(sev) {
    if (sev_ == kFATAL) os_ << "FATAL " << file << ":" << line << " ";
  }
  [[noreturn]] static void Die(const std::string& s) {
    std::fprintf(stderr, "%s\n", s.c_str());
    std::abort();
  }
  ~Msg() {
    if (sev_ == kFATAL) Die(os_.str());
  }
  Msg& WithPerror() { return *this; }
  Msg& AtLocation(const char*, int) { return *this; }
  template <typename T>
  Msg& operator<<(const T& t) {
    if (sev_ != kFATAL) return *this;
    if constexpr (HasStringify<T>) {
      StringifySink sink;
      AbslStringify(sink, t);
      os_ << sink.s;
    } else if constexpr (HasOstream<T>) {
      os_ << t;
    }
    return *this;
  }
  Msg& operator<<(const char* t) {
    if (sev_ == kFATAL) os_ << t;
    return *this;
  }
  Msg& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }

 private:
  int sev_;
  std::ostringstream os_;
};
struct Voidify {
  void operator&&(const Msg&) const {}
};
}  // namespace verif_shim
#define VERIF_LOG_INFO ::verif_shim::kINFO
#define VERIF_LOG_WARNING ::verif_shim::kWARNING
#define VERIF_LOG_ERROR ::verif_shim::kERROR
#define VERIF_LOG_FATAL ::verif_shim::kFATAL
#define VERIF_LOG_DFATAL ::verif_shim::kERROR
#define VERIF_LOG_IF(sev, cond)                  \
  switch (0)                                     \
  case 0:                                        \
  default:                                       \
    !(cond) ? (void)0                            \
            : ::verif_shim::Voidify() &&         \
                  ::verif_shim::Msg(VERIF_LOG_##sev, __FILE__, __LINE__)
#define VERIF_QUIET(sev)                                                    \
  VERIF_LOG_IF(sev, (VERIF_LOG_##sev == ::verif_shim::kFATAL))
#define ABSL_LOG(sev) VERIF_QUIET(sev)
#define ABSL_LOG_IF(sev, cond) VERIF_LOG_IF(sev, (cond))
#define ABSL_LOG_FIRST_N(sev, n) VERIF_LOG_IF(sev, ((void)(n), false))
#define ABSL_LOG_EVERY_N(sev, n) VERIF_LOG_IF(sev, ((void)(n), false))
#define ABSL_LOG_EVERY_N_SEC(sev, n) VERIF_LOG_IF(sev, ((void)(n), false))
#define ABSL_LOG_EVERY_POW_2(sev) VERIF_LOG_IF(sev, false)
#define ABSL_VLOG(n) VERIF_LOG_IF(INFO, ((void)(n), false))
#define ABSL_DLOG(sev) VERIF_LOG_IF(sev, false)
#define ABSL_VLOG_IS_ON(n) false
#define LOG(sev) ABSL_LOG(sev)
#define VLOG(n) ABSL_VLOG(n)
#endif
