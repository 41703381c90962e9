#ifndef VERIF_SHIM_ABSL_CHECK_H_
#define VERIF_SHIM_ABSL_CHECK_H_
#include "absl/log/absl_log.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace verif_shim {
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <typename T>
const absl::Status& AsStatus(const absl::StatusOr<T>& s) {
  return s.status();
}
template <typename T>
T&& DieIfNull(T&& t) {
  if (t == nullptr) Msg::Die("DIE_IF_NULL");
  return std::forward<T>(t);
}
}  // namespace verif_shim
#define ABSL_CHECK(c) VERIF_LOG_IF(FATAL, !(c)) << "Check failed: " #c " "
#define ABSL_CHECK_OP(a, op, b) \
  VERIF_LOG_IF(FATAL, !((a)op(b))) << "Check failed: " #a " " #op " " #b " "
#define ABSL_CHECK_EQ(a, b) ABSL_CHECK_OP(a, ==, b)
#define ABSL_CHECK_NE(a, b) ABSL_CHECK_OP(a, !=, b)
#define ABSL_CHECK_LT(a, b) ABSL_CHECK_OP(a, <, b)
#define ABSL_CHECK_LE(a, b) ABSL_CHECK_OP(a, <=, b)
#define ABSL_CHECK_GT(a, b) ABSL_CHECK_OP(a, >, b)
#define ABSL_CHECK_GE(a, b) ABSL_CHECK_OP(a, >=, b)
#define ABSL_CHECK_OK(s) \
  VERIF_LOG_IF(FATAL, !::verif_shim::AsStatus(s).ok()) << "Check OK: " #s " "
// Release semantics: evaluated only when VERIF_DCHECK is defined.
#ifdef VERIF_DCHECK
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK_OP(a, op, b) ABSL_CHECK_OP(a, op, b)
#else
#define ABSL_DCHECK(c) VERIF_LOG_IF(FATAL, (false && !(c)))
#define ABSL_DCHECK_OP(a, op, b) VERIF_LOG_IF(FATAL, (false && !((a)op(b))))
#endif
#define ABSL_DCHECK_EQ(a, b) ABSL_DCHECK_OP(a, ==, b)
#define ABSL_DCHECK_NE(a, b) ABSL_DCHECK_OP(a, !=, b)
#define ABSL_DCHECK_LT(a, b) ABSL_DCHECK_OP(a, <, b)
#define ABSL_DCHECK_LE(a, b) ABSL_DCHECK_OP(a, <=, b)
#define ABSL_DCHECK_GT(a, b) ABSL_DCHECK_OP(a, >, b)
#define ABSL_DCHECK_GE(a, b) ABSL_DCHECK_OP(a, >=, b)
#define ABSL_DCHECK_OK(s) ABSL_DCHECK(::verif_shim::AsStatus(s).ok())
#define ABSL_QCHECK(c) ABSL_CHECK(c)
#define ABSL_QCHECK_OK(c) ABSL_CHECK_OK(c)
#define CHECK(c) ABSL_CHECK(c)
#define CHECK_OK(c) ABSL_CHECK_OK(c)
#define CHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define CHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_DIE_IF_NULL(p) ::verif_shim::DieIfNull(p)
#endif
