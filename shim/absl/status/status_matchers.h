#pragma once
#include "absl/log/absl_check.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "gmock/gmock.h"
namespace absl_testing {
class IsOkM {
 public:
  template <typename T> operator ::testing::Matcher<T>() const {
    return ::testing::Matcher<T>(new Impl<const T&>());
  }
  template <typename T> class Impl : public ::testing::MatcherInterface<T> {
   public:
    void DescribeTo(std::ostream* os) const override { *os << "is OK"; }
    bool MatchAndExplain(T s, ::testing::MatchResultListener*) const override { return ::verif_shim::AsStatus(s).ok(); }
  };
};
inline IsOkM IsOk() { return IsOkM(); }
MATCHER_P(IsOkAndHolds, m, "") { return arg.ok() && ::testing::ExplainMatchResult(m, *arg, result_listener); }
MATCHER_P(StatusIs1, m, "") { return ::testing::ExplainMatchResult(m, ::verif_shim::AsStatus(arg).code(), result_listener); }
MATCHER_P2(StatusIs2, m, msg, "") { return ::testing::ExplainMatchResult(m, ::verif_shim::AsStatus(arg).code(), result_listener) && ::testing::ExplainMatchResult(msg, std::string(::verif_shim::AsStatus(arg).message()), result_listener); }
template <class M> auto StatusIs(M m) { return StatusIs1(m); }
template <class M, class N> auto StatusIs(M m, N n) { return StatusIs2(m, n); }
}
