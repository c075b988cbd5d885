// Stand-in for absl/status/status_matchers.h (test-only helper header).
#ifndef VERIF_SHIM_STATUS_MATCHERS_H_
#define VERIF_SHIM_STATUS_MATCHERS_H_
#include <string>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "gmock/gmock.h"
namespace absl_testing {
inline const absl::Status& St(const absl::Status& s) { return s; }
template <class T> const absl::Status& St(const absl::StatusOr<T>& s) { return s.status(); }
struct IsOkM {
  using is_gtest_matcher = void;
  template <class S> bool MatchAndExplain(const S& s, std::ostream* os) const { if (os) *os << St(s); return St(s).ok(); }
  void DescribeTo(std::ostream* os) const { *os << "is OK"; }
  void DescribeNegationTo(std::ostream* os) const { *os << "is not OK"; }
};
inline IsOkM IsOk() { return {}; }
template <class CM, class MM> struct StatusIsM {
  using is_gtest_matcher = void;
  CM c; MM m;
  template <class S> bool MatchAndExplain(const S& s, std::ostream* os) const {
    if (os) *os << St(s);
    return testing::Value(St(s).code(), c) && testing::Value(std::string(St(s).message()), m);
  }
  void DescribeTo(std::ostream* os) const { *os << "status is"; }
  void DescribeNegationTo(std::ostream* os) const { *os << "status is not"; }
};
template <class CM> auto StatusIs(CM c) { return StatusIsM<CM, decltype(testing::_)>{c, testing::_}; }
template <class CM, class MM> auto StatusIs(CM c, MM m) {
  if constexpr (std::is_convertible_v<MM, std::string>) return StatusIsM<CM, testing::Matcher<std::string>>{c, testing::Matcher<std::string>(testing::StrEq(std::string(m)))};
  else return StatusIsM<CM, MM>{c, m};
}
template <class M> struct IsOkAndHoldsM {
  using is_gtest_matcher = void;
  M m;
  template <class S> bool MatchAndExplain(const S& s, std::ostream* os) const {
    if (!s.ok()) { if (os) *os << s.status(); return false; }
    testing::StringMatchResultListener l;
    return testing::ExplainMatchResult(m, *s, &l);
  }
  void DescribeTo(std::ostream* os) const { *os << "OK and holds"; }
  void DescribeNegationTo(std::ostream* os) const { *os << "not OK and holds"; }
};
template <class M> auto IsOkAndHolds(M m) {return IsOkAndHoldsM<M>{m};}
}  // namespace absl_testing
#define VERIF_SM_CAT_(a,b) a##b
#define VERIF_SM_CAT(a,b) VERIF_SM_CAT_(a,b)
#define ASSERT_OK_AND_ASSIGN(l, r) VERIF_AOA(l, r, VERIF_SM_CAT(sor_, __LINE__))
#define VERIF_AOA(l, r, t) auto t = (r); ASSERT_TRUE(t.ok()) << t.status(); l = std::move(t).value()
#endif
