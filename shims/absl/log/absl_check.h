// Harness stand-in: a failing check prints its operands and aborts.
#ifndef VERIF_SHIM_ABSL_CHECK_H_
#define VERIF_SHIM_ABSL_CHECK_H_
#include "absl/log/absl_log.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace verif_log {
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <class T>
const absl::Status& AsStatus(const absl::StatusOr<T>& s) {
  return s.status();
}
}  // namespace verif_log
#define VERIF_CHECK_(c, text)                      \
  __builtin_expect(!!(c), 1)                       \
      ? (void)0                                    \
      : ::verif_log::Voidify() && VERIF_LOG_MSG(FATAL) << "Check failed: " text " "
#define ABSL_CHECK(c) VERIF_CHECK_(c, #c)
#define ABSL_CHECK_EQ(a, b) VERIF_CHECK_((a) == (b), #a " == " #b)
#define ABSL_CHECK_NE(a, b) VERIF_CHECK_((a) != (b), #a " != " #b)
#define ABSL_CHECK_LT(a, b) VERIF_CHECK_((a) < (b), #a " < " #b)
#define ABSL_CHECK_LE(a, b) VERIF_CHECK_((a) <= (b), #a " <= " #b)
#define ABSL_CHECK_GT(a, b) VERIF_CHECK_((a) > (b), #a " > " #b)
#define ABSL_CHECK_GE(a, b) VERIF_CHECK_((a) >= (b), #a " >= " #b)
#define ABSL_CHECK_OK(s) \
  VERIF_CHECK_(::verif_log::AsStatus(s).ok(), #s " is OK")
// Release semantics of the D variants (the shipped build is -c opt): off.
#ifdef VERIF_DCHECK
#define VERIF_DCHECK_ON true
#else
#define VERIF_DCHECK_ON false
#endif
#define ABSL_DCHECK(c) VERIF_CHECK_(!VERIF_DCHECK_ON || (c), #c)
#define ABSL_DCHECK_EQ(a, b) ABSL_DCHECK((a) == (b))
#define ABSL_DCHECK_NE(a, b) ABSL_DCHECK((a) != (b))
#define ABSL_DCHECK_LT(a, b) ABSL_DCHECK((a) < (b))
#define ABSL_DCHECK_LE(a, b) ABSL_DCHECK((a) <= (b))
#define ABSL_DCHECK_GT(a, b) ABSL_DCHECK((a) > (b))
#define ABSL_DCHECK_GE(a, b) ABSL_DCHECK((a) >= (b))
#define ABSL_DCHECK_OK(s) ABSL_DCHECK(::verif_log::AsStatus(s).ok())
#endif
