#ifndef VERIF_SHIM_CHECK_H_
#define VERIF_SHIM_CHECK_H_
#include "absl/log/absl_check.h"
#define CHECK ABSL_CHECK
#define CHECK_OK ABSL_CHECK_OK
#define CHECK_EQ ABSL_CHECK_EQ
#define CHECK_NE ABSL_CHECK_NE
#define CHECK_LT ABSL_CHECK_LT
#define CHECK_LE ABSL_CHECK_LE
#define CHECK_GT ABSL_CHECK_GT
#define CHECK_GE ABSL_CHECK_GE
#define DCHECK ABSL_DCHECK
#endif
