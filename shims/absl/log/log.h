#ifndef VERIF_SHIM_LOG_H_
#define VERIF_SHIM_LOG_H_
#include "absl/log/absl_log.h"
#define LOG ABSL_LOG
#define VLOG ABSL_VLOG
#define LOG_IF ABSL_LOG_IF
#define LOG_FIRST_N ABSL_LOG_FIRST_N
#endif
