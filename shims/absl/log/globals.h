#pragma once
#include "absl/base/log_severity.h"
namespace absl {
#if 0
#define VERIF_LOG_SEV_AT_LEAST
enum class LogSeverityAtLeast { kInfo, kWarning, kError, kFatal };
#endif
inline void SetStderrThreshold(LogSeverityAtLeast) {}
inline void SetMinLogLevel(LogSeverityAtLeast) {}
}
