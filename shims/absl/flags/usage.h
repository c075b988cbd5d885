#ifndef VERIF_SHIM_FLAGS_USAGE_H_
#define VERIF_SHIM_FLAGS_USAGE_H_
#include "absl/strings/string_view.h"
namespace absl { inline void SetProgramUsageMessage(absl::string_view) {} inline absl::string_view ProgramUsageMessage() { return ""; } }
#endif
