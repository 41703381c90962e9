#pragma once
#include "absl/base/log_severity.h"
namespace absl { inline void SetMinLogLevel(absl::LogSeverityAtLeast) {} inline void SetStderrThreshold(absl::LogSeverityAtLeast) {} inline int SetGlobalVLogLevel(int){return 0;} }
