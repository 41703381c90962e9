#pragma once
#include "absl/log/absl_check.h"
#include "absl/log/absl_log.h"
