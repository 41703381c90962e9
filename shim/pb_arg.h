#pragma once
#include <string>
#include <utility>
#include "absl/strings/string_view.h"
namespace verif_shim {
template <typename T> T&& PbArg(T&& t) { return std::forward<T>(t); }
inline std::string PbArg(absl::string_view v) { return std::string(v); }
}
