#ifndef VERIF_SHIM_STR_FORMAT_H_
#define VERIF_SHIM_STR_FORMAT_H_
// Replaces abseil's str_format.h: understands %v for any printable type, and
// hands every other conversion to snprintf (arithmetic) or prints it as %v.
#include <cstdio>
#include <string>
#include <type_traits>
#include <vector>
#include "absl/strings/stringify_shim.h"
#include "absl/strings/string_view.h"
namespace verif_shim {
template <typename T>
std::string FormatOne(const std::string& spec, const T& v) {
  char conv = spec.empty() ? 'v' : spec.back();
  if (conv == 'v' || conv == 's') return ToStr(v);
  char buf[512];
  if constexpr (std::is_floating_point_v<T>) {
    std::snprintf(buf, sizeof buf, spec.c_str(), static_cast<double>(v));
    return buf;
  } else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
    std::string s2 = spec.substr(0, spec.size() - 1) + "ll" + conv;
    if (conv == 'c') return std::string(1, static_cast<char>(v));
    std::snprintf(buf, sizeof buf, s2.c_str(), static_cast<long long>(v));
    return buf;
  } else {
    return ToStr(v);
  }
}
}  // namespace verif_shim
namespace absl {
template <typename... Args>
std::string StrFormat(absl::string_view format, const Args&... args) {
  std::string out;
  size_t i = 0;
  auto next_spec = [&](std::string* spec) {  // copies text up to next spec
    while (i < format.size()) {
      if (format[i] != '%') { out += format[i++]; continue; }
      if (i + 1 < format.size() && format[i + 1] == '%') {
        out += '%'; i += 2; continue;
      }
      size_t j = i + 1;
      while (j < format.size() && !((format[j] >= 'a' && format[j] <= 'z') ||
                                    (format[j] >= 'A' && format[j] <= 'Z')))
        ++j;
      *spec = std::string(format.substr(i, j - i + 1));
      i = j + 1;
      return true;
    }
    return false;
  };
  (
      [&] {
        std::string spec;
        if (next_spec(&spec)) out += verif_shim::FormatOne(spec, args);
      }(),
      ...);
  std::string rest;
  next_spec(&rest);
  return out;
}
template <typename... Args>
std::string& StrAppendFormat(std::string* dst, absl::string_view f,
                             const Args&... args) {
  return dst->append(StrFormat(f, args...));
}
}  // namespace absl
#endif
