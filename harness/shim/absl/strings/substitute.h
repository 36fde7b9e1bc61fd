#ifndef VERIF_SHIM_SUBSTITUTE_H_
#define VERIF_SHIM_SUBSTITUTE_H_
#include_next "absl/strings/substitute.h"
#include <vector>
#include "absl/strings/stringify_shim.h"
namespace absl {
// Preferred over abseil's own overloads when an argument has AbslStringify.
template <typename... Args>
std::enable_if_t<(verif_shim::HasStringify<Args>::value || ...), std::string>
Substitute(absl::string_view format, const Args&... args) {
  std::vector<std::string> s{verif_shim::ToStr(args)...};
  std::string out;
  for (size_t i = 0; i < format.size(); ++i) {
    if (format[i] == '$' && i + 1 < format.size()) {
      char c = format[++i];
      if (c >= '0' && c <= '9' && static_cast<size_t>(c - '0') < s.size())
        out += s[c - '0'];
      else
        out += c;
    } else {
      out += format[i];
    }
  }
  return out;
}
}  // namespace absl
#endif
