#ifndef VERIF_SHIM_STR_CAT_H_
#define VERIF_SHIM_STR_CAT_H_
#include_next "absl/strings/str_cat.h"
#include "absl/strings/stringify_shim.h"
namespace absl {
// Preferred over abseil's own overloads when an argument has AbslStringify.
template <typename... Args>
std::enable_if_t<(verif_shim::HasStringify<Args>::value || ...), std::string>
StrCat(const Args&... args) {
  return (std::string() + ... + verif_shim::ToStr(args));
}
template <typename... Args>
std::enable_if_t<(verif_shim::HasStringify<Args>::value || ...), void>
StrAppend(std::string* dst, const Args&... args) {
  (dst->append(verif_shim::ToStr(args)), ...);
}
}  // namespace absl
#endif
