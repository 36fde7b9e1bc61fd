// The library needs AbslStringify (abseil >= 20230125); this sandbox has
// abseil 20220623. These shims add exactly the missing formatting features and
// nothing else; they are only on the include path of the /verif harness.
#ifndef VERIF_SHIM_STRINGIFY_H_
#define VERIF_SHIM_STRINGIFY_H_
#include <string>
#include <type_traits>
#include <utility>
#include_next "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"

namespace verif_shim {
struct Sink {
  std::string out;
  void Append(absl::string_view s) { out.append(s.data(), s.size()); }
  void Append(size_t n, char c) { out.append(n, c); }
};
template <typename T, typename = void>
struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(
                           std::declval<Sink&>(), std::declval<const T&>()))>>
    : std::true_type {};

template <typename T>
std::string ToStr(const T& v) {
  if constexpr (HasStringify<T>::value) {
    Sink s;
    AbslStringify(s, v);
    return s.out;
  } else if constexpr (std::is_same_v<T, bool>) {
    return v ? "true" : "false";
  } else if constexpr (std::is_enum_v<T>) {
    return absl::StrCat(static_cast<std::underlying_type_t<T>>(v));
  } else {
    return absl::StrCat(v);
  }
}
template <size_t N>
std::string ToStr(const char (&v)[N]) { return std::string(v); }
}  // namespace verif_shim
#endif
