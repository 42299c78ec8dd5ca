// Overlay on the installed abseil (20220623), which predates AbslStringify:
// lets absl::StrCat and absl::StrAppend accept types that have an overload.
#ifndef VERIF_SHIM_ABSL_STR_CAT_H_
#define VERIF_SHIM_ABSL_STR_CAT_H_
#include_next "absl/strings/str_cat.h"
#include <string>
#include <type_traits>
#include "absl/strings/verif_stringify.h"

namespace absl {
template <typename... A,
          std::enable_if_t<(verif_shim::HasStringify<A>::value || ...), int> = 0>
std::string StrCat(const A&... a) {
  std::string out;
  (StrAppend(&out, AlphaNum(verif_shim::Conv(a))), ...);
  return out;
}
template <typename... A,
          std::enable_if_t<(verif_shim::HasStringify<A>::value || ...), int> = 0>
void StrAppend(std::string* dst, const A&... a) {
  (StrAppend(dst, AlphaNum(verif_shim::Conv(a))), ...);
}
}  // namespace absl
#endif
