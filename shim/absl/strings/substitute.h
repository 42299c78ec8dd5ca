// Overlay on the installed abseil (20220623), which predates AbslStringify.
// The project needs absl::Substitute to accept types with an AbslStringify
// overload; this adds exactly that and defers to the real header for the rest.
#ifndef VERIF_SHIM_ABSL_SUBSTITUTE_H_
#define VERIF_SHIM_ABSL_SUBSTITUTE_H_
#include_next "absl/strings/substitute.h"
#include <string>
#include <type_traits>
#include "absl/strings/verif_stringify.h"

namespace absl {
template <typename... A,
          std::enable_if_t<(verif_shim::HasStringify<A>::value || ...), int> = 0>
std::string Substitute(absl::string_view fmt, const A&... a) {
  return Substitute(fmt, verif_shim::Conv(a)...);
}
}  // namespace absl
#endif
