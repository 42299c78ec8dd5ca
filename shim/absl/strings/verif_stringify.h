#ifndef VERIF_SHIM_STRINGIFY_H_
#define VERIF_SHIM_STRINGIFY_H_
#include <string>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"

namespace absl {
namespace verif_shim {
struct Sink {
  std::string out;
  void Append(absl::string_view s) { out.append(s.data(), s.size()); }
  void Append(size_t n, char c) { out.append(n, c); }
};
template <typename T, typename = void>
struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(
                           std::declval<Sink&>(), std::declval<const T&>()))>>
    : std::true_type {};
template <typename T>
decltype(auto) Conv(const T& v) {
  if constexpr (HasStringify<T>::value) {
    Sink s;
    AbslStringify(s, v);
    return std::string(std::move(s.out));
  } else {
    return static_cast<const T&>(v);
  }
}
}  // namespace verif_shim
}  // namespace absl
#endif
