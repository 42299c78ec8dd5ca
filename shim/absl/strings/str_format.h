// Replacement for absl/strings/str_format.h of the installed abseil
// (20220623), which has neither %v nor AbslStringify. Implements the part of
// absl::StrFormat that a project may use for messages: every printf conversion
// on arithmetic types and strings, plus %v.
#ifndef VERIF_SHIM_ABSL_STR_FORMAT_H_
#define VERIF_SHIM_ABSL_STR_FORMAT_H_
#include <cstdio>
#include <string>
#include <type_traits>
#include <vector>
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "absl/strings/verif_stringify.h"

namespace absl {
namespace verif_shim {
struct FmtArg {
  enum Kind { kInt, kUint, kDouble, kStr } kind;
  long long i = 0;
  unsigned long long u = 0;
  double d = 0;
  std::string s;
};
template <typename T>
FmtArg MakeArg(const T& v) {
  FmtArg a;
  if constexpr (HasStringify<T>::value) {
    a.kind = FmtArg::kStr;
    a.s = Conv(v);
  } else if constexpr (std::is_floating_point_v<T>) {
    a.kind = FmtArg::kDouble;
    a.d = v;
  } else if constexpr (std::is_enum_v<T>) {
    a.kind = FmtArg::kInt;
    a.i = static_cast<long long>(v);
  } else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>) {
    a.kind = FmtArg::kInt;
    a.i = v;
  } else if constexpr (std::is_integral_v<T>) {
    a.kind = FmtArg::kUint;
    a.u = v;
  } else {
    a.kind = FmtArg::kStr;
    a.s = std::string(absl::string_view(v));
  }
  return a;
}
inline std::string FormatAll(absl::string_view f, std::vector<FmtArg> args) {
  std::string out;
  size_t n = 0;
  for (size_t p = 0; p < f.size(); ++p) {
    if (f[p] != '%') {
      out += f[p];
      continue;
    }
    if (++p < f.size() && f[p] == '%') {
      out += '%';
      continue;
    }
    std::string spec = "%";
    while (p < f.size() &&
           std::string("-+ #0123456789.").find(f[p]) != std::string::npos)
      spec += f[p++];
    while (p < f.size() && std::string("hlLqjzt").find(f[p]) != std::string::npos)
      ++p;
    char c = p < f.size() ? f[p] : 'v';
    if (n >= args.size()) {
      out += "%!";
      continue;
    }
    const FmtArg& a = args[n++];
    char buf[512];
    switch (a.kind) {
      case FmtArg::kStr:
        out += a.s;
        break;
      case FmtArg::kDouble:
        spec += (c == 'v') ? 'g' : c;
        std::snprintf(buf, sizeof buf, spec.c_str(), a.d);
        out += buf;
        break;
      case FmtArg::kInt:
        spec += "ll";
        spec += (c == 'v') ? 'd' : c;
        std::snprintf(buf, sizeof buf, spec.c_str(), a.i);
        out += buf;
        break;
      case FmtArg::kUint:
        spec += "ll";
        spec += (c == 'v' || c == 'd') ? 'u' : c;
        std::snprintf(buf, sizeof buf, spec.c_str(), a.u);
        out += buf;
        break;
    }
  }
  return out;
}
}  // namespace verif_shim

template <typename... A>
std::string StrFormat(absl::string_view format, const A&... a) {
  return verif_shim::FormatAll(format, {verif_shim::MakeArg(a)...});
}
template <typename... A>
std::string& StrAppendFormat(std::string* dst, absl::string_view format,
                             const A&... a) {
  return dst->append(StrFormat(format, a...));
}
}  // namespace absl
#endif
