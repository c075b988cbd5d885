// printf-style formatting on top of snprintf (same results for the conversions used).
#ifndef VERIF_SHIM_STR_FORMAT_H_
#define VERIF_SHIM_STR_FORMAT_H_
#include <cstdio>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include "absl/strings/str_cat.h"
namespace absl {
namespace verif_internal {
struct FmtArg {
  enum K { I, U, D, S, P } k; long long i = 0; unsigned long long u = 0; double d = 0; std::string s; const void* p = nullptr;
  template <class T> static FmtArg Make(const T& t) {
    FmtArg a;
    if constexpr (HasStringify<T>::value) { a.k = S; StringifySink x; AbslStringify(x, t); a.s = x.s; }
    else if constexpr (std::is_enum_v<T>) { a.k = I; a.i = static_cast<long long>(t); a.u = a.i; }
    else if constexpr (std::is_integral_v<T> && std::is_unsigned_v<T>) { a.k = U; a.u = t; a.i = t; }
    else if constexpr (std::is_integral_v<T>) { a.k = I; a.i = t; a.u = static_cast<std::make_unsigned_t<T>>(t); }
    else if constexpr (std::is_floating_point_v<T>) { a.k = D; a.d = t; }
    else if constexpr (std::is_convertible_v<T, std::string_view>) { a.k = S; a.s = std::string(std::string_view(t)); }
    else { a.k = P; a.p = t; }
    return a;
  }
};
inline std::string Fmt(std::string_view f, const std::vector<FmtArg>& v) {
  std::string out;
  size_t n = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') { out += f[i]; continue; }
    if (i + 1 < f.size() && f[i + 1] == '%') { out += '%'; ++i; continue; }
    std::string spec = "%";
    size_t j = i + 1;
    for (; j < f.size() && std::string_view("-+ #0123456789.*").find(f[j]) != std::string_view::npos; ++j) {
      if (f[j] == '*') spec += std::to_string(v.at(n++).i); else spec += f[j];
    }
    while (j < f.size() && std::string_view("hlLqjzt").find(f[j]) != std::string_view::npos) ++j;
    char c = j < f.size() ? f[j] : 's';
    const FmtArg& a = v.at(n++);
    char buf[512];
    if (c == 'v') c = a.k == FmtArg::I ? 'd' : a.k == FmtArg::U ? 'u' : a.k == FmtArg::D ? 'g' : 's';
    if (c == 's') { const std::string& s = a.s; std::vector<char> b(s.size() + 512); snprintf(b.data(), b.size(), (spec + "s").c_str(), s.c_str()); out += b.data(); i = j; continue; }
    if (c == 'd' || c == 'i') { if (a.k == FmtArg::U) snprintf(buf, sizeof buf, (spec + "llu").c_str(), a.u); else snprintf(buf, sizeof buf, (spec + "lld").c_str(), a.i); }
    else if (c == 'u' || c == 'x' || c == 'X' || c == 'o') snprintf(buf, sizeof buf, (spec + "ll" + c).c_str(), a.u);
    else if (c == 'c') snprintf(buf, sizeof buf, (spec + "c").c_str(), static_cast<int>(a.i));
    else if (c == 'p') snprintf(buf, sizeof buf, "%p", a.p);
    else snprintf(buf, sizeof buf, (spec + c).c_str(), a.k == FmtArg::D ? a.d : static_cast<double>(a.i));
    out += buf;
    i = j;
  }
  return out;
}
}  // namespace verif_internal
template <class... A> std::string StrFormat(std::string_view f, const A&... a) { return verif_internal::Fmt(f, {verif_internal::FmtArg::Make(a)...}); }
template <class... A> std::string& StrAppendFormat(std::string* s, std::string_view f, const A&... a) { return *s += StrFormat(f, a...); }
template <class Sink, class... A> void Format(Sink* k, std::string_view f, const A&... a) {
  if constexpr (requires { AbslFormatFlush(k, std::string_view()); }) AbslFormatFlush(k, StrFormat(f, a...));
  else k->Append(StrFormat(f, a...));
}
template <class... A> int PrintF(std::string_view f, const A&... a) { const std::string s = StrFormat(f, a...); return fwrite(s.data(), 1, s.size(), stdout); }
template <class... A> int FPrintF(FILE* o, std::string_view f, const A&... a) { const std::string s = StrFormat(f, a...); return fwrite(s.data(), 1, s.size(), o); }
}  // namespace absl
#endif
