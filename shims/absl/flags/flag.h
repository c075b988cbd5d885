// Minimal command-line flags (the apt Abseil's are tied to its own string_view).
#ifndef VERIF_SHIM_FLAG_H_
#define VERIF_SHIM_FLAG_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <type_traits>
#include <vector>
#include "absl/strings/string_view.h"
namespace absl {
namespace verif_internal {
struct FlagInfo { std::function<bool(absl::string_view, std::string*)> parse; bool is_bool; };
inline std::map<std::string, FlagInfo>& Flags() { static auto* m = new std::map<std::string, FlagInfo>; return *m; }
template <class T> struct IsOpt : std::false_type {};
template <class T> struct IsOpt<std::optional<T>> : std::true_type {};
template <class T> bool ParseFlagValue(absl::string_view v, T* out, std::string* err) {
  if constexpr (std::is_same_v<T, std::string>) { *out = std::string(v); return true; }
  else if constexpr (std::is_same_v<T, bool>) { if (v == "true" || v == "1" || v.empty() || v == "yes") *out = true; else if (v == "false" || v == "0" || v == "no") *out = false; else return false; return true; }
  else if constexpr (std::is_integral_v<T>) { std::string s(v); char* e = nullptr; errno = 0; long long x = strtoll(s.c_str(), &e, 0); if (s.empty() || *e || errno || x != static_cast<long long>(static_cast<T>(x))) return false; *out = static_cast<T>(x); return true; }
  else if constexpr (std::is_floating_point_v<T>) { std::string s(v); char* e = nullptr; *out = strtod(s.c_str(), &e); return !s.empty() && !*e; }
  else if constexpr (IsOpt<T>::value) { if (v.empty()) { *out = std::nullopt; return true; } typename T::value_type x{}; if (!ParseFlagValue(v, &x, err)) return false; *out = x; return true; }
  else return AbslParseFlag(v, out, err);
}
}  // namespace verif_internal
template <class T> struct Flag {
  T value;
  Flag(const char* name, T def) : value(std::move(def)) {
    verif_internal::Flags()[name] = {[this](absl::string_view v, std::string* e) { return verif_internal::ParseFlagValue(v, &value, e); }, std::is_same_v<T, bool>};
  }
};
template <class T> T GetFlag(const Flag<T>& f) { return f.value; }
template <class T, class V> void SetFlag(Flag<T>* f, const V& v) { f->value = v; }
}  // namespace absl
#define ABSL_FLAG(Type, name, def, help) ::absl::Flag<Type> FLAGS_##name(#name, def)
#define ABSL_DECLARE_FLAG(Type, name) extern ::absl::Flag<Type> FLAGS_##name
#endif
