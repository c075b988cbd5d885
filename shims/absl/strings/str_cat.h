// StrCat/StrAppend with newer Abseil's overload set (AbslStringify support).
#ifndef VERIF_SHIM_STR_CAT_H_
#define VERIF_SHIM_STR_CAT_H_
#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <string>
#include <string_view>
#include <type_traits>
#include "absl/strings/numbers.h"
#include "absl/strings/string_view.h"
namespace absl {
namespace verif_internal {
struct StringifySink {
  std::string s;
  void Append(std::string_view v) { s.append(v); }
  void Append(size_t n, char c) { s.append(n, c); }
  friend void AbslFormatFlush(StringifySink* k, std::string_view v) { k->Append(v); }
};
template <class T, class = void> struct HasStringify : std::false_type {};
template <class T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<StringifySink&>(), std::declval<const T&>()))>> : std::true_type {};
}  // namespace verif_internal
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10, kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16, kZeroPad17, kZeroPad18, kZeroPad19, kZeroPad20, kSpacePad2 = kZeroPad2 + 64, kSpacePad3, kSpacePad4, kSpacePad5, kSpacePad6, kSpacePad7, kSpacePad8, kSpacePad9, kSpacePad10 };
struct Hex {
  uint64_t value; int width; char fill;
  template <class T> explicit Hex(T v, PadSpec p = kNoPad)
      : value(static_cast<std::make_unsigned_t<T>>(v)), width(p == kNoPad ? 1 : (p & 63) - kZeroPad2 + 2), fill(p >= kSpacePad2 ? ' ' : '0') {}
};
struct Dec {
  std::string s;
  template <class T> explicit Dec(T v, PadSpec p = kNoPad) {
    s = std::to_string(v);
    const size_t w = p == kNoPad ? 1 : (p & 63) - kZeroPad2 + 2;
    const bool neg = !s.empty() && s[0] == '-';
    if (s.size() < w) s.insert(p >= kSpacePad2 ? 0 : neg, w - s.size(), p >= kSpacePad2 ? ' ' : '0');
  }
};
class AlphaNum {
 public:
  template <class T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, char>, int> = 0>
  AlphaNum(T v) : s_(std::to_string(v)), p_(s_) {}
  template <class T, std::enable_if_t<std::is_enum_v<T> && (std::is_convertible_v<T, int> || true) && !verif_internal::HasStringify<T>::value, int> = 0>
  AlphaNum(T v) : s_(std::to_string(static_cast<long long>(static_cast<std::underlying_type_t<T>>(v)))), p_(s_) {}
  AlphaNum(float f) : s_(G(f)), p_(s_) {}
  AlphaNum(double f) : s_(G(f)), p_(s_) {}
  AlphaNum(Hex h) {
    char b[32];
    snprintf(b, sizeof b, "%llx", static_cast<unsigned long long>(h.value));
    s_ = b;
    if (static_cast<int>(s_.size()) < h.width) s_.insert(0, h.width - s_.size(), h.fill);
    p_ = s_;
  }
  AlphaNum(Dec d) : s_(std::move(d.s)), p_(s_) {}
  AlphaNum(const char* c) : p_(c ? std::string_view(c) : std::string_view()) {}
  AlphaNum(std::string_view v) : p_(v) {}
  template <class A> AlphaNum(const std::basic_string<char, std::char_traits<char>, A>& v) : p_(v) {}
  template <class T, std::enable_if_t<verif_internal::HasStringify<T>::value, int> = 0>
  AlphaNum(const T& t) {
    verif_internal::StringifySink k;
    AbslStringify(k, t);
    s_ = std::move(k.s);
    p_ = s_;
  }
  // Newer protobuf messages are stringifiable.
  template <class T> requires requires(const T& t) { t.ShortDebugString(); }
  AlphaNum(const T& t) : s_(t.ShortDebugString()), p_(s_) {}
  AlphaNum(char) = delete;
  AlphaNum(const AlphaNum&) = delete;
  AlphaNum& operator=(const AlphaNum&) = delete;
  std::string_view Piece() const { return p_; }
  const char* data() const { return p_.data(); }
  size_t size() const { return p_.size(); }
 private:
  static std::string G(double d) { char b[40]; snprintf(b, sizeof b, "%g", d); return b; }
  std::string s_;
  std::string_view p_;
};
namespace verif_internal {
inline std::string Cat(std::initializer_list<const AlphaNum*> l) {
  std::string r;
  for (auto* a : l) r.append(a->Piece());
  return r;
}
template <class... A> std::string CatAll(const A&... a) { return Cat({&a...}); }
template <class T> using AN = AlphaNum;
}  // namespace verif_internal
inline std::string StrCat() { return {}; }
namespace verif_internal {
inline const AlphaNum& Conv(const AlphaNum& a) { return a; }
template <class T> requires(!std::is_same_v<T, AlphaNum>) AlphaNum Conv(const T& t) { return t; }
}  // namespace verif_internal
template <class... T> std::string StrCat(const T&... t) {
  return verif_internal::CatAll(static_cast<const AlphaNum&>(verif_internal::Conv(t))...);
}
template <class... T> void StrAppend(std::string* s, const T&... t) { s->append(StrCat(t...)); }
}  // namespace absl
#endif
