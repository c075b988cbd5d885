// Harness stand-in for a newer Abseil's logging header (the apt Abseil has no
// absl/log). Same observable contract: operands are evaluated, FATAL aborts.
#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_
#include <atomic>
#include <cstdlib>
#include <iostream>
#include <ostream>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>

#include "absl/strings/string_view.h"

namespace verif_log {
struct NullBuf : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
inline bool Verbose() {
  static const bool v = std::getenv("VERIF_LOG") != nullptr;
  return v;
}
enum Sev { INFO, WARNING, ERROR, FATAL, DFATAL };

struct StringifySink {
  std::string s;
  void Append(absl::string_view v) { s.append(v.data(), v.size()); }
  void Append(size_t n, char c) { s.append(n, c); }
  friend void AbslFormatFlush(StringifySink* sink, std::string_view v) {
    sink->Append(v);
  }
};
template <class T, class = void>
struct HasStringify : std::false_type {};
template <class T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(
                           std::declval<StringifySink&>(),
                           std::declval<const T&>()))>> : std::true_type {};

class Msg {
 public:
  Msg(Sev s, const char* f, int l) : sev_(s) {
    if (s >= FATAL || Verbose()) os_ << f << ":" << l << "] ";
  }
  ~Msg() {
    if (sev_ >= FATAL || Verbose()) {
      os_ << "\n";
      const std::string s = os_.str();
      fwrite(s.data(), 1, s.size(), stderr);
      fflush(stderr);
    }
    if (sev_ >= FATAL) {
      fputs("VERIF-FATAL\n", stderr);
      fflush(stderr);
      std::abort();
    }
  }
  template <class T>
  Msg& operator<<(const T& t) {
    if constexpr (HasStringify<T>::value) {
      StringifySink k;
      AbslStringify(k, t);
      os_ << k.s;
    } else if constexpr (requires { t.ShortDebugString(); }) {
      os_ << t.ShortDebugString();
    } else if constexpr (requires(std::ostream& o) { o << t; }) {
      os_ << t;
    } else if constexpr (requires { t.status(); }) {
      os_ << t.status();
    } else {
      os_ << "<unprintable>";
    }
    return *this;
  }
  Msg& WithPerror() { return *this; }
  Msg& operator<<(std::ostream& (*f)(std::ostream&)) {
    os_ << f;
    return *this;
  }
  Msg& operator<<(std::ios_base& (*f)(std::ios_base&)) {
    os_ << f;
    return *this;
  }

 private:
  Sev sev_;
  std::ostringstream os_;
};
struct Voidify {
  void operator&&(Msg&) {}
  void operator&&(Msg&&) {}
};
}  // namespace verif_log

#define VERIF_LOG_MSG(s) \
  ::verif_log::Msg(::verif_log::s, __FILE__, __LINE__)
#define VERIF_LOG_MSG_(s) VERIF_LOG_MSG(s)
#define ABSL_LOG(s) ::verif_log::Voidify() && VERIF_LOG_MSG(s)
#define ABSL_DLOG(s) ABSL_LOG(s)
#define ABSL_LOG_IF(s, c) \
  !(c) ? (void)0 : ::verif_log::Voidify() && VERIF_LOG_MSG(s)
#define VERIF_CAT_(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT_(a, b)
#define ABSL_LOG_FIRST_N(s, n)                                        \
  ![] { static std::atomic<long> c{0}; return c.fetch_add(1) < (n); }() \
      ? (void)0                                                       \
      : ::verif_log::Voidify() && VERIF_LOG_MSG(s)
#define ABSL_LOG_EVERY_N(s, n)                                             \
  ![] { static std::atomic<long> c{0}; return c.fetch_add(1) % (n) == 0; }() \
      ? (void)0                                                            \
      : ::verif_log::Voidify() && VERIF_LOG_MSG(s)
#define ABSL_LOG_EVERY_POW_2(s) ABSL_LOG_EVERY_N(s, 16)
#define ABSL_LOG_EVERY_N_SEC(s, n) ABSL_LOG_EVERY_N(s, 1000)
#define ABSL_VLOG_IS_ON(n) (false)
#define ABSL_VLOG(n) \
  true ? (void)0 : ::verif_log::Voidify() && VERIF_LOG_MSG(INFO)
#define ABSL_DVLOG(n) ABSL_VLOG(n)
#endif
