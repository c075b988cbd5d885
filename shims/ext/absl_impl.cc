// The apt Abseil was built with its own string_view; the few library functions
// whose signature mentions it are provided here for std::string_view.
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <string_view>

#include "absl/status/status.h"
#include "absl/strings/match.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_replace.h"
#include "absl/strings/str_split.h"

namespace absl {
ABSL_NAMESPACE_BEGIN

Status::Status(absl::StatusCode code, std::string_view msg)
    : rep_(CodeToInlinedRep(code)) {
  if (code != absl::StatusCode::kOk && !msg.empty()) {
    rep_ = PointerToRep(new status_internal::StatusRep(code, msg, nullptr));
  }
}
#define ERR(N) \
  Status N##Error(std::string_view m) { return Status(StatusCode::k##N, m); }
ERR(Aborted) ERR(AlreadyExists) ERR(Cancelled) ERR(DataLoss)
ERR(DeadlineExceeded) ERR(FailedPrecondition) ERR(Internal)
ERR(InvalidArgument) ERR(NotFound) ERR(OutOfRange) ERR(PermissionDenied)
ERR(ResourceExhausted) ERR(Unauthenticated) ERR(Unavailable)
ERR(Unimplemented) ERR(Unknown)
#undef ERR
Status ErrnoToStatus(int e, std::string_view m) {
  return Status(ErrnoToStatusCode(e), std::string(m) + ": " + std::strerror(e));
}

namespace {
std::string_view Trim(std::string_view s) {
  while (!s.empty() && isspace(static_cast<unsigned char>(s.front()))) s.remove_prefix(1);
  while (!s.empty() && isspace(static_cast<unsigned char>(s.back()))) s.remove_suffix(1);
  return s;
}
template <class T>
bool Int(std::string_view t, T* v, int base) {
  std::string s(Trim(t));
  *v = 0;
  if (s.empty()) return false;
  if (std::is_unsigned_v<T> && s[0] == '-') return false;
  char* e = nullptr;
  errno = 0;
  if constexpr (std::is_signed_v<T>) {
    const long long x = strtoll(s.c_str(), &e, base);
    if (e != s.c_str() + s.size() || errno) return false;
    if (x < std::numeric_limits<T>::min() || x > std::numeric_limits<T>::max()) return false;
    *v = static_cast<T>(x);
  } else {
    const unsigned long long x = strtoull(s.c_str(), &e, base);
    if (e != s.c_str() + s.size() || errno) return false;
    if (x > std::numeric_limits<T>::max()) return false;
    *v = static_cast<T>(x);
  }
  return true;
}
bool EqI(std::string_view a, std::string_view b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (tolower(static_cast<unsigned char>(a[i])) != tolower(static_cast<unsigned char>(b[i]))) return false;
  return true;
}
}  // namespace
namespace numbers_internal {
bool safe_strto32_base(std::string_view t, int32_t* v, int b) { return Int(t, v, b); }
bool safe_strto64_base(std::string_view t, int64_t* v, int b) { return Int(t, v, b); }
bool safe_strtou32_base(std::string_view t, uint32_t* v, int b) { return Int(t, v, b); }
bool safe_strtou64_base(std::string_view t, uint64_t* v, int b) { return Int(t, v, b); }
}  // namespace numbers_internal
bool SimpleAtod(std::string_view t, double* o) {
  std::string s(Trim(t));
  *o = 0;
  if (s.empty() || s.find_first_of("xX") != s.npos) return false;
  char* e = nullptr;
  *o = strtod(s.c_str(), &e);
  return e == s.c_str() + s.size();
}
bool SimpleAtof(std::string_view t, float* o) {
  std::string s(Trim(t));
  *o = 0;
  if (s.empty() || s.find_first_of("xX") != s.npos) return false;
  char* e = nullptr;
  *o = strtof(s.c_str(), &e);
  return e == s.c_str() + s.size();
}
bool SimpleAtob(std::string_view s, bool* o) {
  for (auto t : {"true", "t", "yes", "y", "1"}) if (EqI(s, t)) return *o = true, true;
  for (auto t : {"false", "f", "no", "n", "0"}) if (EqI(s, t)) return *o = false, true;
  return false;
}
bool EqualsIgnoreCase(std::string_view a, std::string_view b) noexcept { return EqI(a, b); }
bool StartsWithIgnoreCase(std::string_view t, std::string_view p) noexcept { return t.size() >= p.size() && EqI(t.substr(0, p.size()), p); }
bool EndsWithIgnoreCase(std::string_view t, std::string_view p) noexcept { return t.size() >= p.size() && EqI(t.substr(t.size() - p.size()), p); }
namespace {
std::string_view Found(std::string_view t, size_t p, size_t n) {
  return p == t.npos ? std::string_view(t.data() + t.size(), 0) : t.substr(p, n);
}
}  // namespace
ByString::ByString(std::string_view sp) : delimiter_(sp) {}
std::string_view ByString::Find(std::string_view t, size_t pos) const {
  if (delimiter_.empty() && !t.empty()) return std::string_view(t.data() + pos + 1, 0);
  return Found(t, t.find(delimiter_, pos), delimiter_.size());
}
std::string_view ByChar::Find(std::string_view t, size_t pos) const { return Found(t, t.find(c_, pos), 1); }
ByAnyChar::ByAnyChar(std::string_view sp) : delimiters_(sp) {}
std::string_view ByAnyChar::Find(std::string_view t, size_t pos) const {
  if (delimiters_.empty() && !t.empty()) return std::string_view(t.data() + pos + 1, 0);
  return Found(t, t.find_first_of(delimiters_, pos), 1);
}
ByLength::ByLength(ptrdiff_t length) : length_(length) {}
std::string_view ByLength::Find(std::string_view t, size_t pos) const {
  pos = std::min(pos, t.size());
  std::string_view s = t.substr(pos);
  if (s.length() <= static_cast<size_t>(length_)) return std::string_view(t.data() + t.size(), 0);
  return std::string_view(s.data() + length_, 0);
}
using Reps = std::initializer_list<std::pair<std::string_view, std::string_view>>;
std::string StrReplaceAll(std::string_view s, Reps r) {
  std::string out;
  for (size_t i = 0; i < s.size();) {
    const std::pair<std::string_view, std::string_view>* best = nullptr;
    for (const auto& p : r)
      if (!p.first.empty() && s.substr(i, p.first.size()) == p.first && (!best || p.first.size() > best->first.size())) best = &p;
    if (best) { out += best->second; i += best->first.size(); } else { out += s[i++]; }
  }
  return out;
}
int StrReplaceAll(Reps r, std::string* t) {
  std::string n = StrReplaceAll(std::string_view(*t), r);
  const int changed = n != *t;
  *t = std::move(n);
  return changed;
}
ABSL_NAMESPACE_END
}  // namespace absl
