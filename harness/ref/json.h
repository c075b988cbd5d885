// Strict JSON (RFC 8259) value and parser; bytes >= 0x80 in strings pass through.
#ifndef VERIF_REF_JSON_H_
#define VERIF_REF_JSON_H_
#include <cmath>
#include <cstdint>
#include <map>
#include <string>
#include <vector>
namespace ref {
struct J {
  enum K { kNull, kBool, kNum, kStr, kArr, kObj } k = kNull;
  bool b = false;
  std::string s;      // string value, or the literal of a number
  bool approx = false;  // number given with six significant digits
  double d = 0;
  std::vector<J> a;
  std::map<std::string, J> o;
  static J Str(const std::string& v) { J j; j.k = kStr; j.s = v; return j; }
  static J Bool(bool v) { J j; j.k = kBool; j.b = v; return j; }
  static J Int(int64_t v) { J j; j.k = kNum; j.s = std::to_string(v); return j; }
  static J UInt(uint64_t v) { J j; j.k = kNum; j.s = std::to_string(v); return j; }
  static J Real(double v) { J j; j.k = kNum; j.approx = true; j.d = v; return j; }
  static J Arr() { J j; j.k = kArr; return j; }
  static J Obj() { J j; j.k = kObj; return j; }
  J& operator[](const std::string& key) { return o[key]; }
  void Add(J v) { a.push_back(std::move(v)); }
};
// Compares `got` (parsed) with `want`; returns a path to the first difference or "".
inline std::string Diff(const J& got, const J& want, const std::string& path = "$") {
  if (got.k != want.k) return path + ": kind " + std::to_string(got.k) + " want " + std::to_string(want.k);
  switch (want.k) {
    case J::kBool: return got.b == want.b ? "" : path + ": bool";
    case J::kStr: return got.s == want.s ? "" : path + ": string '" + got.s + "' want '" + want.s + "'";
    case J::kNum:
      if (want.approx) {
        const double g = strtod(got.s.c_str(), nullptr);
        return std::fabs(g - want.d) <= 6e-6 * std::fabs(want.d) ? "" : path + ": number " + got.s + " want " + std::to_string(want.d);
      }
      return got.s == want.s ? "" : path + ": number " + got.s + " want " + want.s;
    case J::kArr:
      if (got.a.size() != want.a.size()) return path + ": array of " + std::to_string(got.a.size()) + " want " + std::to_string(want.a.size());
      for (size_t i = 0; i < got.a.size(); ++i) { auto r = Diff(got.a[i], want.a[i], path + "[" + std::to_string(i) + "]"); if (!r.empty()) return r; }
      return "";
    case J::kObj:
      for (auto& [k, v] : want.o) if (!got.o.count(k)) return path + ": missing key " + k;
      for (auto& [k, v] : got.o) { auto it = want.o.find(k); if (it == want.o.end()) return path + ": unexpected key " + k; auto r = Diff(v, it->second, path + "." + k); if (!r.empty()) return r; }
      return "";
    default: return "";
  }
}
class JsonParser {
 public:
  explicit JsonParser(const std::string& t) : t_(t) {}
  bool Parse(J& out) { Ws(); return Val(out, 0) && (Ws(), p_ == t_.size() || Fail("trailing text")); }
  std::string error;
 private:
  bool Fail(const std::string& m) { if (error.empty()) error = m + " at " + std::to_string(p_); return false; }
  void Ws() { while (p_ < t_.size() && (t_[p_] == ' ' || t_[p_] == '\n' || t_[p_] == '\r' || t_[p_] == '\t')) ++p_; }
  bool Lit(const char* l) { size_t n = strlen(l); if (t_.compare(p_, n, l) != 0) return Fail("literal"); p_ += n; return true; }
  bool Digits() { size_t q = p_; while (p_ < t_.size() && t_[p_] >= '0' && t_[p_] <= '9') ++p_; return p_ > q; }
  bool Val(J& j, int depth) {
    if (depth > 200) return Fail("depth");
    if (p_ >= t_.size()) return Fail("end");
    switch (t_[p_]) {
      case '{': {
        j.k = J::kObj; ++p_; Ws();
        if (p_ < t_.size() && t_[p_] == '}') { ++p_; return true; }
        for (;;) {
          std::string key; Ws();
          if (!Str(key)) return false;
          Ws(); if (p_ >= t_.size() || t_[p_] != ':') return Fail("colon"); ++p_; Ws();
          if (j.o.count(key)) return Fail("duplicate key " + key);
          if (!Val(j.o[key], depth + 1)) return false;
          Ws(); if (p_ >= t_.size()) return Fail("end of object");
          if (t_[p_] == ',') { ++p_; continue; }
          if (t_[p_] == '}') { ++p_; return true; }
          return Fail("object separator");
        }
      }
      case '[': {
        j.k = J::kArr; ++p_; Ws();
        if (p_ < t_.size() && t_[p_] == ']') { ++p_; return true; }
        for (;;) {
          Ws(); j.a.emplace_back();
          if (!Val(j.a.back(), depth + 1)) return false;
          Ws(); if (p_ >= t_.size()) return Fail("end of array");
          if (t_[p_] == ',') { ++p_; continue; }
          if (t_[p_] == ']') { ++p_; return true; }
          return Fail("array separator");
        }
      }
      case '"': j.k = J::kStr; return Str(j.s);
      case 't': j.k = J::kBool; j.b = true; return Lit("true");
      case 'f': j.k = J::kBool; j.b = false; return Lit("false");
      case 'n': j.k = J::kNull; return Lit("null");
      default: {
        j.k = J::kNum; const size_t q = p_;
        if (t_[p_] == '-') ++p_;
        if (p_ < t_.size() && t_[p_] == '0') ++p_; else if (!Digits()) return Fail("number");
        if (p_ < t_.size() && t_[p_] == '.') { ++p_; if (!Digits()) return Fail("fraction"); }
        if (p_ < t_.size() && (t_[p_] == 'e' || t_[p_] == 'E')) { ++p_; if (p_ < t_.size() && (t_[p_] == '+' || t_[p_] == '-')) ++p_; if (!Digits()) return Fail("exponent"); }
        j.s = t_.substr(q, p_ - q);
        return true;
      }
    }
  }
  bool Str(std::string& s) {
    if (p_ >= t_.size() || t_[p_] != '"') return Fail("quote");
    ++p_;
    while (p_ < t_.size()) {
      const unsigned char ch = t_[p_++];
      if (ch == '"') return true;
      if (ch < 0x20) return Fail("raw control character");
      if (ch != '\\') { s += static_cast<char>(ch); continue; }
      if (p_ >= t_.size()) break;
      switch (t_[p_++]) {
        case '"': s += '"'; break; case '\\': s += '\\'; break; case '/': s += '/'; break;
        case 'b': s += '\b'; break; case 'f': s += '\f'; break; case 'n': s += '\n'; break; case 'r': s += '\r'; break; case 't': s += '\t'; break;
        case 'u': {
          if (p_ + 4 > t_.size()) return Fail("unicode escape");
          unsigned v = 0;
          for (int i = 0; i < 4; ++i) { const char h = t_[p_++]; if (!isxdigit(static_cast<unsigned char>(h))) return Fail("unicode digit"); v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10); }
          if (v < 0x80) s += static_cast<char>(v);
          else if (v < 0x800) { s += static_cast<char>(0xc0 | v >> 6); s += static_cast<char>(0x80 | (v & 63)); }
          else { s += static_cast<char>(0xe0 | v >> 12); s += static_cast<char>(0x80 | (v >> 6 & 63)); s += static_cast<char>(0x80 | (v & 63)); }
          break;
        }
        default: return Fail("escape");
      }
    }
    return Fail("unterminated string");
  }
  const std::string& t_;
  size_t p_ = 0;
};
}  // namespace ref
#endif
