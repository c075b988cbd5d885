// Shared workload driver of the runtime monitors.
//
// A harness is a list of groups; a group runs numbered cases. Every case has
// its own PRNG derived from (seed, group, case), so any case replays alone.
// Oracle failures are recorded as violations (key + witness text) and the run
// goes on; sanitizer reports and aborts end the process and are attributed by
// the runner to the case named in the progress file.
#ifndef VERIF_VLIB_H_
#define VERIF_VLIB_H_
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace vlib {

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ULL;
  return Mix(h);
}
inline uint64_t HashStr(std::string_view s) { return HashBytes(s.data(), s.size()); }
template <class V>
uint64_t HashVec(const V& v) { return HashBytes(v.data(), v.size() * sizeof(v[0])); }

struct Rng {
  uint64_t s = 1;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t U64() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint32_t U32() { return static_cast<uint32_t>(U64() >> 32); }
  uint8_t U8() { return static_cast<uint8_t>(U64() >> 56); }
  uint64_t Below(uint64_t n) { return n == 0 ? 0 : U64() % n; }
  int64_t Range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(Below(static_cast<uint64_t>(hi - lo) + 1)); }
  bool Chance(int num, int den) { return static_cast<int>(Below(den)) < num; }
  bool Bool() { return U64() >> 63; }
  double Unit() { return (U64() >> 11) * (1.0 / 9007199254740992.0); }
  double Real(double lo, double hi) { return lo + (hi - lo) * Unit(); }
  template <class T> const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
  template <class T> T Pick(std::initializer_list<T> v) { return *(v.begin() + Below(v.size())); }
  std::vector<uint8_t> Bytes(size_t n) { std::vector<uint8_t> r(n); for (auto& b : r) b = U8(); return r; }
  // Values that cluster at the borders of every width.
  uint32_t Edge32() {
    switch (Below(6)) {
      case 0: return static_cast<uint32_t>(Below(4));
      case 1: { uint32_t b = static_cast<uint32_t>(Below(32)); return (1u << b) + static_cast<uint32_t>(Range(-1, 1)); }
      case 2: return 0xffffffffu - static_cast<uint32_t>(Below(3));
      case 3: return U32() >> Below(32);
      case 4: return static_cast<uint32_t>(Below(256));
      default: return U32();
    }
  }
  template <class T> void Shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[Below(i)]); }
};

inline std::string Hex(const uint8_t* p, size_t n, size_t cap = 400) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < n && i < cap; ++i) { r += d[p[i] >> 4]; r += d[p[i] & 15]; }
  if (n > cap) r += "...(" + std::to_string(n) + " bytes)";
  return r;
}
template <class V> std::string Hex(const V& v, size_t cap = 400) { return Hex(reinterpret_cast<const uint8_t*>(v.data()), v.size(), cap); }

struct Stats {
  uint64_t evaluations = 0;
  std::map<std::string, uint64_t> counts;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  uint64_t violations = 0;
  std::map<std::string, int> per_key;
};

struct Ctx {
  Rng rng;
  uint64_t index = 0;
  bool thorough = false;
  std::string group;
  Stats* st = nullptr;
  FILE* viol = nullptr;
  std::string scratch;  // private directory

  // One case where the oracle was consulted.
  void Eval(uint64_t n = 1) { st->evaluations += n; }
  void Count(const std::string& what, uint64_t n = 1) { st->counts[what] += n; }
  // A non-trivial case; `h` identifies its content.
  void Distinct(uint64_t h) { if (st->distinct.size() < 400000) st->distinct.insert(Mix(h ^ HashStr(group))); }
  void Sample(const std::string& s) { if (st->samples.size() < 3 && s.size() < 2000) st->samples.push_back(group + ": " + s); }
  bool WantSample() const { return st->samples.size() < 3; }
  void Fail(const std::string& key, const std::string& msg);
};

inline std::string JsonStr(std::string_view s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

inline void Ctx::Fail(const std::string& key, const std::string& msg) {
  st->violations++;
  if (++st->per_key[key] > 5) return;
  std::ostringstream o;
  o << "{\"key\":" << JsonStr(key) << ",\"group\":" << JsonStr(group) << ",\"case\":" << index << ",\"msg\":" << JsonStr(msg.substr(0, 4000)) << "}\n";
  if (viol) { fputs(o.str().c_str(), viol); fflush(viol); }
  fprintf(stderr, "ORACLE %s [%s:%llu] %s\n", key.c_str(), group.c_str(), (unsigned long long)index, msg.substr(0, 4000).c_str());
}

struct Group {
  std::string name;
  uint64_t quick, thorough;  // number of cases
  std::function<void(Ctx&)> run;
};

// A failure of the harness itself (never a verdict).
[[noreturn]] inline void HarnessBug(const std::string& m) {
  fprintf(stderr, "HARNESS-BUG %s\n", m.c_str());
  _exit(3);
}

inline int RunMain(int argc, char** argv, const std::vector<Group>& groups) {
  uint64_t seed = 1; bool thorough = false; int shard = 0, nshards = 1; std::string out = "/dev/shm/verif_out"; std::string only; int64_t only_case = -1; std::string skip_group; int64_t skip_case = -1;
  std::string scratch = "";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") seed = strtoull(nx().c_str(), 0, 0);
    else if (a == "--thorough") thorough = true;
    else if (a == "--shard") shard = atoi(nx().c_str());
    else if (a == "--nshards") nshards = atoi(nx().c_str());
    else if (a == "--out") out = nx();
    else if (a == "--scratch") scratch = nx();
    else if (a == "--only") { only = nx(); auto p = only.find(':'); if (p != std::string::npos) { only_case = atoll(only.c_str() + p + 1); only.resize(p); } }
    else if (a == "--from") { skip_group = nx(); auto p = skip_group.find(':'); skip_case = atoll(skip_group.c_str() + p + 1); skip_group.resize(p); }
  }
  Stats st;
  FILE* viol = fopen((out + ".viol").c_str(), "a");
  int fd = open((out + ".progress").c_str(), O_RDWR | O_CREAT, 0600);
  if (fd < 0 || ftruncate(fd, 4096) != 0 || !viol) HarnessBug("cannot write " + out);
  char* prog = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  bool skipping = !skip_group.empty();
  auto dump = [&](bool done) {
    FILE* f = fopen((out + ".stats.tmp").c_str(), "w");
    fprintf(f, "{\"done\":%d,\"evaluations\":%llu,\"violations\":%llu,\"counts\":{", done, (unsigned long long)st.evaluations, (unsigned long long)st.violations);
    bool first = true;
    for (auto& [k, v] : st.counts) { fprintf(f, "%s%s:%llu", first ? "" : ",", JsonStr(k).c_str(), (unsigned long long)v); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& s : st.samples) { fprintf(f, "%s%s", first ? "" : ",", JsonStr(s).c_str()); first = false; }
    fprintf(f, "]}");
    fclose(f);
    rename((out + ".stats.tmp").c_str(), (out + ".stats").c_str());
    f = fopen((out + ".distinct").c_str(), "wb");
    for (uint64_t h : st.distinct) fwrite(&h, 8, 1, f);
    fclose(f);
  };
  for (auto& g : groups) {
    if (!only.empty() && g.name != only) continue;
    uint64_t n = thorough ? g.thorough : g.quick;
    if (skipping && g.name != skip_group) continue;
    uint64_t start = 0;
    if (skipping) { start = static_cast<uint64_t>(skip_case); skipping = false; }
    if (only_case >= 0) { start = static_cast<uint64_t>(only_case); n = start + 1; }
    for (uint64_t i = start; i < n; ++i) {
      if (only_case < 0 && static_cast<int>(Mix(i) % nshards) != shard) continue;
      snprintf(prog, 256, "%s:%llu\n", g.name.c_str(), (unsigned long long)i);
      Ctx c;
      c.rng = Rng(Mix(Mix(seed) ^ Mix(HashStr(g.name)) ^ Mix(i * 2 + 1)));
      c.index = i; c.thorough = thorough; c.group = g.name; c.st = &st; c.viol = viol; c.scratch = scratch;
      g.run(c);
      st.counts["cases:" + g.name]++;
      if ((i & 1023) == 0) dump(false);
    }
  }
  snprintf(prog, 256, "done\n");
  dump(true);
  fclose(viol);
  return 0;
}

#define V_MAIN(...) int main(int argc, char** argv) { return vlib::RunMain(argc, argv, __VA_ARGS__); }

// Checks a condition; on failure records a violation and returns from the case.
#define V_CHECK(ctx, cond, key, expr)                        \
  do {                                                       \
    if (!(cond)) {                                           \
      std::ostringstream v_o_;                               \
      v_o_ << #cond << " :: " << expr;                       \
      (ctx).Fail(key, v_o_.str());                           \
      return;                                                \
    }                                                        \
  } while (0)
// Same, from a function that returns a value.
#define V_CHECK_R(ctx, cond, key, expr, ret)                 \
  do {                                                       \
    if (!(cond)) {                                           \
      std::ostringstream v_o_;                               \
      v_o_ << #cond << " :: " << expr;                       \
      (ctx).Fail(key, v_o_.str());                           \
      return ret;                                            \
    }                                                        \
  } while (0)

}  // namespace vlib
#endif
