// C16: gain tables.
#include <algorithm>
#include <fstream>
#include "harness/vlib.h"
#include "iamf/cli/renderer/gains/compressed_gains_codebook.h"
#include "iamf/cli/renderer/gains/get_gains.h"
#include "iamf/cli/renderer/gains/precomputed_compressed_gains.h"
#include "iamf/cli/renderer/gains/precomputed_compressed_gains_decoder.h"
#include "iamf/cli/renderer/gains/precomputed_gains.h"
using namespace vlib;
using namespace iamf_tools;
namespace {
typedef std::vector<std::vector<double>> M;
// Channel counts per Rec. ITU-R BS.2051-3 and IAMF, ambisonics (n+1)^2.
const std::map<std::string, int> kLayouts = {
    {"0+1+0", 1}, {"0+2+0", 2}, {"0+5+0", 6}, {"2+5+0", 8}, {"4+5+0", 10}, {"4+5+1", 11}, {"3+7+0", 12}, {"4+9+0", 14}, {"9+10+3", 24}, {"0+7+0", 8},
    {"4+7+0", 12}, {"7.1.5.4", 17}, {"3.1.2", 6}, {"7.1.2", 10}, {"9.1.6", 16}, {"A0", 1}, {"A1", 4}, {"A2", 9}, {"A3", 16}, {"A4", 25}};

std::map<std::pair<std::string, std::string>, M> LoadRef() {
  std::map<std::pair<std::string, std::string>, M> r;
  const char* dir = getenv("VERIF_DIR");
  std::ifstream f(std::string(dir ? dir : "/verif") + "/harness/ref/gains.txt");
  std::string a, b; size_t n, m;
  while (f >> a >> b >> n >> m) {
    M x(n, std::vector<double>(m));
    for (auto& row : x) for (auto& v : row) f >> v;
    r[{a, b}] = x;
  }
  if (r.size() < 100 && !getenv("VERIF_DUMP")) HarnessBug("no reference gain table");
  return r;
}
const std::map<std::pair<std::string, std::string>, M>& Ref() { static auto* r = new auto(LoadRef()); return *r; }
const PrecomputedGains& Plain() { static auto* p = new PrecomputedGains(InitPrecomputedGains()); return *p; }
std::vector<std::string> Names() { std::vector<std::string> v; for (auto& [k, n] : kLayouts) v.push_back(k); return v; }
std::string At(const std::string& a, const std::string& b, size_t i, size_t j) { return a + " -> " + b + " [" + std::to_string(i) + "][" + std::to_string(j) + "]"; }

// One case per (input, output) pair: 20 x 20.
void Pairs(Ctx& c) {
  auto names = Names();
  std::string a = names[c.index / names.size()], b = names[c.index % names.size()];
  auto got = GetGainsForLayoutPair(a, b);
  const M* plain = nullptr;
  if (auto it = Plain().find(a); it != Plain().end()) if (auto jt = it->second.find(b); jt != it->second.end()) plain = &jt->second;
  auto ref = Ref().find({a, b});
  c.Eval();
  V_CHECK(c, got.ok() == (ref != Ref().end()), "pair-presence", a << " -> " << b << " lookup " << (got.ok() ? "present" : "absent"));
  V_CHECK(c, (plain != nullptr) == got.ok(), "encodings-presence", a << " -> " << b << " plain " << (plain ? "present" : "absent"));
  if (!got.ok()) { c.Count("absent-pairs"); return; }
  c.Count("pairs"); c.Distinct(HashStr(a + ">" + b));
  int rows = kLayouts.at(a), cols = kLayouts.at(b);
  for (const M* m : {static_cast<const M*>(&*got), plain}) {
    const char* which = m == plain ? "plain" : "lookup";
    V_CHECK(c, (int)m->size() == rows, std::string("shape-rows:") + which, a << " -> " << b << " rows " << m->size());
    for (int i = 0; i < rows; ++i) V_CHECK(c, (int)(*m)[i].size() == cols, std::string("shape-cols:") + which, a << " -> " << b << " row " << i << " cols " << (*m)[i].size());
  }
  for (int i = 0; i < rows; ++i) {
    for (int j = 0; j < cols; ++j) {
      double g = (*got)[i][j], p = (*plain)[i][j], r = ref->second[i][j];
      c.Eval(); c.Count("values");
      V_CHECK(c, std::isfinite(g) && std::fabs(g) <= 2.0, "value-range", At(a, b, i, j) << " " << g);
      V_CHECK(c, std::fabs(g - r) <= 2e-6, "lookup-value", At(a, b, i, j) << " lookup " << g << " reference " << r);
      V_CHECK(c, std::fabs(p - r) <= 2e-6, "plain-value", At(a, b, i, j) << " plain " << p << " reference " << r);
      // Values that plain and codebook both hold exactly stay exact.
      if (p == 0.0 || p == 1.0) V_CHECK(c, g == p, "exact-value", At(a, b, i, j) << " lookup " << g << " plain " << p);
    }
  }
  auto again = GetGainsForLayoutPair(a, b);
  V_CHECK(c, again.ok() && *again == *got, "repeat", a << " -> " << b);
}
// The table itself: no duplicate or unknown keys, no entry the lookup cannot reach, and sizes that cover the matrix exactly.
void Table(Ctx& c) {
  std::set<std::pair<std::string, std::string>> seen;
  const auto& cb = GetCodebook();
  for (const auto& e : GetPrecomputedGainsTable()) {
    c.Eval(); c.Count("table-entries"); c.Distinct(HashStr(std::string(e.input_layout) + "|" + e.output_layout));
    V_CHECK(c, kLayouts.count(e.input_layout) && kLayouts.count(e.output_layout), "unknown-key", e.input_layout << " -> " << e.output_layout);
    V_CHECK(c, seen.insert({e.input_layout, e.output_layout}).second, "duplicate-key", e.input_layout << " -> " << e.output_layout);
    V_CHECK(c, Ref().count({e.input_layout, e.output_layout}), "extra-pair", e.input_layout << " -> " << e.output_layout);
    int rows = kLayouts.at(e.input_layout), cols = kLayouts.at(e.output_layout);
    if (e.is_dense) {
      V_CHECK(c, e.size == rows * cols, "dense-size", e.input_layout << " -> " << e.output_layout << " " << e.size);
      for (int i = 0; i < e.size; ++i) V_CHECK(c, std::isfinite(e.dense_data[i]), "dense-value", i);
    } else {
      V_CHECK(c, e.size >= rows && (e.size - rows) % 2 == 0, "sparse-size", e.input_layout << " -> " << e.output_layout << " " << e.size);
      int n = (e.size - rows) / 2, total = 0;
      for (int i = 0; i < rows; ++i) total += e.sparse_blob[i];
      V_CHECK(c, total == n, "sparse-total", e.input_layout << " -> " << e.output_layout << " rows hold " << total << " of " << n);
      for (int i = 0; i < n; ++i) {
        V_CHECK(c, e.sparse_blob[rows + i] < cols, "sparse-col", e.input_layout << " -> " << e.output_layout);
        V_CHECK(c, e.sparse_blob[rows + n + i] < cb.size(), "sparse-code", e.input_layout << " -> " << e.output_layout);
      }
    }
  }
  V_CHECK(c, seen.size() == Ref().size(), "table-complete", seen.size() << " entries, reference " << Ref().size());
  size_t np = 0;
  for (auto& [a, row] : Plain()) for (auto& [b, m] : row) { V_CHECK(c, Ref().count({a, b}), "plain-extra-pair", a << " -> " << b); ++np; }
  V_CHECK(c, np == Ref().size(), "plain-complete", np);
}
// Keys that are not in the table are reported absent.
void Unknown(Ctx& c) {
  auto names = Names();
  auto damage = [&](std::string s) {
    switch (c.rng.Below(7)) {
      case 0: return std::string();
      case 1: return s + c.rng.Pick<const char*>({" ", "0", "+", "\n"});
      case 2: return s.substr(0, s.size() - 1);
      case 3: s[c.rng.Below(s.size())] = static_cast<char>(c.rng.U8()); return s;
      case 4: return " " + s;
      case 5: return s + std::string(1, '\0');
      default: { std::string r; for (size_t i = c.rng.Below(8); i-- > 0;) r += static_cast<char>(c.rng.U8()); return r; }
    }
  };
  std::string a = c.rng.Pick(names), b = c.rng.Pick(names);
  if (c.rng.Chance(3, 4)) a = damage(a);
  if (c.rng.Bool()) b = damage(b);
  auto got = GetGainsForLayoutPair(a, b);
  c.Eval(); c.Distinct(HashStr(a + ">" + b));
  V_CHECK(c, got.ok() == (Ref().count({a, b}) > 0), "unknown-pair", Hex(a) << " -> " << Hex(b) << " " << (got.ok() ? "present" : "absent"));
  if (!got.ok()) { c.Count("unknown-refused"); V_CHECK(c, got.status().code() == absl::StatusCode::kNotFound, "unknown-code", got.status().message()); }
}
// Decompression of arbitrary blobs against a reference decoder.
void Decompress(Ctx& c) {
  auto names = Names();
  std::string a = c.rng.Pick(names), b = c.rng.Pick(names);
  int rows = kLayouts.at(a), cols = kLayouts.at(b);
  CompressedMatrix cm;
  M want(rows, std::vector<double>(cols, 0.0));
  const double s2 = 1 / std::sqrt(2.0);
  const double cb[10] = {0, 0.5, 1 / std::sqrt(3.0), s2, std::sqrt(2.0 / 3.0), (1 + s2) / 2, 1.0, 2 / std::sqrt(3.0), s2 + 0.5, std::sqrt(1.5)};
  bool ok = true, judged = true;
  int kind = c.rng.Below(6);
  if (kind == 0) {
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) { float f = static_cast<float>(c.rng.Real(-1, 1)); cm.dense_data.push_back(f); want[i][j] = f; }
  } else if (kind <= 3) {
    std::vector<uint8_t> len, col, val;
    for (int i = 0; i < rows; ++i) {
      int n = 0;
      for (int j = 0; j < cols; ++j) if (c.rng.Chance(1, 3)) { uint8_t v = c.rng.Below(10); col.push_back(j); val.push_back(v); want[i][j] = cb[v]; ++n; }
      len.push_back(n);
    }
    auto& s = cm.sparse_blob; s = len; s.insert(s.end(), col.begin(), col.end()); s.insert(s.end(), val.begin(), val.end());
    if (kind == 2 && !s.empty()) {  // damage
      switch (c.rng.Below(3)) {
        case 0: s.resize(c.rng.Below(s.size() + 1)); ok = s.empty(); if (s.empty()) want = M(rows, std::vector<double>(cols, 0.0)); judged = s.size() < (size_t)rows || (s.size() - rows) % 2 != 0 || s.empty(); break;
        case 1: s.push_back(0); ok = false; break;
        default: { int i = c.rng.Below(rows); s[i] = 255; int tot = 0; for (int k = 0; k < rows; ++k) tot += s[k]; ok = tot <= (int)(s.size() - rows) / 2; judged = !ok; }
      }
    } else if (kind == 3) {
      s = c.rng.Bytes(1 + c.rng.Below(200)); judged = false;
      if (s.size() < (size_t)rows || (s.size() - rows) % 2 != 0) { judged = true; ok = false; }
      else { int tot = 0; for (int k = 0; k < rows; ++k) tot += s[k]; if (tot > (int)(s.size() - rows) / 2) { judged = true; ok = false; } }
    }
  } else if (kind == 4) {
    a = "unknown" + a; ok = false; cm.dense_data.assign(4, 1.0f);
  } else {
    b += "?"; ok = false; cm.sparse_blob.assign(40, 0);
  }
  auto got = DecompressMatrix(a, b, cm);
  c.Eval(); c.Distinct(HashVec(cm.sparse_blob.empty() ? std::vector<uint8_t>{1} : cm.sparse_blob) ^ HashStr(a + b) ^ (cm.dense_data.empty() ? 0 : HashVec(cm.dense_data)));
  if (!judged) return;
  V_CHECK(c, got.ok() == ok, "decompress-verdict", a << " -> " << b << " kind " << kind << " " << Hex(cm.sparse_blob) << " got " << got.ok());
  c.Count(ok ? "decompressed" : "decompress-refused");
  if (!ok) return;
  V_CHECK(c, got->size() == want.size() && got->at(0).size() == want[0].size(), "decompress-shape", a << " -> " << b);
  for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j)
    V_CHECK(c, std::fabs((*got)[i][j] - want[i][j]) < 1e-12, "decompress-value", At(a, b, i, j) << " got " << (*got)[i][j] << " want " << want[i][j] << " blob " << Hex(cm.sparse_blob));
}
std::vector<int> MirrorOf(int n, std::initializer_list<std::pair<int, int>> swaps) {
  std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i;
  for (auto [x, y] : swaps) { v[x] = y; v[y] = x; }
  return v;
}
const std::map<std::string, std::vector<int>>& Mirror() {
  static const std::map<std::string, std::vector<int>> m = {
      {"0+1+0", MirrorOf(1, {})}, {"0+2+0", MirrorOf(2, {{0, 1}})}, {"0+5+0", MirrorOf(6, {{0, 1}, {4, 5}})}, {"2+5+0", MirrorOf(8, {{0, 1}, {4, 5}, {6, 7}})},
      {"4+5+0", MirrorOf(10, {{0, 1}, {4, 5}, {6, 7}, {8, 9}})}, {"4+5+1", MirrorOf(11, {{0, 1}, {4, 5}, {6, 7}, {8, 9}})},
      {"0+7+0", MirrorOf(8, {{0, 1}, {4, 5}, {6, 7}})}, {"4+7+0", MirrorOf(12, {{0, 1}, {4, 5}, {6, 7}, {8, 9}, {10, 11}})},
      {"3.1.2", MirrorOf(6, {{0, 1}, {4, 5}})}, {"7.1.2", MirrorOf(10, {{0, 1}, {4, 5}, {6, 7}, {8, 9}})},
      {"9.1.6", MirrorOf(16, {{0, 1}, {4, 5}, {6, 7}, {8, 9}, {10, 11}, {12, 13}, {14, 15}})},
      {"4+9+0", MirrorOf(14, {{0, 1}, {4, 5}, {6, 7}, {8, 9}, {10, 11}, {12, 13}})},
      {"9+10+3", MirrorOf(24, {{0, 1}, {4, 5}, {6, 7}, {10, 11}, {12, 13}, {16, 17}, {18, 19}, {22, 23}})}};
  return m;
}
// Physical plausibility that does not use the recorded reference: unmixed channels stay, loudspeaker gains are not negative, left-right mirror symmetry.
void Structure(Ctx& c) {
  auto names = Names();
  std::string a = names[c.index / names.size()], b = names[c.index % names.size()];
  auto got = GetGainsForLayoutPair(a, b);
  if (!got.ok()) return;
  c.Eval(); c.Count("structures"); c.Distinct(HashStr(a + "/" + b));
  if (a[0] != 'A') {
    for (auto& row : *got) for (double v : row) V_CHECK(c, v >= 0, "negative-gain", a << " -> " << b << " " << v);
    // Every channel is heard, except low-frequency effects where the output has none.
    int silent = 0;
    for (auto& row : *got) { double e = 0; for (double v : row) e += v * v; if (e == 0) ++silent; V_CHECK(c, e < 2.01, "row-energy", a << " -> " << b << " " << e); }
    V_CHECK(c, silent <= (a == "9+10+3" || a == "3+7+0" ? 2 : 1), "silent-rows", a << " -> " << b << " " << silent);
  } else {
    for (auto& row : *got) { double e = 0; for (double v : row) e += v * v; V_CHECK(c, e > 0, "silent-ambisonics", a << " -> " << b); }
  }
  // Loudspeaker layouts are left-right symmetric, so their gains are too.
  const auto& pairs = Mirror();
  auto ma = pairs.find(a), mb = pairs.find(b);
  if (ma != pairs.end() && mb != pairs.end()) {
    c.Count("mirrored");
    for (size_t i = 0; i < got->size(); ++i) for (size_t j = 0; j < (*got)[i].size(); ++j)
      V_CHECK(c, std::fabs((*got)[i][j] - (*got)[ma->second[i]][mb->second[j]]) < 2e-6, "mirror", At(a, b, i, j) << " " << (*got)[i][j] << " mirrored " << (*got)[ma->second[i]][mb->second[j]]);
  }
}
void Dump() {
  auto names = Names();
  for (auto& a : names) for (auto& b : names) {
    auto it = Plain().find(a); if (it == Plain().end()) continue; auto jt = it->second.find(b); if (jt == it->second.end()) continue;
    printf("%s %s %zu %zu\n", a.c_str(), b.c_str(), jt->second.size(), jt->second[0].size());
    for (auto& r : jt->second) { for (double v : r) printf("%.9g ", v); printf("\n"); }
  }
}
}  // namespace
int main(int argc, char** argv) {
  if (getenv("VERIF_DUMP")) { Dump(); return 0; }
  return RunMain(argc, argv, {{"pairs", 400, 400, Pairs}, {"table", 8, 8, Table}, {"unknown", 20000, 400000, Unknown}, {"decompress", 40000, 1000000, Decompress}, {"structure", 400, 400, Structure}});
}
