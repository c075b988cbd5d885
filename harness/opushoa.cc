// C37: the verdict of the Opus ambisonics verifier on every element of generated files, against its rules.
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include "harness/ref/stream.h"
#include "harness/vlib.h"
#include "validation/opus_hoa/mapping_matrix.h"
#define main opushoa_tool_main
#include "validation/opus_hoa/opus_hoa_main.cc"
#undef main
using namespace vlib;
using namespace iamf_tools::opus_hoa;
using ref::Bytes;
using ref::Lp;
namespace {
struct Verdict { bool custom = false, mode = false, coupled = false, matrix = false, channels = false; int order = -1; uint32_t amb_mode = 0; };

Verdict Judge(const ref::Element& e) {
  Verdict v;
  v.amb_mode = e.amb_mode;
  for (int n = 0; n <= 4; ++n) if (e.C == (n + 1) * (n + 1)) v.order = n;
  if (v.order < 0) { v.custom = v.channels = true; return v; }
  v.mode = (v.order <= 2) != (e.amb_mode == 0);
  if (e.amb_mode == 1) {
    v.coupled = e.M != e.C / 2;
    if (v.order >= 3) {
      int big = v.order == 3 ? 18 : 27, n = e.C;
      const int16_t* d = v.order == 3 ? mapping_matrix_toa_demixing_data : mapping_matrix_fourthoa_demixing_data;
      v.matrix = e.matrix.size() != static_cast<size_t>(n) * n;
      if (!v.matrix) for (int c = 0; c < n; ++c) for (int r = 0; r < n; ++r) v.matrix |= e.matrix[c * n + r] != d[c * big + r];
    }
  }
  v.custom = v.mode || v.coupled || v.matrix;
  return v;
}
void Ambi(Rng& r, ref::Element& e) {
  if (r.Chance(1, 3)) { ref::GenAmbisonics(r, e); return; }
  int n = static_cast<int>(r.Chance(2, 3) ? r.Range(3, 4) : r.Range(0, 2)), C = (n + 1) * (n + 1);
  e.type = 1; e.C = C;
  if (r.Chance(n <= 2 ? 3 : 1, n <= 2 ? 4 : 8)) { e.amb_mode = 0; e.N = C; for (int i = 0; i < C; ++i) e.mapping.push_back(static_cast<uint8_t>(i)); return; }
  e.amb_mode = 1;
  e.M = C / 2; e.N = C - e.M;
  if (n >= 3) {
    int big = n == 3 ? 18 : 27;
    const int16_t* d = n == 3 ? mapping_matrix_toa_demixing_data : mapping_matrix_fourthoa_demixing_data;
    for (int c = 0; c < C; ++c) for (int k = 0; k < C; ++k) e.matrix.push_back(d[c * big + k]);
    if (r.Chance(1, 4)) { auto& x = e.matrix[r.Below(4) == 0 ? (r.Bool() ? 0 : e.matrix.size() - 1) : r.Below(e.matrix.size())]; x = static_cast<int16_t>(x ^ (1 << r.Below(16))); }
    if (r.Chance(1, 12)) { std::vector<int16_t> t(e.matrix.size()); for (int c = 0; c < C; ++c) for (int k = 0; k < C; ++k) t[k * C + c] = e.matrix[c * C + k]; e.matrix = t; }
    if (r.Chance(1, 12)) for (int c = 0; c < C * C; ++c) e.matrix[c] = d[c];
  } else for (int i = 0; i < C * C; ++i) e.matrix.push_back(ref::GenS16(r));
  if (r.Chance(1, 6)) { int d = static_cast<int>(r.Range(1, e.M + 1)); if (d <= e.M && e.N + d <= 255) { e.M -= d; e.N += d; } }
  if (r.Chance(1, 10) && e.N + e.M > 1) { if (e.N > e.M) { --e.N; e.matrix.resize(e.matrix.size() - C); } }
}

void Files(Ctx& x) {
  auto& r = x.rng;
  Lp lp{r.Chance(1, 4) ? 1 : 0, &r};
  Bytes o;
  auto put = [&](int type, const Bytes& p) { Bytes b = ref::EncodeObu(ref::GenHdr(r, type), p, lp); o.insert(o.end(), b.begin(), b.end()); };
  auto plain = [&](int type, const Bytes& p) { Bytes b = ref::EncodeObu(ref::Hdr{type}, p, lp); o.insert(o.end(), b.begin(), b.end()); };
  ref::Bits ia; ia.Put(0x69616d66, 32); ia.Put(r.Below(3), 8); ia.Put(r.Below(3), 8);
  plain(31, ia.Bytes());
  std::vector<ref::Codec> codecs;
  std::set<uint32_t> cids, eids, sids;
  int nc = static_cast<int>(r.Range(1, 2));
  for (int i = 0; i < nc; ++i) {
    auto c = ref::GenCodec(r, i == 0 || r.Bool() ? ref::kOpus : r.Pick<uint32_t>({ref::kLpcm, ref::kFlac, ref::kAac}));
    if (!cids.insert(c.id).second) continue;
    codecs.push_back(c); plain(0, ref::EncodeCodec(c, lp));
  }
  std::map<uint32_t, Verdict> want;
  std::string log;
  int ne = static_cast<int>(r.Below(5));
  for (int i = 0; i < ne; ++i) {
    ref::Element e;
    if (r.Chance(1, 6)) e = ref::GenElement(r, 2); else { e.id = ref::GenId(r); Ambi(r, e); }
    if (!eids.insert(e.id).second) continue;
    auto& c = codecs[r.Below(codecs.size())];
    e.codec = c.id; e.params.clear(); e.num_params.reset();
    uint32_t ns = e.type == 1 ? e.N : 1;
    e.subs.clear();
    while (e.subs.size() < ns) { uint32_t v = static_cast<uint32_t>(r.Below(100000)); if (sids.insert(v).second) e.subs.push_back(v); }
    plain(1, ref::EncodeElement(e, lp));
    log += " {" + std::to_string(e.id) + " type " + std::to_string(e.type) + " codec " + std::to_string(c.fourcc == ref::kOpus) + " mode " + std::to_string(e.amb_mode) + " C " + std::to_string(e.C) + " N " + std::to_string(e.N) + " M " + std::to_string(e.M) + "}";
    if (e.type == 1 && c.fourcc == ref::kOpus) want[e.id] = Judge(e); else x.Count("others");
  }
  plain(4, {});
  std::string f = x.scratch + "/hoa.iamf", rep = x.scratch + "/hoa.txt";
  { std::ofstream s(f, std::ios::binary); s.write(reinterpret_cast<const char*>(o.data()), static_cast<long>(o.size())); }
  x.Eval();
  auto got = VerifyOpusAmbisonics(f);
  V_CHECK(x, got.ok(), "refused", std::string(got.status().message()) + log);
  std::set<uint32_t> seen;
  bool all = true;
  for (auto& g : *got) {
    V_CHECK(x, want.count(g.audio_element_id) && seen.insert(g.audio_element_id).second, "listed", "element " + std::to_string(g.audio_element_id) + log);
    auto& w = want[g.audio_element_id];
    auto has = [&](const char* s) { return g.custom_rationale.find(s) != std::string::npos; };
    V_CHECK(x, (g.status == VerificationStatus::kCustom) == w.custom && g.order == w.order && static_cast<uint32_t>(g.ambisonics_mode) == w.amb_mode, "verdict",
            std::to_string(g.audio_element_id) + ": status " + std::to_string(static_cast<int>(g.status)) + " order " + std::to_string(g.order) + " '" + g.custom_rationale + "', want custom " + std::to_string(w.custom) + " order " + std::to_string(w.order) + log);
    V_CHECK(x, g.custom_rationale.empty() != w.custom && has("recommended practice") == w.mode && has("coupled") == w.coupled && has("matrix") == w.matrix && has("output_channel_count") == w.channels, "rationale",
            std::to_string(g.audio_element_id) + " '" + g.custom_rationale + "', want mode " + std::to_string(w.mode) + " coupled " + std::to_string(w.coupled) + " matrix " + std::to_string(w.matrix) + " channels " + std::to_string(w.channels) + log);
    all &= !w.custom;
    x.Count(!w.custom ? "canonical" : "custom");
    if (!w.custom && w.order >= 3) x.Count("canonical-matrix");
    if (w.matrix && !w.coupled && !w.mode) x.Count("custom-matrix-only");
    if (w.coupled && !w.mode && !w.matrix) x.Count("custom-coupled-only");
    if (w.mode && !w.coupled && !w.matrix) x.Count("custom-mode-only");
    if (w.channels) x.Count("custom-channels");
  }
  // The descriptor parser may drop elements of higher orders than the profiles allow.
  for (auto i = want.begin(); i != want.end();) {
    if (!seen.count(i->first) && i->second.channels) { x.Count("dropped-high-order"); i = want.erase(i); } else ++i;
  }
  V_CHECK(x, seen.size() == want.size(), "complete", std::to_string(seen.size()) + " of " + std::to_string(want.size()) + log);
  x.Distinct(HashStr(log));
  if (x.WantSample()) x.Sample(log);
  // The report and the tool.
  auto report = GenerateVerificationReport(*got);
  V_CHECK(x, report.all_canonical == all, "all-canonical", log);
  const char* sum = want.empty() ? "No Opus Ambisonics" : all ? "All Canonical" : "Non-Canonical";
  auto check = [&](const std::string& t, const char* key) {
    V_CHECK_R(x, t.find(sum) != t.npos, key, "no '" + std::string(sum) + "' in " + t, false);
    std::istringstream in(t); std::string l; std::set<uint32_t> lines;
    while (std::getline(in, l)) {
      auto i = l.find("Element ID:");
      if (i == l.npos) continue;
      uint32_t id = static_cast<uint32_t>(strtoul(l.c_str() + i + 11, nullptr, 10));
      V_CHECK_R(x, want.count(id) && lines.insert(id).second, key, "line " + l, false);
      V_CHECK_R(x, (l.find("CUSTOM") != l.npos) == want[id].custom && (l.find("CANONICAL") == l.npos) == want[id].custom && l.find("(" + std::to_string(want[id].order) + "OA)") != l.npos, key, "line " + l, false);
    }
    V_CHECK_R(x, lines.size() == want.size(), key, "lines " + t, false);
    return true;
  };
  if (!check(report.report, "report")) return;
  std::remove(rep.c_str());
  std::string a1 = "--input=" + f, a2 = "--report_file=" + rep; char name[] = "tool";
  char* argv[] = {name, a1.data(), a2.data(), nullptr};
  int rc = opushoa_tool_main(3, argv);
  V_CHECK(x, rc == 0, "tool-exit", std::to_string(rc));
  std::ifstream in(rep); std::stringstream ss; ss << in.rdbuf();
  if (!check(ss.str(), "tool-report")) return;
  x.Count("tool-runs");
  // A cut file has no verdict.
  Bytes cut(o.begin(), o.begin() + static_cast<long>(r.Below(o.size() - 2)));
  { std::ofstream s(f, std::ios::binary | std::ios::trunc); s.write(reinterpret_cast<const char*>(cut.data()), static_cast<long>(cut.size())); }
  auto bad = VerifyOpusAmbisonics(f);
  V_CHECK(x, !bad.ok(), "cut", "cut at " + std::to_string(cut.size()) + " of " + std::to_string(o.size()) + log);
  x.Count("cut");
}
// Submatrices of the reference matrices.
void Submatrix(Ctx& x) {
  x.Eval();
  auto same = [&](const auto& m, const int16_t* d, int big, int n) {
    for (int c = 0; c < n; ++c) for (int k = 0; k < n; ++k) if (m[c * n + k] != d[c * big + k]) return false;
    return true;
  };
  V_CHECK(x, same(kIamfDemixingMatrix3OA, mapping_matrix_toa_demixing_data, 18, 16) && same(kIamfDemixingMatrix4OA, mapping_matrix_fourthoa_demixing_data, 27, 25), "submatrix", "reference matrices");
  std::vector<int16_t> d(81);
  for (auto& v : d) v = ref::GenS16(x.rng);
  V_CHECK(x, same(DeriveIamfDemixingMatrix<9, 4>(d.data()), d.data(), 9, 4) && same(DeriveIamfDemixingMatrix<9, 9>(d.data()), d.data(), 9, 9), "submatrix", "random");
  x.Count("submatrices");
  x.Distinct(HashVec(d));
}
}  // namespace
V_MAIN({{"files", 12000, 80000, Files}, {"submatrix", 200, 2000, Submatrix}})
