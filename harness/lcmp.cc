// C35: when two sets of mix presentations are reported as equally loud, against a model of the comparison;
// reading the mixes of a file; the command line tool's verdict and report.
#include <cmath>
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include "harness/ref/stream.h"
#include "harness/vlib.h"
#define main lcmp_tool_main
#include "validation/iamf_loudness_comparator/iamf_loudness_comparator_main.cc"
#undef main
using namespace vlib;
using ref::Bytes;
using ref::Lp;
namespace {
struct Line { std::string what; double i1 = 0, i2 = 0, p1 = 0, p2 = 0; };
struct Want { bool match = true; std::vector<std::string> events; };
std::string Num(double v) { char b[40]; snprintf(b, sizeof b, "%.3f", v); return b; }
bool Same(const ref::MixLayout& a, const ref::MixLayout& b) { return a.type == b.type && (a.type != 2 || a.ss == b.ss) && a.res == b.res; }

Want Model(const std::vector<ref::Mix>& a, const std::vector<ref::Mix>& b, double tol) {
  Want w;
  for (auto& m : a) {
    w.events.push_back("mix " + std::to_string(m.id));
    const ref::Mix* o = nullptr;
    for (auto& x : b) if (x.id == m.id) o = &x;
    if (!o) { w.match = false; w.events.push_back("missing-2"); continue; }
    if (o->sm.size() != m.sm.size()) { w.match = false; w.events.push_back("counts " + std::to_string(m.sm.size()) + " " + std::to_string(o->sm.size())); continue; }
    for (size_t s = 0; s < m.sm.size(); ++s) {
      auto &x = m.sm[s].layouts, &y = o->sm[s].layouts;
      if (x.size() != y.size()) { w.match = false; w.events.push_back("counts " + std::to_string(x.size()) + " " + std::to_string(y.size())); continue; }
      for (auto& l : x) {
        const ref::MixLayout* k = nullptr;
        for (auto& z : y) if (Same(l, z)) { k = &z; break; }
        if (!k) { w.match = false; w.events.push_back("missing-2"); continue; }
        double di = std::abs(l.il / 256.0 - k->il / 256.0), dp = std::abs(l.dp / 256.0 - k->dp / 256.0);
        bool out = di > tol || dp > tol;
        if (out) w.match = false;
        w.events.push_back(out ? "out" : "within");
        w.events.push_back("integrated " + Num(l.il / 256.0) + " " + Num(k->il / 256.0) + " " + Num(di));
        w.events.push_back("peak " + Num(l.dp / 256.0) + " " + Num(k->dp / 256.0) + " " + Num(dp));
      }
    }
  }
  for (auto& m : b) {
    bool have = false;
    for (auto& x : a) have |= x.id == m.id;
    if (!have) { w.match = false; w.events.push_back("mix " + std::to_string(m.id)); w.events.push_back("missing-1"); }
  }
  return w;
}
// What a report says, whatever its spacing.
std::vector<std::string> Events(const std::string& report) {
  std::vector<std::string> r;
  std::istringstream in(report);
  std::string l;
  auto numbers = [](std::string s) {
    std::vector<double> v;
    for (auto& c : s) if (!isdigit(static_cast<unsigned char>(c)) && c != '.' && c != '-' && c != '+' && c != 'e') c = ' ';
    std::istringstream q(s); std::string t;
    while (q >> t) { char* e; double d = strtod(t.c_str(), &e); if (!*e && isdigit(static_cast<unsigned char>(t.back()))) v.push_back(d); }
    return v;
  };
  while (std::getline(in, l)) {
    auto has = [&](const char* s) { return l.find(s) != l.npos; };
    auto after = [&](const char* s) { return numbers(l.substr(l.find(s) + strlen(s))); };
    if (has("Presentation ID:")) { auto v = after("ID:"); r.push_back("mix " + (v.size() == 1 ? std::to_string(static_cast<uint64_t>(v[0])) : l)); continue; }
    if (has("Not found in File 2")) r.push_back("missing-2");
    else if (has("Not found in File 1")) r.push_back("missing-1");
    else if (has("count mismatch")) { auto v = after("mismatch"); r.push_back(v.size() == 2 ? "counts " + std::to_string(static_cast<int>(v[0])) + " " + std::to_string(static_cast<int>(v[1])) : l); }
    else if (has("Within Tolerance")) r.push_back("within");
    else if (has("Out of Tolerance")) r.push_back("out");
    else if (has("Integrated:") || has("Peak:")) {
      auto v = after(":");
      r.push_back((has("Peak:") ? "peak" : "integrated") + (v.size() == 3 ? " " + Num(v[0]) + " " + Num(v[1]) + " " + Num(v[2]) : l));
    } else if (!l.empty()) r.push_back("? " + l);
  }
  return r;
}
// The report prints six significant digits.
bool Close(const std::string& a, const std::string& b) {
  if (a == b) return true;
  std::istringstream x(a), y(b); std::string s, t;
  while (x >> s) { if (!(y >> t)) return false; if (s == t) continue; char *e, *f; double u = strtod(s.c_str(), &e), v = strtod(t.c_str(), &f); if (*e || *f || std::abs(u - v) > 2e-3) return false; }
  return !(y >> t);
}
std::string Differ(const std::vector<std::string>& got, const std::vector<std::string>& want) {
  for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
    std::string g = i < got.size() ? got[i] : "(end)", w = i < want.size() ? want[i] : "(end)";
    if (!Close(g, w)) return "line " + std::to_string(i) + " says '" + g + "', want '" + w + "'";
  }
  return "";
}

void Unique(Rng& r, std::vector<ref::MixLayout>& v) {
  std::set<std::pair<int, int>> seen;
  std::vector<ref::MixLayout> o;
  for (auto& l : v) { l.res = 0; if (seen.insert({l.type, l.type == 2 ? l.ss : 0}).second) o.push_back(l); }
  v = o;
}
std::vector<ref::Mix> GenMixes(Rng& r) {
  std::vector<ref::Mix> v;
  std::set<uint32_t> ids;
  int n = static_cast<int>(r.Range(1, 4));
  for (int i = 0; i < n; ++i) {
    auto m = ref::GenMix(r);
    if (!ids.insert(m.id).second) continue;
    for (auto& s : m.sm) { while (r.Chance(1, 2)) s.layouts.push_back(ref::GenLayout(r)); Unique(r, s.layouts); }
    v.push_back(m);
  }
  return v;
}
// Another recording of the same programme: some loudness moved, order changed, things missing or added.
std::vector<ref::Mix> Vary(Rng& r, std::vector<ref::Mix> v, int k) {
  bool structural = r.Chance(1, 3);
  int moves = r.Chance(1, 4) ? 0 : static_cast<int>(r.Range(1, 3));
  auto layouts = [&] { std::vector<ref::MixLayout*> o; for (auto& m : v) for (auto& s : m.sm) for (auto& l : s.layouts) o.push_back(&l); return o; };
  for (int i = 0; i < moves; ++i) {
    auto l = layouts();
    auto& x = *l[r.Below(l.size())];
    auto move = [&](int16_t& q) { int d = static_cast<int>(r.Chance(1, 4) ? r.Range(-3000, 3000) : k + r.Range(-1, 1)); if (r.Bool()) d = -d; q = static_cast<int16_t>(std::clamp(q + d, -32768, 32767)); };
    switch (r.Below(4)) { case 0: move(x.il); break; case 1: move(x.dp); break; case 2: move(x.il); move(x.dp); break; default: x.tp = ref::GenS16(r); if (!x.anchors.empty()) x.anchors[0].v = ref::GenS16(r); }
  }
  if (r.Chance(1, 2)) for (auto& m : v) for (auto& s : m.sm) r.Shuffle(s.layouts);
  if (r.Chance(1, 2)) r.Shuffle(v);
  if (structural) for (int i = static_cast<int>(r.Range(1, 2)); i-- > 0 && !v.empty();) {
    auto& m = v[r.Below(v.size())];
    auto& s = m.sm[r.Below(m.sm.size())];
    switch (r.Below(6)) {
      case 0: v.erase(v.begin() + r.Below(v.size())); break;
      case 1: { auto x = ref::GenMix(r); bool dup = false; for (auto& q : v) dup |= q.id == x.id; for (auto& q : x.sm) Unique(r, q.layouts); if (!dup) v.push_back(x); break; }
      case 2: { auto q = s; q.el.clear(); auto x = ref::GenMix(r); q.el = x.sm[0].el; bool bad = x.lang.size() != m.lang.size(); for (auto& z : m.sm) for (auto& e : z.el) for (auto& f : q.el) bad |= e.id == f.id; if (!bad) m.sm.push_back(q); break; }
      case 3: { for (size_t j = 0; j < s.layouts.size(); ++j) if (!(s.layouts[j].type == 2 && s.layouts[j].ss == 0)) { s.layouts.erase(s.layouts.begin() + j); break; } break; }
      case 4: { auto l = ref::GenLayout(r); s.layouts.push_back(l); Unique(r, s.layouts); break; }
      default: for (auto& l : s.layouts) if (!(l.type == 2 && l.ss == 0)) { auto q = l; q.type = 2; q.ss = r.Below(16); l = q; break; }
        Unique(r, s.layouts);
    }
  }
  return v;
}
void Append(Bytes& o, const Bytes& b) { o.insert(o.end(), b.begin(), b.end()); }
Bytes Encode(Rng& r, const std::vector<ref::Mix>& v, bool others) {
  Bytes o;
  Lp lp{r.Chance(1, 4) ? 1 : 0, &r};
  auto other = [&] { if (!others || !r.Chance(1, 3)) return; int t = r.Pick<int>({0, 1, 4, 3, 24, 30, 31}); ref::Hdr h; h.type = t; Append(o, ref::EncodeObu(h, r.Bytes(r.Below(40)), lp)); };
  other();
  for (auto& m : v) { Append(o, ref::EncodeObu(ref::GenHdr(r, 2), ref::EncodeMix(m, lp), lp)); other(); }
  return o;
}
std::string Show(const std::vector<ref::Mix>& v) {
  std::ostringstream o;
  for (auto& m : v) { o << "{" << m.id << ":"; for (auto& s : m.sm) { o << "["; for (auto& l : s.layouts) o << int(l.type) << "/" << (l.type == 2 ? int(l.ss) : 0) << " " << l.il << "," << l.dp << " "; o << "]"; } o << "}"; }
  return o.str();
}
bool Check(Ctx& x, const std::vector<ref::Mix>& a, const std::vector<ref::Mix>& b, double tol, const iamf_loudness_comparator::ComparisonResult& got, const char* key) {
  auto want = Model(a, b, tol);
  auto text = [&] { return Show(a) + " vs " + Show(b) + " tolerance " + std::to_string(tol) + " report: " + got.report; };
  V_CHECK_R(x, got.all_match == want.match, std::string(key) + "-verdict", "says " + std::to_string(got.all_match) + ": " + text(), false);
  auto d = Differ(Events(got.report), want.events);
  V_CHECK_R(x, d.empty(), std::string(key) + "-report", d + ": " + text(), false);
  x.Count(want.match ? "matches" : "differences");
  for (auto& e : want.events) x.Count("says-" + e.substr(0, e.find(' ')));
  x.Distinct(HashStr(got.report));
  if (x.WantSample()) x.Sample(text());
  return true;
}
double Tol(int k, Rng& r) { return r.Chance(1, 4) ? 0.1 : k / 256.0; }

void Buffers(Ctx& x) {
  auto& r = x.rng;
  int k = static_cast<int>(r.Chance(1, 5) ? 0 : r.Chance(1, 2) ? 25 : r.Range(1, 2000));
  auto a = GenMixes(r), b = r.Chance(1, 12) ? GenMixes(r) : Vary(r, a, k);
  Bytes p = Encode(r, a, true), q = Encode(r, b, true);
  double tol = Tol(k, r);
  x.Eval();
  if (b.empty()) {
    x.Count("empty");
    q.clear();
    auto g = iamf_loudness_comparator::CompareLoudness(p, q, tol), h = iamf_loudness_comparator::CompareLoudness(q, p, tol), e = iamf_loudness_comparator::CompareLoudness(q, q, tol);
    V_CHECK(x, !g.all_match && !h.all_match && e.all_match, "empty", "two, one and no empty buffers: " + std::to_string(e.all_match) + std::to_string(g.all_match) + std::to_string(h.all_match));
    return;
  }
  if (!Check(x, a, b, tol, iamf_loudness_comparator::CompareLoudness(p, q, tol), "buffers")) return;
  if (!Check(x, b, a, tol, iamf_loudness_comparator::CompareLoudness(q, p, tol), "reversed")) return;
  if (!Check(x, a, a, 0, iamf_loudness_comparator::CompareLoudness(p, p, 0), "itself")) return;
  // Cut inside an OBU: not silently a shorter list.
  if (r.Chance(1, 3)) {
    Bytes one = Encode(r, {a.back()}, false);
    Bytes cut = p; cut.insert(cut.end(), one.begin(), one.begin() + static_cast<long>(r.Range(1, static_cast<int64_t>(one.size()) - 1)));
    auto g = iamf_loudness_comparator::CompareLoudness(r.Bool() ? cut : p, cut, tol);
    V_CHECK(x, !g.all_match && !g.report.empty(), "cut", "a cut buffer matches: " + Hex(cut, 80));
    x.Count("cuts");
  }
}

void Files(Ctx& x) {
  auto& r = x.rng;
  ref::GenOpt o; o.max_tus = 3; o.max_frame = 16; o.max_mixes = 4;
  auto st = ref::GenStream(r, o);
  auto a = st;
  for (auto* s : {&st, &a}) for (auto& m : s->mixes) for (auto& q : m.sm) Unique(r, q.layouts);
  a = st;
  int k = static_cast<int>(r.Range(0, 60));
  for (auto& m : a.mixes) for (auto& s : m.sm) {
    for (auto& l : s.layouts) if (r.Chance(1, 4)) { int d = k + static_cast<int>(r.Range(-1, 1)); (r.Bool() ? l.il : l.dp) = static_cast<int16_t>(std::clamp(l.il + d, -32768, 32767)); }
    if (r.Chance(1, 3)) r.Shuffle(s.layouts);
  }
  if (r.Chance(1, 5)) { if (a.mixes.size() > 1) a.mixes.pop_back(); }
  Lp lp{r.Chance(1, 4) ? 1 : 0, &r};
  ref::EncodeStream(r, st, lp); ref::EncodeStream(r, a, lp);
  if (st.tus.empty() || a.tus.empty()) { x.Count("no-audio"); return; }
  std::string f1 = x.scratch + "/a.iamf", f2 = x.scratch + "/b.iamf", rep = x.scratch + "/report.txt";
  auto save = [](const std::string& f, const Bytes& b) { std::ofstream s(f, std::ios::binary); s.write(reinterpret_cast<const char*>(b.data()), static_cast<long>(b.size())); };
  save(f1, st.All()); save(f2, a.All());
  x.Eval();
  auto p = iamf_loudness_comparator::ParseIamfFile(f1), q = iamf_loudness_comparator::ParseIamfFile(f2);
  V_CHECK(x, p.ok() && q.ok(), "parse", std::string(p.ok() ? q.status().message() : p.status().message()) + " for " + Hex(st.All(), 200));
  double tol = Tol(k, r);
  if (!Check(x, st.mixes, a.mixes, tol, iamf_loudness_comparator::CompareLoudness(*p, *q, tol), "files")) return;
  // The tool.
  std::remove(rep.c_str());
  absl::SetFlag(&FLAGS_file1, f1); absl::SetFlag(&FLAGS_file2, f2); absl::SetFlag(&FLAGS_tolerance, tol); absl::SetFlag(&FLAGS_report_file, rep);
  char name[] = "tool"; char* argv[] = {name, nullptr};
  int rc = iamf_loudness_comparator::Main(1, argv);
  auto want = Model(st.mixes, a.mixes, tol);
  V_CHECK(x, (rc == 0) == want.match, "tool-exit", "exit " + std::to_string(rc) + " but match " + std::to_string(want.match) + " for " + Show(st.mixes) + " vs " + Show(a.mixes));
  std::ifstream in(rep); std::stringstream ss; ss << in.rdbuf();
  auto t = ss.str();
  auto i = t.find("Comparing"), j = t.find("Overall Result");
  V_CHECK(x, i != t.npos && j != t.npos && i < j, "tool-report", t);
  auto d = Differ(Events(t.substr(i, j - i)), want.events);
  V_CHECK(x, d.empty() && (t.find("Within", j) != t.npos) == want.match, "tool-report", d + ": " + t);
  x.Count("tool-runs");
  // Files that end within their descriptors have nothing to compare.
  size_t at = r.Below(st.descriptors.size());
  Bytes cut(st.descriptors.begin(), st.descriptors.begin() + static_cast<long>(at));
  save(f1, cut);
  V_CHECK(x, !iamf_loudness_comparator::ParseIamfFile(f1).ok(), "parse-cut", "descriptors cut at " + std::to_string(at) + " of " + std::to_string(st.descriptors.size()));
  x.Count("parse-cut");
}
}  // namespace
V_MAIN({{"buffers", 8000, 120000, Buffers}, {"files", 1500, 20000, Files}})
