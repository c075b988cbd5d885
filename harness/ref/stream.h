// Whole IA sequences with LPCM audio, and what decoding and rendering them must
// give, computed in double precision from the specification. Nothing here uses
// the code under test.
#ifndef VERIF_REF_STREAM_H_
#define VERIF_REF_STREAM_H_
#include <algorithm>
#include <cmath>
#include <fstream>
#include <map>
#include <string>
#include "harness/ref/obus.h"
namespace ref {
using Names = std::vector<std::string>;
using Mat = std::vector<std::vector<double>>;  // [in][out] or [channel][tick]

// ---- gain tables ----
inline const std::map<std::string, Mat>& GainTable() {
  static const auto* t = [] {
    auto* m = new std::map<std::string, Mat>;
    const char* dir = getenv("VERIF_DIR");
    std::ifstream f(std::string(dir ? dir : "/verif") + "/harness/ref/gains.txt");
    std::string a, b; int r, c;
    while (f >> a >> b >> r >> c) { Mat x(r, std::vector<double>(c)); for (auto& row : x) for (auto& v : row) { std::string s; f >> s; v = strtod(s.c_str(), nullptr); } (*m)[a + ">" + b] = x; }
    if (m->empty()) vlib::HarnessBug("gain table");
    return m;
  }();
  return *t;
}
inline const Mat* Gains(const std::string& in, const std::string& out) { auto i = GainTable().find(in + ">" + out); return i == GainTable().end() ? nullptr : &i->second; }

// ---- layouts ----
constexpr int kBinaural = 14;  // the API's numbering of output layouts
// Output layouts by sound system 0..14 (IAMF numbering).
inline int SsChannels(int ss) { static const int n[] = {2, 6, 8, 10, 11, 12, 14, 24, 8, 12, 10, 6, 1, 16, 17}; return n[ss]; }
inline const std::string& SsKey(int ss) { static const std::string k[] = {"0+2+0", "0+5+0", "2+5+0", "4+5+0", "4+5+1", "3+7+0", "4+9+0", "9+10+3", "0+7+0", "4+7+0", "7.1.2", "3.1.2", "0+1+0", "9.1.6", "7.1.5.4"}; return k[ss]; }

// Channel pairs and singles of a layout in substream order. A pair is two labels.
inline std::vector<Names> LayoutSubs(int layout, int ex = -1) {
  auto P = [](const char* a, const char* b) { return Names{a, b}; };
  auto S = [](const char* a) { return Names{a}; };
  auto tf4 = P("Ltf4", "Rtf4"), tb4 = P("Ltb4", "Rtb4"), tf2 = P("Ltf2", "Rtf2"), tf3 = P("Ltf3", "Rtf3");
  auto l5 = P("L5", "R5"), s5 = P("Ls5", "Rs5"), l7 = P("L7", "R7"), ss7 = P("Lss7", "Rss7"), rs7 = P("Lrs7", "Rrs7");
  auto C = S("C"), LFE = S("LFE");
  auto flc = P("FLc", "FRc"), fl = P("FL", "FR"), sil = P("SiL", "SiR"), bl = P("BL", "BR"), tpfl = P("TpFL", "TpFR"), tpsil = P("TpSiL", "TpSiR"), tpbl = P("TpBL", "TpBR");
  auto btfl = P("BtFL", "BtFR"), btbl = P("BtBL", "BtBR");
  if (layout == 15) switch (ex) {
    case 0: return {LFE}; case 1: return {s5}; case 2: return {ss7}; case 3: return {rs7}; case 4: return {tf4}; case 5: return {tb4};
    case 6: return {tf4, tb4}; case 7: return {l7, C}; case 8: return {flc, fl, sil, bl, tpfl, tpsil, tpbl, S("FC"), LFE};
    case 9: return {fl}; case 10: return {sil}; case 11: return {tpsil}; case 12: return {tpfl, tpsil, tpbl};
    case 13: return {flc, fl, sil, bl, tpfl, tpsil, tpbl, btfl, S("FC"), S("BC"), S("TpFC"), S("TpC"), S("TpBC"), S("BtFC"), S("LFE"), S("LFE2")};
    case 14: return {LFE, S("LFE2")}; case 15: return {btfl, S("BtFC")};
    case 16: return {l7, ss7, rs7, tf4, tb4, btfl, btbl, C, S("TpC"), LFE}; case 17: return {btfl, btbl}; case 18: return {S("TpC")}; case 19: return {tf4, tb4, S("TpC")};
  }
  switch (layout) {
    case 0: return {S("Mono")}; case 1: case 9: return {P("L2", "R2")};
    case 2: return {l5, s5, C, LFE}; case 3: return {l5, s5, tf2, C, LFE}; case 4: return {l5, s5, tf4, tb4, C, LFE};
    case 5: return {l7, ss7, rs7, C, LFE}; case 6: return {l7, ss7, rs7, tf2, C, LFE}; case 7: return {l7, ss7, rs7, tf4, tb4, C, LFE};
    case 8: return {P("L3", "R3"), tf3, C, LFE};
  }
  return {};
}
// The rendering order of a layout's labels; "" is a channel the layout lacks.
inline Names LayoutOrder(int layout, int ex = -1) {
  static const Names o714{"L7", "R7", "C", "LFE", "Lss7", "Rss7", "Lrs7", "Rrs7", "Ltf4", "Rtf4", "Ltb4", "Rtb4"};
  static const Names o514{"L5", "R5", "C", "LFE", "Ls5", "Rs5", "Ltf4", "Rtf4", "Ltb4", "Rtb4"};
  static const Names o916{"FL", "FR", "FC", "LFE", "BL", "BR", "FLc", "FRc", "SiL", "SiR", "TpFL", "TpFR", "TpBL", "TpBR", "TpSiL", "TpSiR"};
  static const Names oH{"FL", "FR", "FC", "LFE", "BL", "BR", "FLc", "FRc", "BC", "LFE2", "SiL", "SiR", "TpFL", "TpFR", "TpFC", "TpC", "TpBL", "TpBR", "TpSiL", "TpSiR", "TpBC", "BtFC", "BtFL", "BtFR"};
  static const Names o7154{"L7", "R7", "C", "LFE", "Lss7", "Rss7", "Lrs7", "Rrs7", "Ltf4", "Rtf4", "Ltb4", "Rtb4", "TpC", "BtFL", "BtFR", "BtBL", "BtBR"};
  switch (layout) {
    case 0: return {"Mono"}; case 1: case 9: return {"L2", "R2"};
    case 2: return {"L5", "R5", "C", "LFE", "Ls5", "Rs5"}; case 3: return {"L5", "R5", "C", "LFE", "Ls5", "Rs5", "Ltf2", "Rtf2"}; case 4: return o514;
    case 5: return {"L7", "R7", "C", "LFE", "Lss7", "Rss7", "Lrs7", "Rrs7"}; case 6: return {"L7", "R7", "C", "LFE", "Lss7", "Rss7", "Lrs7", "Rrs7", "Ltf2", "Rtf2"}; case 7: return o714;
    case 8: return {"L3", "R3", "C", "LFE", "Ltf3", "Rtf3"};
  }
  const Names& base = ex == 1 ? o514 : ex <= 7 ? o714 : ex <= 12 ? o916 : ex <= 15 ? oH : o7154;
  std::set<std::string> have;
  for (auto& s : LayoutSubs(15, ex)) have.insert(s.begin(), s.end());
  Names r;
  for (auto& n : base) r.push_back(have.count(n) ? n : "");
  return r;
}
inline int ExpandedBase(int ex) { return ex == 1 ? 3 : ex <= 7 ? 9 : ex <= 12 ? 13 : ex <= 15 ? 7 : 14; }
inline std::string LayoutKey(int layout, int ex = -1) {
  static const char* k[] = {"0+1+0", "0+2+0", "0+5+0", "2+5+0", "4+5+0", "0+7+0", "7.1.2", "4+7+0", "3.1.2"};
  if (layout == 15) return SsKey(ExpandedBase(ex));
  return layout < 9 ? k[layout] : "";
}
// The sound system a loudspeaker layout is, -1 when none.
inline int LayoutSs(int layout, int ex = -1) {
  static const int k[] = {12, 0, 1, 2, 3, 8, 10, 9, 11};
  if (layout == 15) return ExpandedBase(ex);
  return layout < 9 ? k[layout] : -1;
}
inline void LayoutNumbers(int layout, int& s, int& lfe, int& h) {
  static const int S[] = {1, 2, 5, 5, 5, 7, 7, 7, 3}, L[] = {0, 0, 1, 1, 1, 1, 1, 1, 1}, H[] = {0, 0, 0, 2, 4, 0, 2, 4, 2};
  s = S[layout]; lfe = L[layout]; h = H[layout];
}
// The substreams a further layer adds on top of `prev`.
inline std::vector<Names> LayerAdds(int prev, int cur) {
  int s0, l0, h0, s1, l1, h1;
  LayoutNumbers(prev, s0, l0, h0); LayoutNumbers(cur, s1, l1, h1);
  std::vector<Names> pairs, singles;
  if (s0 < 5 && s1 >= 5) pairs.push_back({"L5", "R5"});
  if (s0 < 7 && s1 >= 7) pairs.push_back({"Lss7", "Rss7"});
  if (h0 == 0 && h1 == 4) { pairs.push_back({"Ltf4", "Rtf4"}); pairs.push_back({"Ltb4", "Rtb4"}); }
  if (h0 == 0 && h1 == 2) pairs.push_back(s1 == 3 ? Names{"Ltf3", "Rtf3"} : Names{"Ltf2", "Rtf2"});
  if (h0 == 2 && h1 == 4) pairs.push_back({"Ltf4", "Rtf4"});
  if (s0 < 3 && s1 >= 3) singles.push_back({"C"});
  if (l0 < l1) singles.push_back({"LFE"});
  if (s0 < 2 && s1 >= 2) singles.push_back({"L2"});
  for (auto& s : singles) pairs.push_back(s);
  return pairs;
}
inline bool LayersNest(int prev, int cur) {
  int s0, l0, h0, s1, l1, h1;
  LayoutNumbers(prev, s0, l0, h0); LayoutNumbers(cur, s1, l1, h1);
  return s1 >= s0 && l1 >= l0 && h1 >= h0 && (s1 > s0 || l1 > l0 || h1 > h0);
}

struct DemixParams { double a = 0.707, b = 0.707, g = 0.707, d = 0.707, w = 0; bool in_bitstream = false; };
inline DemixParams DemixByMode(int mode, int w_idx) {
  static const double A[] = {1, .707, 1, 0, 1, .707, 1}, B[] = {1, .707, .866, 0, 1, .707, .866}, G[] = {.707, .707, .866, 0, .707, .707, .866}, D[] = {.707, .707, .866, 0, .707, .707, .866};
  static const double W[] = {0, .0179, .0391, .0658, .1038, .25, .3962, .4342, .4609, .4821, .5};
  DemixParams p;
  p.a = A[mode]; p.b = B[mode]; p.g = G[mode]; p.d = D[mode]; p.w = W[w_idx]; p.in_bitstream = true;
  return p;
}

// ---- an audio element with its labels ----
struct Elem {
  Element e;
  std::vector<Names> subs;  // labels per substream, in element order
  bool scalable = false;
  int Channels() const { int n = 0; for (auto& s : subs) n += static_cast<int>(s.size()); return n; }
  bool Ambisonics() const { return e.type == 1; }
};
using Labels = std::map<std::string, std::vector<double>>;  // label -> ticks
// The bit of a layer's output gain flags that governs a channel; 0 when none does.
inline uint8_t GainBit(const std::string& l) {
  if (l == "Mono" || l == "L2" || l == "L3") return 1 << 5;
  if (l == "R2" || l == "R3") return 1 << 4;
  if (l == "Ls5") return 1 << 3;
  if (l == "Rs5") return 1 << 2;
  if (l == "Ltf2" || l == "Ltf3") return 1 << 1;
  if (l == "Rtf2" || l == "Rtf3") return 1;
  return 0;
}

// Reconstructs every label derivable from the transmitted ones.
inline void Demix(Labels& x, const Elem& el, const DemixParams& p) {
  auto has = [&](const char* n) { return x.count(n) > 0; };
  auto comb = [&](const char* out, std::initializer_list<std::pair<const char*, double>> t) {
    std::vector<double> r(x.begin()->second.size(), 0.0);
    for (auto& [n, g] : t) for (size_t i = 0; i < r.size(); ++i) r[i] += g * x[n][i];
    x[out] = r;
  };
  int s = 0, l, h = 0, s0 = 0, h0 = 0;
  LayoutNumbers(el.e.layers.back().layout, s, l, h); LayoutNumbers(el.e.layers[0].layout, s0, l, h0);
  if (s0 == 1 && s >= 2) comb("R2", {{"Mono", 2}, {"L2", -1}});
  if (s0 <= 2 && s >= 3) { comb("L3", {{"L2", 1}, {"C", -.707}}); comb("R3", {{"R2", 1}, {"C", -.707}}); }
  if (s0 <= 3 && s >= 5) { comb("Ls5", {{"L3", 1 / p.d}, {"L5", -1 / p.d}}); comb("Rs5", {{"R3", 1 / p.d}, {"R5", -1 / p.d}}); }
  if (s0 <= 5 && s >= 7) {
    x["L7"] = x["L5"]; x["R7"] = x["R5"];
    comb("Lrs7", {{"Ls5", 1 / p.b}, {"Lss7", -p.a / p.b}}); comb("Rrs7", {{"Rs5", 1 / p.b}, {"Rss7", -p.a / p.b}});
  }
  if (has("Ltf3") && s > 3) { comb("Ltf2", {{"Ltf3", 1}, {"L3", -p.w}, {"L5", p.w}}); comb("Rtf2", {{"Rtf3", 1}, {"R3", -p.w}, {"R5", p.w}}); }
  if (h == 4 && has("Ltf2")) { comb("Ltb4", {{"Ltf2", 1 / p.g}, {"Ltf4", -1 / p.g}}); comb("Rtb4", {{"Rtf2", 1 / p.g}, {"Rtf4", -1 / p.g}}); }
}

// How an element reaches a playback layout: labels and gains; !ok when it cannot.
// gerr is how far a table value may be from the recorded one, per input.
struct Path { bool ok = false, exact = false, obr = false; Names in; Mat g; std::vector<double> gerr; };
// layout: sound system 0..14, or -1 for binaural. Elements in the headphones
// mode "binaural" go to the binaural library, here a stand-in which adds half of
// the even channels and a quarter of the odd ones to the left, and the other way
// round to the right, in single precision; it takes frames of 32 to 16384 ticks.
inline Path PathFor(const Elem& el, int ss, int headphones, size_t frame) {
  Path p;
  const bool bin = ss < 0, library = frame >= 32 && frame <= 16384;
  auto ears = [](int c) { return c % 2 == 0 ? std::vector<double>{0.5, 0.25} : std::vector<double>{0.25, 0.5}; };
  auto identity = [&](const Names& order) { p.ok = p.exact = true; p.in = order; p.g.assign(order.size(), std::vector<double>(order.size(), 0)); for (size_t i = 0; i < order.size(); ++i) p.g[i][i] = 1; p.gerr.assign(order.size(), 0.0); };
  if (el.Ambisonics()) {
    int order = static_cast<int>(std::lround(std::sqrt(el.e.C))) - 1;
    Mat eg;
    const Mat* g = nullptr;
    if (bin && headphones == 1) {
      if (!library || order < 1 || order > 4) return p;
      for (int c = 0; c < el.e.C; ++c) eg.push_back(ears(c));
      g = &eg; p.obr = true;
    } else {
      g = Gains("A" + std::to_string(order), SsKey(bin ? 0 : ss));
    }
    if (!g) return p;
    p.ok = true;
    if (el.e.amb_mode == 0) {
      for (int c = 0; c < el.e.C; ++c) if (el.e.mapping[c] != 255) { p.in.push_back("s" + std::to_string(el.e.mapping[c]) + ".0"); p.g.push_back((*g)[c]); p.gerr.push_back(2e-6); }
    } else {
      for (int i = 0; i < el.e.N + el.e.M; ++i) {
        p.in.push_back(i < 2 * el.e.M ? "s" + std::to_string(i / 2) + "." + std::to_string(i % 2) : "s" + std::to_string(i - el.e.M) + ".0");
        std::vector<double> row((*g)[0].size(), 0.0); double ge = 0;
        for (int j = 0; j < el.e.C; ++j) { double dm = el.e.matrix[static_cast<size_t>(i) * el.e.C + j] / 32768.0; ge += 2e-6 * std::fabs(dm); for (size_t k = 0; k < row.size(); ++k) row[k] += dm * (*g)[j][k]; }
        p.g.push_back(row); p.gerr.push_back(ge);
      }
    }
    return p;
  }
  int play = bin && headphones != 1 ? 0 : ss;
  for (auto& l : el.e.layers) {
    int ex = l.layout == 15 ? l.expanded : -1;
    bool match;
    if (play < 0) match = l.layout == 9;
    else if (l.layout == 9) match = play == 0;
    else if (l.layout == 15) match = ExpandedBase(ex) == play;
    else match = LayoutSs(l.layout) == play;
    if (match) { identity(LayoutOrder(l.layout, ex)); return p; }
  }
  auto& top = el.e.layers.back();
  if (play < 0) {
    if (!library || top.layout > 8 || el.e.type != 0) return p;
    p.ok = p.obr = true; p.in = LayoutOrder(top.layout, -1); p.gerr.assign(p.in.size(), 2e-6);
    for (size_t c = 0; c < p.in.size(); ++c) p.g.push_back(ears(static_cast<int>(c)));
    return p;
  }
  int ex = top.layout == 15 ? top.expanded : -1;
  const Mat* g = Gains(LayoutKey(top.layout, ex), SsKey(play));
  if (!g) return p;
  p.ok = true; p.in = LayoutOrder(top.layout, ex); p.g = *g; p.gerr.assign(p.in.size(), 2e-6);
  return p;
}

// ---- gain of one parameter over a frame ----
// Linear gain at tick i of a segment of n ticks, and the relative error that
// evaluating the curve in single precision may add.
struct Gain { double v = 1, tol = 0; };
inline Gain MixGainAt(const PData& d, uint32_t i, uint32_t n) {
  double a = d.a / 256.0, b = d.b / 256.0, c = d.c / 256.0, db, tol = 4e-6;
  if (d.anim == 0) db = a;
  else if (d.anim == 1) { double t = static_cast<double>(i) / n; db = (1 - t) * a + t * b; }
  else {
    double n2 = n, n1 = std::floor(n2 * (d.t / 256.0) + 0.5), al = -2 * n1 + n2, be = 2 * n1, ga = -static_cast<double>(i);
    double root = std::sqrt(be * be - 4 * al * ga);
    double t = al == 0 ? (be == 0 ? 0 : -ga / be) : (-be + root) / (2 * al);
    if (al != 0) tol += 3e-7 * (1 + (be + root) / (2 * std::fabs(al))) * 2 * (std::fabs(c - a) + std::fabs(b - c)) * std::log(10) / 20;
    db = (1 - t) * (1 - t) * a + 2 * (1 - t) * t * c + t * t * b;
  }
  return {std::pow(10.0, db / 20), tol};
}
inline std::vector<Gain> BlockGains(const Sched& s, const std::vector<PData>& data, size_t ticks, double dflt) {
  std::vector<Gain> r(ticks, {dflt, 4e-6});
  size_t at = 0;
  for (uint32_t k = 0; k < s.Count(); ++k) for (uint32_t i = 0; i < s.At(k); ++i, ++at) if (at < ticks) r[at] = MixGainAt(data[k], i, s.At(k));
  return r;
}

// ---- a whole sequence ----
struct Tu {
  std::vector<Bytes> payload;              // per substream (flat over elements)
  std::vector<std::vector<std::vector<int32_t>>> pcm;  // [substream][channel][tick]
  uint32_t ticks = 0, trim_start = 0, trim_end = 0;
  bool trim_flag = false;
  std::vector<PBlock> blocks;
  std::map<uint32_t, DemixParams> demix;   // what this unit's demixing blocks say, by element id
};
struct Stream {
  Codec codec;
  std::vector<Codec> more_codecs;
  uint8_t primary = 0, additional = 0;
  std::vector<Elem> elems;
  std::vector<Mix> mixes;
  std::vector<Tu> tus;
  bool delimiters = false, redundant = true;
  Bytes descriptors;
  std::vector<Bytes> tu_bytes;
  const Elem& ById(uint32_t id) const { for (auto& e : elems) if (e.e.id == id) return e; vlib::HarnessBug("element"); }
  size_t FlatOf(uint32_t id) const { size_t n = 0; for (auto& e : elems) { if (e.e.id == id) return n; n += e.subs.size(); } vlib::HarnessBug("element"); }
  Bytes All() const { Bytes b = descriptors; for (auto& t : tu_bytes) b.insert(b.end(), t.begin(), t.end()); return b; }
};

// An OBU of an audio frame of substream `id`.
inline Bytes FrameObu(Rng& r, uint32_t id, const Bytes& audio, bool flag, uint32_t te, uint32_t ts, const Lp& lp) {
  Hdr h;
  bool implicit = id < 18 && !r.Chance(1, 12);
  h.type = implicit ? 6 + static_cast<int>(id) : 5;
  h.flag = flag; h.trim_end = te; h.trim_start = ts;
  if (r.Chance(1, 12)) { h.ext = true; h.ext_bytes = r.Bytes(r.Below(6)); }
  Bits b;
  if (!implicit) lp(b, id);
  b.PutBytes(audio);
  return EncodeObu(h, b.Bytes(), lp);
}

struct GenOpt {
  int max_elems = 3, max_mixes = 3, max_tus = 6, max_frame = 48;
  bool trims = true, gains = true, expanded_all = false, animate_with_start_trim = false;
  bool enhanced = true;    // may use the base-enhanced profile
  bool identity = false;   // one element that passes through at 0 dB
  bool redundant = true;   // redundant copies of descriptors between units
  std::optional<Codec> codec;   // overrides the generated one
  bool lossy = false;           // elements of one layer only
  bool scalable_only = false;   // channel-based elements of several layers only
  bool output_gains = false;    // layers may have output gains
  bool recon = false;           // layered elements may have recon gain blocks, all of their gains 1
  bool choice = false;          // mixes that compete for the preferences of the selection
};
inline Elem GenElem(Rng& r, const GenOpt& o, int budget) {
  Elem el;
  auto& e = el.e;
  e.res = r.Chance(1, 4) ? r.U8() & 31 : 0;
  for (;;) {
    el = Elem(); 
    auto& q = el.e;
    int kind = static_cast<int>(r.Below(o.identity ? 2 : 4));
    if (o.lossy && kind == 2) kind = 0;
    if (o.scalable_only) kind = 2;
    if (kind <= 1 || budget <= 1) {  // one layer
      q.type = 0;
      Layer l;
      if (o.enhanced && r.Chance(1, 4)) { l.layout = 15; l.expanded = static_cast<uint8_t>(r.Below(o.expanded_all ? 20 : 13)); }
      else l.layout = static_cast<uint8_t>(r.Chance(o.choice ? 4 : 1, 6) ? r.Pick<int>({1, 1, 9}) : static_cast<int>(r.Below(10)));
      el.subs = LayoutSubs(l.layout, l.layout == 15 ? l.expanded : -1);
      l.sub = static_cast<uint8_t>(el.subs.size()); l.coupled = 0;
      for (auto& s : el.subs) l.coupled += s.size() == 2;
      q.layers = {l};
    } else if (kind == 2) {
      q.type = 0; el.scalable = true;
      std::vector<int> ls;
      int cur = static_cast<int>(r.Below(9));
      ls.push_back(cur);
      for (int i = 0; i < 5; ++i) { int nx = static_cast<int>(r.Below(9)); if (LayersNest(ls.back(), nx)) ls.push_back(nx); }
      if (ls.size() < 2) continue;
      for (size_t i = 0; i < ls.size(); ++i) {
        auto add = i == 0 ? LayoutSubs(ls[0]) : LayerAdds(ls[i - 1], ls[i]);
        Layer l; l.layout = static_cast<uint8_t>(ls[i]); l.sub = static_cast<uint8_t>(add.size()); l.coupled = 0;
        for (auto& s : add) l.coupled += s.size() == 2;
        q.layers.push_back(l);
        el.subs.insert(el.subs.end(), add.begin(), add.end());
      }
    } else {
      int n = static_cast<int>(r.Range(0, 4));
      if ((n + 1) * (n + 1) > budget) n = static_cast<int>(r.Range(0, 3));
      int C = (n + 1) * (n + 1);
      q.type = 1; q.C = static_cast<uint8_t>(C);
      if (r.Bool()) {
        q.amb_mode = 0; q.N = static_cast<uint8_t>(r.Chance(2, 3) ? C : r.Range(1, C)); q.mapping.assign(C, 255);
        std::vector<uint8_t> m; for (int i = 0; i < q.N; ++i) m.push_back(static_cast<uint8_t>(i)); for (int i = q.N; i < C; ++i) m.push_back(255);
        r.Shuffle(m); q.mapping = m;
        for (int i = 0; i < q.N; ++i) el.subs.push_back({"s" + std::to_string(i) + ".0"});
      } else {
        q.amb_mode = 1;
        int total = static_cast<int>(r.Range(1, C)), M = static_cast<int>(r.Range(0, total / 2));
        q.N = static_cast<uint8_t>(total - M); q.M = static_cast<uint8_t>(M);
        for (int i = 0; i < total * C; ++i) q.matrix.push_back(r.Chance(1, 4) ? static_cast<int16_t>(0) : GenS16(r));
        for (int i = 0; i < q.N; ++i) { Names s{"s" + std::to_string(i) + ".0"}; if (i < M) s.push_back("s" + std::to_string(i) + ".1"); el.subs.push_back(s); }
      }
    }
    if (el.Channels() > budget) continue;
    if (o.output_gains && q.type == 0) for (auto& l : q.layers) if (l.layout != 15 && r.Chance(1, 2)) {
      l.og = true; l.og_flags = static_cast<uint8_t>(r.Chance(1, 3) ? 63 : r.Below(64));
      l.gain = static_cast<int16_t>(r.Chance(1, 6) ? 0 : r.Chance(1, 8) ? r.Range(-32768, 32767) : r.Range(-24 * 256, 12 * 256));
    }
    q.num_params.reset();
    return el;
  }
}
inline int32_t GenSample(Rng& r, int kind, int bits) {
  int64_t lo = -(int64_t{1} << (bits - 1)), hi = -lo - 1;
  switch (kind) {
    case 0: return static_cast<int32_t>(r.Range(lo, hi));
    case 1: return 0;
    case 2: return static_cast<int32_t>(r.Bool() ? lo : hi);
    case 3: return static_cast<int32_t>(r.Range(lo / 64, hi / 64));
    default: return static_cast<int32_t>(r.Range(-3, 3));
  }
}
inline PData GenMixData(Rng& r) {
  PData d;
  d.anim = r.Below(3);
  auto g = [&] { return static_cast<int16_t>(r.Chance(1, 4) ? 0 : r.Range(-20 * 256, 6 * 256)); };
  d.a = g(); d.b = g(); d.c = g(); d.t = r.U8();
  return d;
}
// A schedule that covers exactly `n` ticks.
inline Sched GenCover(Rng& r, uint32_t n) {
  Sched s;
  s.dur = n;
  int k = static_cast<int>(r.Below(3));
  if (k == 0) s.csd = n;
  else if (k == 1) s.csd = static_cast<uint32_t>(r.Range(1, n));
  else { uint32_t left = n; while (left) { uint32_t d = static_cast<uint32_t>(r.Chance(1, 3) ? left : r.Range(1, left)); s.subs.push_back(d); left -= d; } }
  return s;
}

inline void EncodeStream(Rng& r, Stream& st, const Lp& lp);
inline Stream GenStream(Rng& r, const GenOpt& o = {}) {
  Stream st;
  st.codec = GenCodec(r, kLpcm);
  st.codec.roll = 0;
  st.codec.nsamples = static_cast<uint32_t>(r.Chance(1, 8) ? r.Range(1, 2) : r.Range(1, o.max_frame));
  if (o.codec) st.codec = *o.codec;
  int profile = static_cast<int>(r.Below(o.enhanced ? 3 : 2));
  int max_e = profile == 0 || o.identity ? 1 : profile == 1 ? 2 : o.max_elems;
  int max_ch = profile == 0 ? 16 : profile == 1 ? 18 : 28;
  GenOpt eo = o; eo.enhanced = profile == 2;
  st.primary = static_cast<uint8_t>(profile); st.additional = static_cast<uint8_t>(r.Range(profile, 2));
  int ne = static_cast<int>(r.Range(1, o.identity ? 1 : 4));
  std::set<uint32_t> ids, subids, pids;
  auto fresh = [&](std::set<uint32_t>& s, uint32_t small) { for (;;) { uint32_t v = r.Chance(1, 6) ? r.Edge32() : static_cast<uint32_t>(r.Below(small)); if (s.insert(v).second) return v; } };
  for (int i = 0; i < ne; ++i) {
    Elem el = GenElem(r, eo, max_ch);
    el.e.id = fresh(ids, 50); el.e.codec = st.codec.id;
    for (size_t k = 0; k < el.subs.size(); ++k) el.e.subs.push_back(fresh(subids, 60));
    st.elems.push_back(el);
  }
  // Demixing definitions: only the defaults they carry matter here.
  for (auto& el : st.elems) if (el.e.type == 0 && r.Chance(el.scalable ? 1 : 1, el.scalable ? 2 : 5)) {
    Pd p; p.type = 1; p.id = fresh(pids, 100); p.rate = st.codec.lpcm.rate; p.mode1 = false; p.s.dur = p.s.csd = st.codec.nsamples;
    p.dmode = r.Pick<uint8_t>({0, 1, 2, 4, 5, 6}); p.dw = r.Below(11);
    el.e.params.push_back(p);
  }
  if (o.recon) for (auto& el : st.elems) if (el.scalable && el.e.layers.size() > 1 && r.Chance(2, 3)) {
    Pd p; p.type = 2; p.id = fresh(pids, 100); p.rate = st.codec.lpcm.rate; p.mode1 = false; p.s.dur = p.s.csd = st.codec.nsamples;
    el.e.params.push_back(p);
    if (r.Bool()) std::swap(el.e.params.front(), el.e.params.back());
    for (size_t k = r.Chance(1, 6) ? 0 : 1; k < el.e.layers.size(); ++k) el.e.layers[k].rg = !r.Chance(1, 6);
  }
  // Definitions of a reserved type are to be ignored.
  if (o.recon) for (auto& el : st.elems) if (r.Chance(1, 6)) {
    Pd p; p.type = r.Chance(1, 3) ? r.Pick<uint32_t>({3, 127, 128, 0xffffffffu}) : static_cast<uint32_t>(r.Range(3, 300)); p.ext = r.Bytes(r.Below(20));
    el.e.params.insert(el.e.params.begin() + static_cast<long>(r.Below(el.e.params.size() + 1)), p);
  }
  int nm = static_cast<int>(r.Range(1, o.max_mixes));
  std::set<uint32_t> mixids;
  std::vector<Pd> gainpds;
  auto gainpd = [&] {
    // One parameter may be used in several places.
    if (o.recon && !gainpds.empty() && r.Chance(1, 6)) return r.Pick(gainpds);
    Pd p; p.type = 0; p.id = fresh(pids, 100); p.rate = st.codec.lpcm.rate;
    p.mode1 = r.Bool();
    if (!p.mode1) p.s = GenCover(r, st.codec.nsamples);
    p.mix = static_cast<int16_t>(!o.gains || r.Chance(1, 2) ? 0 : r.Range(-24 * 256, 6 * 256));
    gainpds.push_back(p);
    return p;
  };
  for (int i = 0; i < nm; ++i) {
    Mix m;
    m.id = fresh(mixids, 50);
    SubMix s;
    std::vector<size_t> order; for (size_t k = 0; k < st.elems.size(); ++k) order.push_back(k);
    r.Shuffle(order);
    int ch = 0;
    for (size_t k : order) {
      if (static_cast<int>(s.el.size()) >= max_e) break;
      if (ch + st.elems[k].Channels() > max_ch) continue;
      if (!s.el.empty() && r.Chance(1, 3)) continue;
      MixElement e; e.id = st.elems[k].e.id; e.gain = gainpd(); e.rc.mode = r.Below(2);
      ch += st.elems[k].Channels();
      s.el.push_back(e);
    }
    s.out = gainpd();
    auto lay = [&](int ss) { MixLayout l; if (ss < 0) { l.type = 3; } else { l.type = 2; l.ss = static_cast<uint8_t>(ss); } if (r.Chance(1, 4)) l.res = static_cast<uint8_t>(r.Range(1, ss < 0 ? 63 : 3)); l.il = GenS16(r); l.dp = GenS16(r); return l; };
    bool stereo = false;
    // Mixes made for one kind of listening take part in the preferences among mixes.
    bool special = !o.identity && r.Chance(o.choice ? 3 : 1, 4);
    if (special) {
      std::vector<size_t> fit;
      for (size_t k : order) { auto& el = st.elems[k]; if (el.e.type == 0 && (el.e.layers.back().layout == 1 || el.e.layers.back().layout == 9) && el.Channels() <= max_ch) fit.push_back(k); }
      if (fit.empty()) special = false;
      else { s.el.resize(1); s.el[0].id = st.elems[fit[0]].e.id; s.layouts.push_back(lay(0)); if (r.Chance(1, 6)) s.layouts.push_back(lay(r.Bool() ? -1 : 0)); stereo = true; }
    }
    int nl = special ? 0 : static_cast<int>(r.Range(1, 3));
    for (int k = 0; k < nl; ++k) {
      int ss = r.Chance(1, 8) ? -1 : static_cast<int>(r.Below(14));
      if (o.identity && k == 0) { auto& t = st.elems[0].e.layers[0]; ss = t.layout == 9 ? 0 : LayoutSs(t.layout, t.layout == 15 ? t.expanded : -1); }
      s.layouts.push_back(lay(ss)); stereo |= ss == 0;
    }
    if (!stereo) s.layouts.insert(s.layouts.begin() + (o.identity ? s.layouts.size() : r.Below(s.layouts.size() + 1)), lay(0));
    m.sm = {s};
    st.mixes.push_back(m);
  }
  // Audio.
  st.redundant = o.redundant;
  st.delimiters = r.Chance(1, 3);
  int nt = static_cast<int>(r.Range(0, o.max_tus));
  const uint32_t N = st.codec.nsamples;
  bool started = false;
  // Blocks of a parameter follow each other without a gap from the first unit.
  std::vector<std::pair<Pd, int>> active;
  if (o.gains) for (auto& m : st.mixes) {
    auto maybe = [&](const Pd& d) { for (auto& a : active) if (a.first.id == d.id) return; if (r.Chance(1, 2)) active.push_back({d, static_cast<int>(r.Chance(2, 3) ? nt : r.Range(0, nt))}); };
    for (auto& e : m.sm[0].el) maybe(e.gain);
    maybe(m.sm[0].out);
  }
  std::vector<std::pair<const Elem*, int>> recon;
  for (auto& el : st.elems) for (auto& p : el.e.params) if (p.type == 2) recon.push_back({&el, static_cast<int>(r.Chance(2, 3) ? nt : r.Range(0, nt))});
  for (int t = 0; t < nt; ++t) {
    Tu u;
    u.ticks = N;
    bool last = t + 1 == nt;
    if (o.trims && !started && r.Chance(1, 3)) {
      u.trim_start = static_cast<uint32_t>(r.Chance(1, 3) ? N : r.Range(0, N));
      if (u.trim_start < N) started = true;
    } else started = true;
    if (o.trims && last && r.Chance(1, 2)) u.trim_end = static_cast<uint32_t>(r.Chance(1, 8) ? N - u.trim_start : r.Range(0, N - u.trim_start));
    u.trim_flag = u.trim_start || u.trim_end || r.Chance(1, 6);
    for (auto& el : st.elems) for (auto& s : el.subs) {
      std::vector<std::vector<int32_t>> ch(s.size());
      int kind = static_cast<int>(r.Below(5));
      Bytes b;
      for (auto& c : ch) for (uint32_t i = 0; i < N; ++i) c.push_back(GenSample(r, r.Chance(1, 10) ? 2 : kind, st.codec.lpcm.size));
      int nb = st.codec.lpcm.size / 8;
      for (uint32_t i = 0; i < N; ++i) for (auto& c : ch) for (int k = 0; k < nb; ++k) {
        int sh = (st.codec.lpcm.flags & 1) ? 8 * k : 8 * (nb - 1 - k);
        b.push_back(static_cast<uint8_t>(static_cast<uint32_t>(c[i]) >> sh));
      }
      u.payload.push_back(b); u.pcm.push_back(ch);
    }
    for (auto& [d, until] : active) {
      if (t >= until) continue;
      PBlock b; b.def = d; b.s = d.mode1 ? GenCover(r, N) : d.s;
      for (uint32_t k = 0; k < b.s.Count(); ++k) b.data.push_back(GenMixData(r));
      // The curve of a frame cut at its start is left out: constant there.
      if (u.trim_start) for (auto& x : b.data) { x.anim = 0; x.a = b.data[0].a; }
      u.blocks.push_back(b);
    }
    for (auto& [el, until] : recon) for (auto& p : el->e.params) if (p.type == 2 && t < until) {
      PBlock b; b.def = p; b.s = p.s; b.data.assign(1, {});
      for (auto& l : el->e.layers) {
        b.recon_flags.push_back(l.rg);
        if (!l.rg) { b.data[0].recon.push_back(std::nullopt); continue; }
        Recon x; x.flags = r.Chance(1, 4) ? r.Pick<uint32_t>({0, 0xfff, 0x800, 0x7f, 0x80}) : static_cast<uint32_t>(r.Below(4096));
        for (auto& g : x.g) g = 255;
        b.data[0].recon.push_back(x);
      }
      u.blocks.push_back(b);
    }
    r.Shuffle(u.blocks);
    st.tus.push_back(u);
  }
  Lp lp{r.Chance(1, 3) ? -1 : 0, &r};
  EncodeStream(r, st, lp);
  return st;
}
inline void EncodeStream(Rng& r, Stream& st, const Lp& lp) {
  auto put = [&](Bytes& out, int type, const Bytes& payload, bool redundant = false) {
    Hdr h; h.type = type; h.redundant = redundant;
    if (r.Chance(1, 12)) { h.ext = true; h.ext_bytes = r.Bytes(r.Below(6)); }
    Bytes b = EncodeObu(h, payload, lp); out.insert(out.end(), b.begin(), b.end());
  };
  st.descriptors.clear(); st.tu_bytes.clear();
  Bits ia; ia.Put(0x69616d66, 32); ia.Put(st.primary, 8); ia.Put(st.additional, 8);
  put(st.descriptors, 31, ia.Bytes());
  put(st.descriptors, 0, EncodeCodec(st.codec, lp));
  for (auto& c : st.more_codecs) put(st.descriptors, 0, EncodeCodec(c, lp));
  for (auto& e : st.elems) put(st.descriptors, 1, EncodeElement(e.e, lp));
  for (auto& m : st.mixes) put(st.descriptors, 2, EncodeMix(m, lp));
  if (r.Chance(1, 8)) put(st.descriptors, 24 + static_cast<int>(r.Below(5)), r.Bytes(r.Below(20)));
  for (auto& u : st.tus) {
    Bytes b;
    if (st.redundant && &u != &st.tus[0] && r.Chance(1, 10)) {
      put(b, 31, ia.Bytes(), true);
      if (r.Bool()) { put(b, 0, EncodeCodec(st.codec, lp), true); for (auto& e : st.elems) put(b, 1, EncodeElement(e.e, lp), true); for (auto& m : st.mixes) put(b, 2, EncodeMix(m, lp), true); }
    }
    if (st.delimiters) { Bytes x = EncodeObu(Hdr{4}, {}, lp); b.insert(b.end(), x.begin(), x.end()); }
    for (auto& p : u.blocks) { Bytes x = EncodeObu(Hdr{3}, EncodePBlock(p, lp), lp); b.insert(b.end(), x.begin(), x.end()); }
    std::vector<size_t> order; for (size_t k = 0; k < u.payload.size(); ++k) order.push_back(k);
    if (r.Chance(1, 3)) r.Shuffle(order);
    std::vector<uint32_t> ids; for (auto& e : st.elems) ids.insert(ids.end(), e.e.subs.begin(), e.e.subs.end());
    for (size_t k : order) { Bytes x = FrameObu(r, ids[k], u.payload[k], u.trim_flag, u.trim_end, u.trim_start, lp); b.insert(b.end(), x.begin(), x.end()); if (r.Chance(1, 40)) put(b, 24 + static_cast<int>(r.Below(5)), r.Bytes(r.Below(20))); }
    st.tu_bytes.push_back(b);
  }
}

// ---- selection and rendering ----
// A layout request as the API numbers it: 0..13 sound systems, 14 binaural.
struct Request { std::optional<uint32_t> mix; std::optional<int> layout; };
struct Selected { size_t mix = 0; int ss = 0;  const char* tier = "first"; };  // ss -1 binaural
inline int LayoutSsOf(const MixLayout& l) { return l.type == 3 ? -1 : l.type == 2 ? l.ss : -2; }
inline Selected Select(const Stream& st, const Request& q) {
  Selected s;
  std::optional<size_t> found;
  auto first = [&](auto&& f) { for (size_t i = 0; i < st.mixes.size(); ++i) if (f(st.mixes[i])) return std::optional<size_t>(i); return std::optional<size_t>(); };
  auto only = [&](const Mix& m, int layout) { auto& sm = m.sm[0]; if (sm.el.size() != 1) return false; auto& e = st.ById(sm.el[0].id); return e.e.type == 0 && e.e.layers.back().layout == layout; };
  std::optional<int> want;
  if (q.layout) want = *q.layout == kBinaural ? -1 : *q.layout;
  if (q.mix) { found = first([&](const Mix& m) { return m.id == *q.mix; }); if (found) s.tier = "id"; }
  if (!found && want) {
    auto contains = [&](const Mix& m) { for (auto& l : m.sm[0].layouts) if (LayoutSsOf(l) == *want) return true; return false; };
    if (*want == -1) { s.tier = "binaural-element"; found = first([&](const Mix& m) { return only(m, 9); }); if (!found) { s.tier = "binaural-layout"; found = first(contains); } }
    else if (*want == 0) {
      auto st1 = [&](const Mix& m) { return m.sm[0].layouts.size() == 1 && LayoutSsOf(m.sm[0].layouts[0]) == 0 && only(m, 1); };
      s.tier = "stereo-headphones"; found = first([&](const Mix& m) { return st1(m) && m.sm[0].el[0].rc.mode == 0; });
      if (!found) { s.tier = "stereo"; found = first(st1); }
    } else { s.tier = "layout"; found = first(contains); }
    if (!found) s.tier = "first";
  }
  s.mix = found.value_or(0);
  s.ss = want ? *want : LayoutSsOf(st.mixes[s.mix].sm[0].layouts[0]);
  return s;
}
inline bool Renderable(const Stream& st, const Selected& s) {
  for (auto& e : st.mixes[s.mix].sm[0].el) if (!PathFor(st.ById(e.id), s.ss, e.rc.mode, st.codec.nsamples).ok) return false;
  return true;
}
inline DemixParams DemixOf(const Elem& el) {
  for (auto& p : el.e.params) if (p.type == 1) { auto d = DemixByMode(p.dmode, p.dw); return d; }
  return DemixParams();
}
// When a height-bearing element plays on a layout without height, the spec's
// dynamic matrix does not apply; else some pairs have gains from demixing info.
inline bool DynamicGains(const Elem& el, int ss, const DemixParams& p, Mat& g) {
  auto& top = el.e.layers.back();
  if (!p.in_bitstream || LayoutKey(top.layout, top.layout == 15 ? top.expanded : -1) != "4+7+0") return false;
  if (ss == 11) {
    g.assign(12, std::vector<double>(6, 0.0));
    for (int k = 0; k < 2; ++k) {
      g[k][k] = 1; g[4 + k][k] = p.a * p.d; g[4 + k][4 + k] = p.a * p.w * p.d; g[6 + k][k] = p.b * p.d; g[6 + k][4 + k] = p.b * p.w * p.d; g[8 + k][4 + k] = 1; g[10 + k][4 + k] = p.g;
    }
    g[2][2] = 1; g[3][3] = 1;
    return true;
  }
  if (ss == 10) {
    g.assign(12, std::vector<double>(10, 0.0));
    for (int k = 0; k < 10; ++k) g[k][k] = 1;
    g[10][8] = p.g; g[11][9] = p.g;
    return true;
  }
  return false;
}
// What the temporal unit `t` must sound like: [channel][tick] in full-scale units.
// err, when given, receives the rounding error a single-precision gain may cause.
// demix_blocks: whether the unit's own demixing parameters apply.
inline Mat RenderTu(const Stream& st, const Selected& sel, size_t t, bool trim_start, bool trim_end, bool* exact = nullptr, Mat* err = nullptr, bool demix_blocks = true) {
  const Tu& u = st.tus[t];
  uint32_t b = trim_start ? u.trim_start : 0, e = u.ticks - (trim_end ? u.trim_end : 0);
  size_t n = e - b;
  const SubMix& sm = st.mixes[sel.mix].sm[0];
  int nch = sel.ss < 0 ? 2 : SsChannels(sel.ss);
  Mat out(nch, std::vector<double>(n, 0.0));
  Mat mag = out, et = out;
  if (exact) *exact = sm.el.size() == 1;
  auto gains = [&](const Pd& d) {
    double df = std::pow(10.0, d.mix / 256.0 / 20);
    if (exact && d.mix != 0) *exact = false;
    for (auto& blk : u.blocks) if (blk.def.id == d.id) { if (exact) *exact = false; return BlockGains(blk.s, blk.data, n, df); }
    return std::vector<Gain>(n, {df, 4e-6});
  };
  for (auto& me : sm.el) {
    const Elem& el = st.ById(me.id);
    size_t flat = st.FlatOf(me.id);
    Labels x;
    std::vector<const Layer*> layer(el.subs.size(), nullptr);
    if (!el.Ambisonics()) { size_t at = 0; for (auto& l : el.e.layers) for (int q = 0; q < l.sub; ++q) layer[at++] = &l; }
    for (size_t s = 0; s < el.subs.size(); ++s) for (size_t c = 0; c < el.subs[s].size(); ++c) {
      double og = 1;
      if (layer[s] && layer[s]->og && (layer[s]->og_flags & GainBit(el.subs[s][c])) && layer[s]->gain != 0) { og = std::pow(10.0, layer[s]->gain / 256.0 / 20); if (exact) *exact = false; }
      std::vector<double> v;
      for (uint32_t i = b; i < e; ++i) v.push_back(og * std::ldexp(static_cast<double>(u.pcm[flat + s][c][i]), 1 - st.codec.lpcm.size));
      x[el.subs[s][c]] = v;
    }
    auto dp = DemixOf(el);
    if (auto db = u.demix.find(el.e.id); demix_blocks && db != u.demix.end()) dp = db->second;
    if (el.scalable) Demix(x, el, dp);
    Path p = PathFor(el, sel.ss, me.rc.mode, st.codec.nsamples);
    Mat dyn;
    if (p.ok && !p.exact && !p.obr && !el.Ambisonics() && el.e.type == 0 && DynamicGains(el, sel.ss < 0 ? 0 : sel.ss, dp, dyn)) p.g = dyn;
    if (exact && (!p.exact || el.scalable)) *exact = false;
    auto g = gains(me.gain);
    for (size_t i = 0; i < p.in.size(); ++i) {
      if (p.in[i].empty()) continue;
      auto it = x.find(p.in[i]);
      if (it == x.end()) vlib::HarnessBug("label " + p.in[i] + " in element of layout " + std::to_string(el.e.layers.empty() ? -1 : el.e.layers.back().layout));
      for (int k = 0; k < nch; ++k) { double q = p.g[i][k], ge = p.gerr[i];  for (size_t a = 0; a < n; ++a) { double y = q * it->second[a] * g[a].v; out[k][a] += y; mag[k][a] += std::fabs(y); et[k][a] += std::fabs(y) * g[a].tol + std::fabs(it->second[a]) * g[a].v * ge; } }
    }
  }
  auto g = gains(sm.out);
  for (int k = 0; k < nch; ++k) for (size_t a = 0; a < n; ++a) { out[k][a] *= g[a].v; et[k][a] = (et[k][a] + mag[k][a] * g[a].tol) * g[a].v; }
  if (err) *err = et;
  return out;
}
inline std::vector<int> AndroidOrder(int ss) {
  std::vector<int> o; for (int i = 0; i < (ss < 0 ? 2 : SsChannels(ss)); ++i) o.push_back(i);
  switch (ss) {
    case 8: case 9: case 10: std::swap(o[4], o[6]); std::swap(o[5], o[7]); break;
    case 5: o = {1, 2, 0, 10, 7, 8, 5, 6, 9, 3, 4, 11}; break;
    case 6: o = {0, 1, 2, 3, 6, 7, 12, 13, 4, 5, 8, 9, 10, 11}; break;
    case 7: o = {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 15, 12, 14, 13, 16, 20, 17, 18, 19, 22, 21, 23, 9}; break;
  }
  return o;
}
}  // namespace ref
#endif
