// C34: recon gains computed from original and reconstructed samples, and what the encoder accepts and writes,
// against a model of the documented level ratios.
#include <cmath>
#include "harness/encwork.h"
#include "iamf/cli/recon_gain_generator.h"
using namespace vlib;
using ref::Bytes;
namespace {
double Level(const std::vector<double>& v) { long double s = 0; for (double x : v) s += static_cast<long double>(x) * x; return static_cast<double>(sqrtl(s / v.size())); }
// The channel of the lower layer a reconstructed channel is part of.
const char* MixedOf(const std::string& l) {
  static const std::map<std::string, const char*> m{{"L7", "L5"}, {"R7", "R5"}, {"Lrs7", "Ls5"}, {"Rrs7", "Rs5"}, {"Ltb4", "Ltf2"}, {"Rtb4", "Rtf2"}, {"L5", "L3"}, {"R5", "R3"},
                                                  {"Ls5", "L3"}, {"Rs5", "R3"}, {"Ltf2", "Ltf3"}, {"Rtf2", "Rtf3"}, {"L3", "L2"}, {"R3", "R2"}, {"R2", "Mono"}};
  auto i = m.find(l); return i == m.end() ? nullptr : i->second;
}
int BitOf(const std::string& l) {
  if (l == "L7" || l == "L5" || l == "L3") return 0;
  if (l == "R7" || l == "R5" || l == "R3" || l == "R2") return 2;
  if (l == "Ls5") return 3;
  if (l == "Rs5") return 4;
  if (l == "Ltf2") return 5;
  if (l == "Rtf2") return 6;
  if (l == "Lrs7") return 7;
  if (l == "Rrs7") return 8;
  if (l == "Ltb4") return 9;
  return 10;
}
// Which case of the rule applies: 0 silent, 1 loud enough, 2 computed; -1 too close to a threshold to say.
int Rule(double ok, double mk) {
  auto db = [](double x) { return 10 * std::log10(x); };
  double a = db(ok) + 80;
  if (std::abs(a) < 1e-9) return -1;
  if (a < 0) return 0;
  double b = db(ok / mk) + 6;
  if (std::abs(b) < 1e-9) return -1;
  return b >= 0 ? 1 : 2;
}
std::vector<double> Noise(Rng& r, size_t n, double level) {
  std::vector<double> v(n);
  int kind = static_cast<int>(r.Below(4));
  for (size_t i = 0; i < n; ++i) switch (kind) {
    case 0: v[i] = level * r.Real(-1, 1); break;
    case 1: v[i] = level; break;
    case 2: v[i] = r.Chance(1, 10) ? level * r.Real(-3, 3) : 0; break;
    default: v[i] = level * std::sin(0.1 * static_cast<double>(i)); break;
  }
  return v;
}
double GenLevel(Rng& r) {
  switch (r.Below(10)) {
    case 0: return 0;
    case 1: return std::pow(10.0, -8.0 + r.Real(-0.05, 0.05));  // around -80
    case 2: return 4 * r.Unit();
    default: return std::pow(10.0, -r.Real(0, 10));
  }
}

void Direct(Ctx& c) {
  Rng& r = c.rng;
  static const char* kAll[] = {"L7", "R7", "Lrs7", "Rrs7", "Ltb4", "Rtb4", "L5", "R5", "Ls5", "Rs5", "Ltf2", "Rtf2", "L3", "R3", "R2"};
  std::string l = kAll[r.Below(15)], m = MixedOf(l);
  size_t n = static_cast<size_t>(r.Chance(1, 8) ? 1 : r.Range(1, r.Chance(1, 8) ? 3000 : 64));
  double lo = GenLevel(r), lm = r.Chance(1, 2) ? lo * std::pow(10.0, r.Real(-1, 1.5)) : GenLevel(r), ld = r.Chance(1, 2) ? lo * std::pow(10.0, r.Real(-1, 1)) : GenLevel(r);
  if (r.Chance(1, 6)) lm = lo * std::pow(10.0, 0.6 + r.Real(-0.02, 0.02));
  auto ok = Noise(r, n, lo), mk = Noise(r, n, lm), dk = Noise(r, n, ld);
  if (r.Chance(1, 10)) dk = ok;
  bool has_o = !r.Chance(1, 20), has_m = !r.Chance(1, 20), has_d = !r.Chance(1, 20);
  iamf_tools::LabelSamplesMap orig, dec;
  auto put = [&](iamf_tools::LabelSamplesMap& x, const std::string& name, const std::vector<double>& v) { x[ref::LabelOf(name)] = v; };
  // Other channels must not matter.
  for (const char* q : {"C", "LFE", "Lss7", "Ltf4", "Mono", "L2", "Ltf3"}) if (m != q && r.Bool()) { put(orig, q, Noise(r, n, GenLevel(r))); put(dec, q, Noise(r, n, GenLevel(r))); }
  for (const char* q : kAll) if (l != q && m != q && r.Chance(1, 3)) { put(orig, std::string("D:") + q, Noise(r, n, GenLevel(r))); put(dec, std::string("D:") + q, Noise(r, n, GenLevel(r))); }
  if (has_o) put(orig, "D:" + l, ok);
  const bool can_demix = MixedOf(m) != nullptr;
  if (has_m) {
    bool as_demixed = can_demix && r.Bool();
    put(orig, as_demixed ? "D:" + m : m, mk);
    if (!as_demixed && can_demix && r.Chance(1, 4)) put(orig, "D:" + m, Noise(r, n, 1));  // the transmitted channel wins
  }
  if (r.Bool()) put(dec, m, Noise(r, n, GenLevel(r)));  // the mixed level is the original's
  if (has_d) put(dec, "D:" + l, dk);
  double got = -7;
  c.Eval();
  auto s = iamf_tools::ReconGainGenerator::ComputeReconGain(ref::LabelOf("D:" + l), orig, dec, r.Chance(1, 4), got);
  double a = Level(ok), b = Level(mk), d = Level(dk);
  std::ostringstream t; t.precision(17);
  t << l << " n=" << n << " original " << a << " mixed " << b << " reconstructed " << d << " present " << has_o << has_m << has_d << " status " << s.ToString() << " gain " << got;
  if (!has_o) { V_CHECK(c, !s.ok(), "missing-original", t.str()); c.Count("missing"); return; }
  // Without a mixed channel only silence can be decided.
  int rule = Rule(a, b);
  if (rule < 0) { c.Count("ambiguous"); return; }
  if (rule == 0) { V_CHECK(c, s.ok() && got == 0, "silent", t.str()); c.Count("silent"); c.Distinct(Mix(HashStr(l))); return; }
  if (!has_m) { V_CHECK(c, !s.ok(), "missing-mixed", t.str()); c.Count("missing"); return; }
  if (rule == 1) { V_CHECK(c, s.ok() && got == 1, "loud", t.str()); c.Count("loud"); c.Distinct(Mix(HashStr(l) + 1)); return; }
  if (!has_d) { V_CHECK(c, !s.ok(), "missing-reconstructed", t.str()); c.Count("missing"); return; }
  V_CHECK(c, s.ok(), "computed-status", t.str());
  if (d == 0) { V_CHECK(c, got >= 1, "computed-zero", t.str()); c.Count("zero-reconstruction"); return; }
  double want = std::sqrt(a / d);
  V_CHECK(c, std::abs(std::min(got, 1.0) - std::min(want, 1.0)) <= 1e-9, "computed", t.str() + " want " + std::to_string(want));
  c.Count(want >= 1 ? "computed-clamped" : "computed");
  c.Distinct(Mix(HashStr(l) + 2 + (static_cast<uint64_t>(std::min(want, 1.0) * 255) << 8)));
}

// Channels reconstructed when going from one layer to the next.
std::vector<std::string> Demixed(int from, int to) {
  int s0, l0, h0, s1, l1, h1;
  ref::LayoutNumbers(from, s0, l0, h0); ref::LayoutNumbers(to, s1, l1, h1);
  std::vector<std::string> v;
  auto add = [&](const char* a, const char* b) { v.push_back(a); v.push_back(b); };
  if (s0 == 1 && s1 >= 2) v.push_back("R2");
  if (s0 < 3 && s1 >= 3) add("L3", "R3");
  if (s0 < 5 && s1 >= 5) add("Ls5", "Rs5");
  if (s0 < 7 && s1 >= 7) { add("L7", "R7"); add("Lrs7", "Rrs7"); }
  if (h0 == 2 && h1 == 4) add("Ltb4", "Rtb4");
  else if (h0 == 2 && h1 == 2 && s0 == 3 && s1 > 3) add("Ltf2", "Rtf2");
  return v;
}

void Encode(Ctx& c) {
  Rng& r = c.rng;
  enc::JobOpt o; o.lossy_scalable = true; o.bad_trims = false; o.rich = r.Chance(1, 2); o.multi_codec = false;
  auto j = enc::GenJob(r, o);
  // A layer may need no gain although it must have some.
  bool wrong_flag = false;
  bool scalable = false;
  for (auto& el : j.st.elems) if (el.scalable) {
    scalable = true;
    for (size_t q = 0; q < el.e.layers.size(); ++q) {
      bool need = q && !Demixed(el.e.layers[q - 1].layout, el.e.layers[q].layout).empty();
      el.e.layers[q].rg = q > 0;  // lossy codecs: every layer above the first
      if (!need && q) wrong_flag = true;
    }
  }
  if (!scalable) return;
  for (auto& x : j.in) for (auto& [l, v] : x) if (r.Chance(2, 3)) { double g = r.Chance(1, 10) ? 0 : std::pow(10.0, -r.Real(0, r.Chance(1, 4) ? 9 : 2)); for (auto& y : v) y *= g; }
  auto recon_blocks = [&](enc::Job& q, auto&& fill) {
    for (size_t k = 0; k < q.blocks.size(); ++k) for (auto& b : q.blocks[k]) if (b.def.type == 2) {
      const ref::Elem* el = nullptr;
      for (auto& e : q.st.elems) for (auto& p : e.e.params) if (p.type == 2 && p.id == b.def.id) el = &e;
      if (!el) HarnessBug("recon block");
      b.recon_flags.clear(); b.data.assign(1, {});
      for (size_t y = 0; y < el->e.layers.size(); ++y) {
        b.recon_flags.push_back(el->e.layers[y].rg);
        if (!el->e.layers[y].rg) b.data[0].recon.push_back(std::nullopt);
        else { ref::Recon g; fill(k, *el, y, g); b.data[0].recon.push_back(g); }
      }
    }
  };
  recon_blocks(j, [&](size_t, const ref::Elem&, size_t, ref::Recon& g) { g.flags = 0; });
  auto w = enc::Expect(j);
  if (!w.ok) { c.Count("unusable"); return; }
  c.Eval();
  auto run = [&](const enc::Job& q, bool override_gains) {
    auto u = enc::Metadata(q);
    u.mutable_test_vector_metadata()->set_override_computed_recon_gains(override_gains);
    auto e = enc::MakeEncoder(u);
    if (!e.ok()) { enc::Encoded x; x.status = e.status(); x.where = "create"; return x; }
    return enc::Run(**e, q, w.frames);
  };
  std::ostringstream t;
  t << "codec " << std::hex << j.st.codec.fourcc << std::dec << " n=" << j.N() << " S=" << j.S;
  for (auto& el : j.st.elems) { t << " {" << el.e.id << ":"; for (auto& y : el.e.layers) t << " " << int(y.layout) << (y.rg ? "r" : "") << (y.og ? "g" : ""); t << "}"; }
  auto first = run(j, true);
  V_CHECK(c, first.status.ok(), "override", t.str() + " " + first.where + " " + first.status.ToString());
  V_CHECK(c, first.tus.size() == w.f.size(), "units", t.str());
  // Original and decoded samples of every frame, and the gains that follow.
  std::map<std::pair<size_t, const ref::Element*>, std::pair<ref::Labels, ref::Labels>> sig;
  bool sure = true, big = false;
  auto gains = [&](size_t k, const ref::Elem& el, size_t layer, ref::Recon& g) {
    auto& [orig, dec] = sig[{k, &el.e}];
    g.flags = 0;
    if (!layer) return;
    for (auto& l : Demixed(el.e.layers[layer - 1].layout, el.e.layers[layer].layout)) {
      double a = Level(orig.at(l)), b = Level(orig.at(MixedOf(l))), d = Level(dec.at(l));
      int rule = Rule(a, b);
      if (rule < 0) sure = false;
      // Close to nothing: rounding of the reconstruction decides.
      if (a < 1e-12 && a > 0) sure = sure && 10 * std::log10(a) < -81;
      if (rule != 0 && b < 1e-12) sure = false;
      double v = rule == 0 ? 0 : rule == 1 ? 1 : std::min(1.0, std::sqrt(a / d));
      if (rule == 2) { double f = v * 255; if (v < 1 && std::abs(f - std::round(f)) < 1e-6) sure = false; if (std::abs(std::sqrt(a / d) - 1) < 1e-9) sure = false; big = true; c.Count(v < 1 ? "computed-gains" : "clamped-gains"); }
      else c.Count(rule ? "unit-gains" : "silent-gains");
      int bit = BitOf(l);
      g.flags |= 1u << bit; g.g[bit] = static_cast<uint8_t>(v * 255.0);
    }
  };
  for (size_t k = 0; k < w.f.size(); ++k) {
    std::vector<enc::Cut> cuts;
    V_CHECK(c, enc::Split(first.tus[k], cuts), "unit-syntax", t.str());
    std::map<uint32_t, Bytes> pay;
    for (auto& x : cuts) if (x.type >= 5 && x.type <= 23) {
      ref::BitsIn in{x.payload};
      uint32_t id = x.type == 5 ? static_cast<uint32_t>(in.GetLeb()) : x.type - 6;
      pay[id] = Bytes(x.payload.begin() + in.pos / 8, x.payload.end());
    }
    size_t at = 0;
    for (size_t i = 0; i < j.st.elems.size(); ++i) {
      auto& el = j.st.elems[i];
      auto& s = sig[{k, &el.e}];
      std::vector<const ref::Layer*> layer;
      for (auto& l : el.e.layers) for (int q = 0; q < l.sub; ++q) layer.push_back(&l);
      for (size_t q = 0; q < el.subs.size(); ++q, ++at) {
        if (!el.scalable) continue;
        auto& f = w.f[k][at];
        std::vector<std::vector<int64_t>> pcm;
        V_CHECK(c, enc::ParsePayload(enc::CodecOf(j, el), static_cast<int>(el.subs[q].size()), j.N(), pay[f.id], pcm), "payload", t.str());
        for (size_t ch = 0; ch < el.subs[q].size(); ++ch) {
          auto& l = el.subs[q][ch];
          double g = layer[q]->og && (layer[q]->og_flags & enc::GainBit(l)) ? std::pow(10.0, layer[q]->gain / 256.0 / 20) : 1;
          auto& x = s.first[l]; auto& y = s.second[l];
          for (size_t n = 0; n < j.N(); ++n) { x.push_back(f.pcm[ch][n] * g); y.push_back(std::ldexp(static_cast<double>(pcm[ch][n]), 1 - enc::BitDepth(enc::CodecOf(j, el))) * g); }
        }
      }
      if (el.scalable) { auto p = enc::ParamsAt(j, el, static_cast<uint32_t>(k)); ref::Demix(s.first, el, p); ref::Demix(s.second, el, p); }
    }
  }
  auto good = j;
  for (size_t i = 0; i < j.st.elems.size(); ++i) for (size_t k = 0; k < w.f.size(); ++k) sig[{k, &good.st.elems[i].e}] = sig[{k, &j.st.elems[i].e}];
  recon_blocks(good, gains);
  auto show = [&](const enc::Job& q) { std::ostringstream x; for (auto& b : q.blocks) for (auto& p : b) if (p.def.type == 2) { x << " ["; for (auto& y : p.data[0].recon) if (y) { x << " " << std::hex << y->flags << std::dec << ":"; for (int z = 0; z < 12; ++z) if (y->flags >> z & 1) x << int(y->g[z]) << ","; } x << "]"; } return x.str(); };
  if (!sure) { c.Count("ambiguous"); return; }
  c.Count(big ? "jobs-with-computed" : "jobs-without");
  c.Distinct(HashStr(show(good)));
  auto second = run(good, false);
  if (wrong_flag) { c.Count("nothing-to-reconstruct"); return; }
  V_CHECK(c, second.status.ok(), "computed-gains", t.str() + show(good) + " " + second.where + " " + second.status.ToString());
  // What is written is what was computed.
  V_CHECK(c, second.tus.size() == w.f.size(), "units", t.str());
  for (size_t k = 0; k < second.tus.size(); ++k) {
    std::vector<enc::Cut> cuts;
    V_CHECK(c, enc::Split(second.tus[k], cuts), "unit-syntax", t.str());
    for (auto& b : good.blocks[k]) if (b.def.type == 2) {
      Bytes want = ref::EncodePBlock(b, {good.leb_mode, &r}); bool found = false;
      for (auto& x : cuts) found |= x.type == 3 && x.payload == want;
      V_CHECK(c, found, "written", t.str() + show(good) + " frame " + std::to_string(k));
      c.Count("blocks");
    }
  }
  c.Distinct(HashStr(t.str() + show(good)));
  // Anything else is refused.
  std::vector<ref::Recon*> where;
  auto bad = good;
  for (auto& b : bad.blocks) for (auto& p : b) if (p.def.type == 2) for (auto& y : p.data[0].recon) if (y) where.push_back(&*y);
  if (where.empty()) return;
  auto& g = *where[r.Below(where.size())];
  std::vector<int> on, off;
  for (int z = 0; z < 12; ++z) (g.flags >> z & 1 ? on : off).push_back(z);
  switch (on.empty() ? 1 : r.Below(3)) {
    case 0: { int z = on[r.Below(on.size())]; int v = g.g[z] + (r.Bool() ? 1 : -1) * static_cast<int>(r.Chance(1, 2) ? 1 : r.Range(1, 200)); if (v < 0 || v > 255) v = g.g[z] == 0 ? 1 : g.g[z] - 1; g.g[z] = static_cast<uint8_t>(v); break; }
    case 1: { int z = off[r.Below(off.size())]; g.flags |= 1u << z; g.g[z] = r.Bool() ? 0 : r.U8(); break; }
    default: { int z = on[r.Below(on.size())]; g.flags &= ~(1u << z); g.g[z] = 0; break; }
  }
  auto third = run(bad, false);
  V_CHECK(c, !third.status.ok(), "wrong-gain-accepted", t.str() + " computed" + show(good) + " given" + show(bad));
  c.Count("wrong-gains");
  if (c.WantSample()) c.Sample(t.str().substr(0, 200) + " computed" + show(good).substr(0, 120));
}
}  // namespace
V_MAIN({{"direct", 60000, 400000, Direct}, {"encode", 750, 5000, Encode}})
