// C02: what comes out of the decoder does not depend on how its input is cut.
#include "harness/decwork.h"
using namespace decwork;
namespace {
struct Chunking { int kind; std::vector<size_t> cuts; };
// Strictly growing cut positions, the last is the size.
std::vector<size_t> Cuts(Rng& r, const ref::Stream& st, size_t size, std::string& name) {
  std::vector<size_t> c;
  auto add = [&](size_t x) { if (x > 0 && x < size) c.push_back(x); };
  switch (r.Below(6)) {
    case 0: name = "whole"; break;
    case 1: name = "bytes"; for (size_t i = 1; i < size; ++i) add(i); break;
    case 2: { name = "units"; size_t p = st.descriptors.size(); add(p); for (auto& t : st.tu_bytes) add(p += t.size()); break; }
    case 3: { name = "units-off"; int off = static_cast<int>(r.Range(-3, 3)); size_t p = st.descriptors.size(); add(p + off); for (auto& t : st.tu_bytes) add((p += t.size()) + off); break; }
    case 4: { name = "fixed"; size_t n = static_cast<size_t>(r.Range(1, 64)); for (size_t i = n; i < size; i += n) add(i); break; }
    default: { name = "random"; int n = static_cast<int>(r.Range(1, 40)); for (int i = 0; i < n; ++i) add(r.Below(size)); break; }
  }
  std::sort(c.begin(), c.end());
  c.erase(std::unique(c.begin(), c.end()), c.end());
  c.push_back(size);
  return c;
}
struct Run { std::vector<std::vector<uint8_t>> units; bool ok = true; std::string err; size_t calls = 0; bool complete = false; int channels = -1; uint32_t rate = 0, frame = 0; uint32_t mix = 0; int layout = -1; };
// Feeds `data` cut at `cuts`; `drain` 0 always, 1 sometimes, 2 only at the end.
Run Feed(Ctx& c, const Cfg& cfg, const ref::Bytes& data, const std::vector<size_t>& cuts, int drain, size_t cap, int dry) {
  Run o;
  auto d = F::Create(Settings(cfg));
  if (!d) HarnessBug("decoder");
  bool dead = false;
  auto pull = [&](int most) {
    while (!dead && most-- && d->IsTemporalUnitAvailable()) {
      auto u = Take(*d, cap);
      ++o.calls;
      if (u.ok || !u.data.empty()) o.units.push_back(u.data);
      if (!u.ok) { o.ok = false; o.err = u.err; dead = true; }
    }
  };
  auto feed = [&](const uint8_t* p, size_t n) {
    if (dead) return;
    auto s = d->Decode(p, n);
    ++o.calls;
    if (!s.ok()) { o.ok = false; o.err = s.error_message; dead = true; }
  };
  size_t at = 0;
  for (size_t e : cuts) {
    feed(data.data() + at, e - at); at = e;
    if (c.rng.Chance(1, 20)) { feed(data.data(), 0); }
    if (drain == 0) pull(-1); else if (drain == 1) pull(static_cast<int>(c.rng.Below(3)));
  }
  pull(-1);
  // One decode call decodes at most one unit: go on until it is dry.
  for (int i = 0; i < dry; ++i) { feed(data.data(), 0); pull(-1); }
  if (!dead) {
    auto s = d->SignalEndOfDecoding();
    if (!s.ok()) { o.ok = false; o.err = s.error_message; dead = true; }
    pull(-1);
  }
  o.complete = d->IsDescriptorProcessingComplete();
  if (o.complete) {
    api::SelectedMix m{};
    if (d->GetOutputMix(m).ok()) { o.mix = m.mix_presentation_id; o.layout = static_cast<int>(m.output_layout); }
    if (!d->GetNumberOfOutputChannels(o.channels).ok()) o.channels = -1;
    if (!d->GetSampleRate(o.rate).ok()) o.rate = 0;
    if (!d->GetFrameSize(o.frame).ok()) o.frame = 0;
  }
  return o;
}
void Valid(Ctx& c) {
  ref::GenOpt g; g.max_elems = 2; g.recon = true; g.max_frame = c.rng.Chance(1, 4) ? 300 : 24;
  auto st = ref::GenStream(c.rng, g);
  Cfg cfg = GenCfg(c.rng, st);
  auto sel = ref::Select(st, cfg.q);
  if (!ref::Renderable(st, sel) || st.tus.empty()) { c.Count("skipped"); return; }
  auto data = st.All();
  std::string name;
  auto cuts = Cuts(c.rng, st, data.size(), name);
  int drain = static_cast<int>(c.rng.Pick({0, 0, 1, 2}));
  auto text = [&] { std::string k; for (size_t i = 0; i < cuts.size() && i < 60; ++i) k += " " + std::to_string(cuts[i]); return name + " drain=" + std::to_string(drain) + " delimiters=" + std::to_string(st.delimiters) + " cuts" + k + " of " + std::to_string(data.size()) + " " + Describe(st, cfg, sel) + " stream=" + Hex(data, 200); };
  c.Eval();
  auto o = Feed(c, cfg, data, cuts, drain, MaxBytes(st, sel), c.rng.Bool());
  V_CHECK_R(c, o.ok, "error", o.err + " " + text(), );
  V_CHECK_R(c, o.complete, "descriptors", text(), );
  V_CHECK_R(c, o.units.size() == st.tus.size(), "unit-count", std::to_string(o.units.size()) + " units instead of " + std::to_string(st.tus.size()) + " " + text(), );
  V_CHECK(c, o.channels == OutChannels(sel) && o.rate == st.codec.lpcm.rate && o.frame == st.codec.nsamples, "parameters", text());
  V_CHECK(c, o.mix == st.mixes[sel.mix].id && o.layout == (sel.ss < 0 ? 14 : sel.ss), "selection", text());
  for (size_t t = 0; t < st.tus.size(); ++t) {
    auto w = WantTu(st, cfg, sel, t);
    auto diff = Compare(w, o.units[t], cfg.bits16);
    V_CHECK_R(c, diff.empty(), "output", "unit " + std::to_string(t) + ": " + diff + " " + text(), );
  }
  c.Count("chunking-" + name); c.Count("drain-" + std::to_string(drain)); c.Count("units", o.units.size()); c.Count("calls", o.calls);
  if (cuts.size() > 1) c.Distinct(HashVec(data) ^ Mix(HashVec(cuts)));
  if (c.WantSample()) c.Sample(name + " " + std::to_string(cuts.size()) + " chunks, " + std::to_string(o.units.size()) + " units as expected");
}
// Damaged data: the cut must not change what is delivered nor whether it fails.
void Damaged(Ctx& c) {
  ref::GenOpt g; g.max_elems = 2; g.recon = true; g.max_frame = 16; g.max_tus = 5;
  auto st = ref::GenStream(c.rng, g);
  Cfg cfg = GenCfg(c.rng, st);
  auto sel = ref::Select(st, cfg.q);
  if (st.tus.empty()) { c.Count("skipped"); return; }
  auto data = st.All();
  size_t lo = c.rng.Chance(1, 3) ? 0 : st.descriptors.size();
  int n = static_cast<int>(c.rng.Range(1, 3));
  for (int i = 0; i < n && data.size() > lo + 1; ++i) {
    size_t p = lo + c.rng.Below(data.size() - lo);
    switch (c.rng.Below(4)) {
      case 0: data[p] ^= static_cast<uint8_t>(1 << c.rng.Below(8)); break;
      case 1: data.resize(p); break;
      case 2: data.erase(data.begin() + p, data.begin() + std::min(data.size(), p + 1 + c.rng.Below(6))); break;
      default: data[p] = c.rng.U8();
    }
  }
  std::string name;
  auto cuts = Cuts(c.rng, st, data.size(), name);
  c.Eval();
  size_t cap = 1 << 16;
  auto a = Feed(c, cfg, data, {data.size()}, 0, cap, 4);
  auto b = Feed(c, cfg, data, cuts, static_cast<int>(c.rng.Pick({0, 0, 1, 2})), cap, 4);
  auto text = [&] { return name + " whole: " + std::to_string(a.units.size()) + " units ok=" + std::to_string(a.ok) + " " + a.err + "; cut: " + std::to_string(b.units.size()) + " units ok=" + std::to_string(b.ok) + " " + b.err + " " + Describe(st, cfg, sel) + " stream=" + Hex(data, 600); };
  V_CHECK(c, a.ok == b.ok && a.complete == b.complete, "damaged-status", text());
  // An empty unit handed out together with an error cannot be told from none.
  auto solid = [](const Run& x) { std::vector<std::vector<uint8_t>> v; for (auto& u : x.units) if (!u.empty()) v.push_back(u); return v; };
  V_CHECK(c, solid(a) == solid(b), "damaged-output", text());
  V_CHECK(c, a.channels == b.channels && a.rate == b.rate && a.frame == b.frame && a.mix == b.mix && a.layout == b.layout, "damaged-parameters", text());
  c.Count(a.ok ? "damaged-accepted" : "damaged-refused");
  c.Distinct(HashVec(data));
}
}  // namespace
V_MAIN({{"valid", 3000, 40000, Valid}, {"damaged", 3000, 40000, Damaged}})
