// C21: the same input gives the same output, whatever happened before or beside it.
#include "harness/decwork.h"
extern int vext_fail_opus_decoder;
using namespace decwork;
namespace {
// Everything a caller can observe of one pass.
struct Trace {
  std::vector<std::string> ev;
  void Add(std::string s) { ev.push_back(std::move(s)); }
  std::string Diff(const Trace& o) const {
    for (size_t i = 0; i < std::max(ev.size(), o.ev.size()); ++i) {
      std::string a = i < ev.size() ? ev[i] : "(nothing)", b = i < o.ev.size() ? o.ev[i] : "(nothing)";
      if (a != b) return "event " + std::to_string(i) + ": " + a.substr(0, 300) + " / " + b.substr(0, 300);
    }
    return "";
  }
  bool Errors() const { for (auto& e : ev) if (e.find("error") != std::string::npos) return true; return false; }
};
void Observe(D& d, Trace& t) {
  int ch = -1; uint32_t rate = 0, frame = 0; api::SelectedMix m{};
  std::ostringstream o;
  o << "state " << d.IsDescriptorProcessingComplete() << d.IsTemporalUnitAvailable();
  if (d.GetNumberOfOutputChannels(ch).ok()) o << " channels " << ch;
  if (d.GetOutputMix(m).ok()) o << " mix " << m.mix_presentation_id << "/" << static_cast<int>(m.output_layout);
  if (d.GetSampleRate(rate).ok()) o << " rate " << rate;
  if (d.GetFrameSize(frame).ok()) o << " frame " << frame;
  o << " type " << static_cast<int>(d.GetOutputSampleType());
  t.Add(o.str());
}
// A script of calls, the same for every decoder that is compared.
struct Step { int op; ref::Bytes data; size_t cap = 0; };
typedef std::vector<Step> Script;
void Do(D& d, const Step& s, Trace& t) {
  switch (s.op) {
    case 0: { auto r = d.Decode(s.data.data(), s.data.size()); t.Add(r.ok() ? "decode ok" : std::string("decode error")); break; }
    case 1: { auto o = Take(d, s.cap); t.Add((o.ok ? "take ok " : "take error ") + Hex(o.data, 100000)); break; }
    case 2: { auto r = d.SignalEndOfDecoding(); t.Add(r.ok() ? "end ok" : std::string("end error")); break; }
    default: Observe(d, t);
  }
}
void Play(D& d, const Script& s, Trace& t) { for (auto& x : s) Do(d, x, t); }
ref::Bytes Damage(Rng& r, ref::Bytes b) {
  int n = static_cast<int>(r.Range(1, 3));
  for (int i = 0; i < n && b.size() > 1; ++i) {
    size_t p = r.Below(b.size());
    switch (r.Below(3)) { case 0: b[p] ^= static_cast<uint8_t>(1 << r.Below(8)); break; case 1: b.resize(p); break; default: b[p] = r.U8(); }
  }
  return b;
}
Script GenScript(Rng& r, const ref::Stream& st, bool standalone, size_t cap, bool damaged, bool to_end) {
  Script s;
  if (standalone) {
    auto data = st.All();
    if (damaged) data = Damage(r, data);
    for (size_t at = 0; at < data.size();) {
      size_t n = std::min<size_t>(data.size() - at, 1 + r.Below(r.Bool() ? 2000 : 200));
      s.push_back({0, ref::Bytes(data.begin() + at, data.begin() + at + n)});
      at += n;
      if (r.Chance(2, 3)) s.push_back({1, {}, r.Chance(1, 8) ? r.Below(64) : cap});
      if (r.Chance(1, 6)) s.push_back({3});
      if (!to_end && r.Chance(1, 12)) return s;
    }
  } else {
    for (size_t t = 0; t < st.tu_bytes.size(); ++t) {
      s.push_back({0, damaged && r.Chance(1, 3) ? Damage(r, st.tu_bytes[t]) : st.tu_bytes[t]});
      if (r.Chance(3, 4)) s.push_back({1, {}, r.Chance(1, 8) ? r.Below(64) : cap});
      if (r.Chance(1, 6)) s.push_back({3});
      if (!to_end && r.Chance(1, 5)) return s;
    }
  }
  if (to_end || r.Bool()) s.push_back({2});
  for (int i = 0; i < 12; ++i) s.push_back({1, {}, cap});
  s.push_back({3});
  return s;
}
std::unique_ptr<D> Make(const ref::Stream& st, const Cfg& cfg, bool standalone) {
  return standalone ? F::Create(Settings(cfg)) : F::CreateFromDescriptors(Settings(cfg), st.descriptors.data(), st.descriptors.size());
}
// Scribbles over freed memory so that stale reads show up as different output.
void Stir(Rng& r) {
  std::vector<std::vector<uint8_t>> v;
  for (int i = 0; i < 40; ++i) v.push_back(r.Bytes(8 + r.Below(3000)));
}
// Rounds on one decoder, separated by resets, each compared with a fresh decoder.
void Reset(Ctx& c) {
  ref::GenOpt g; g.max_elems = 2; g.max_frame = 20; g.max_tus = 6;
  auto st = ref::GenStream(c.rng, g);
  Cfg cfg = GenCfg(c.rng, st);
  if (!ref::Renderable(st, ref::Select(st, cfg.q))) { c.Count("skipped"); return; }
  auto d = Make(st, cfg, false);
  V_CHECK_R(c, d != nullptr, "not-created", Describe(st, cfg, ref::Select(st, cfg.q)), );
  size_t cap = static_cast<size_t>(st.codec.nsamples) * 24 * 4;
  int rounds = static_cast<int>(c.rng.Range(2, 4));
  uint64_t h = HashVec(st.descriptors);
  std::string log;
  for (int k = 0; k < rounds; ++k) {
    if (k > 0) {
      bool mix = c.rng.Bool();
      log += mix ? " reset-mix" : " reset";
      if (mix) {
        Cfg n = GenCfg(c.rng, st);
        // Half the time the very same mix again.
        if (c.rng.Bool()) { if (!ref::Renderable(st, ref::Select(st, n.q))) continue; cfg.q = n.q; }
        api::SelectedMix got{};
        auto s = d->ResetWithNewMix(ApiRequest(cfg.q), got);
        V_CHECK_R(c, s.ok(), "reset-refused", s.error_message + log, );
      } else {
        auto s = d->Reset();
        V_CHECK_R(c, s.ok(), "reset-refused", s.error_message + log, );
      }
      c.Count(mix ? "resets-with-mix" : "resets");
    }
    bool damaged = k + 1 < rounds && c.rng.Chance(1, 3);
    auto script = GenScript(c.rng, st, false, cap, damaged, k + 1 == rounds || c.rng.Bool());
    Trace a, b;
    Observe(*d, a);
    Play(*d, script, a);
    Stir(c.rng);
    auto f = Make(st, cfg, false);
    V_CHECK_R(c, f != nullptr, "not-created", log, );
    Observe(*f, b);
    Play(*f, script, b);
    c.Eval();
    auto diff = a.Diff(b);
    log += damaged ? " damaged" : " clean";
    V_CHECK_R(c, diff.empty(), k ? "reset-differs" : "fresh-differs", "round " + std::to_string(k) + log + ": used/fresh " + diff + " " + Describe(st, cfg, ref::Select(st, cfg.q)), );
    if (a.Errors()) c.Count("rounds-with-errors");
    c.Count(damaged ? "rounds-damaged" : "rounds-clean");
    for (auto& e : a.ev) h = Mix(h ^ HashStr(e));
  }
  c.Distinct(h);
  if (c.WantSample()) c.Sample("rounds" + log);
}
// Several decoders, their calls interleaved at random, against each alone.
void Instances(Ctx& c) {
  struct One { ref::Stream st; Cfg cfg; bool standalone; Script s; Trace t; std::unique_ptr<D> d; size_t at = 0; };
  int n = static_cast<int>(c.rng.Range(2, 4));
  std::vector<One> v;
  ref::GenOpt g; g.max_elems = 2; g.max_frame = 20; g.max_tus = 5;
  while (static_cast<int>(v.size()) < n) {
    One o;
    // Half the time the same stream with other settings.
    o.st = !v.empty() && c.rng.Bool() ? v[0].st : ref::GenStream(c.rng, g);
    o.cfg = GenCfg(c.rng, o.st);
    if (!ref::Renderable(o.st, ref::Select(o.st, o.cfg.q))) continue;
    o.standalone = c.rng.Bool();
    o.s = GenScript(c.rng, o.st, o.standalone, static_cast<size_t>(o.st.codec.nsamples) * 24 * 4, c.rng.Chance(1, 4), true);
    v.push_back(std::move(o));
  }
  uint64_t h = 1;
  size_t left = v.size();
  while (left) {
    auto& o = v[c.rng.Below(v.size())];
    if (o.at > o.s.size()) continue;
    if (!o.d) { o.d = Make(o.st, o.cfg, o.standalone); if (!o.d) { c.Fail("not-created", Describe(o.st, o.cfg, ref::Select(o.st, o.cfg.q))); return; } }
    if (o.at < o.s.size()) Do(*o.d, o.s[o.at], o.t);
    if (++o.at > o.s.size()) { --left; if (c.rng.Bool()) o.d.reset(); }
    h = Mix(h + static_cast<uint64_t>(&o - v.data()));
  }
  for (auto& o : v) {
    auto d = Make(o.st, o.cfg, o.standalone);
    Trace t;
    Play(*d, o.s, t);
    c.Eval();
    auto diff = o.t.Diff(t);
    V_CHECK_R(c, diff.empty(), "instances-differ", "among others/alone " + diff + " " + Describe(o.st, o.cfg, ref::Select(o.st, o.cfg.q)), );
    c.Count("instances");
    c.Distinct(h ^ HashVec(o.st.descriptors));
  }
}
// Damage only in the units' order or presence: a seek after a reset gives what a decoder opened there gives.
void Seek(Ctx& c) {
  ref::GenOpt g; g.max_elems = 2; g.max_frame = 20; g.max_tus = 8;
  auto st = ref::GenStream(c.rng, g);
  Cfg cfg = GenCfg(c.rng, st);
  if (st.tus.size() < 2 || !ref::Renderable(st, ref::Select(st, cfg.q))) { c.Count("skipped"); return; }
  size_t cap = static_cast<size_t>(st.codec.nsamples) * 24 * 4;
  auto d = Make(st, cfg, false);
  if (!d) { c.Fail("not-created", Describe(st, cfg, ref::Select(st, cfg.q))); return; }
  for (int k = 0; k < 3; ++k) {
    size_t from = c.rng.Below(st.tus.size());
    ref::Stream cut = st;
    cut.tu_bytes.erase(cut.tu_bytes.begin(), cut.tu_bytes.begin() + from);
    cut.tus.erase(cut.tus.begin(), cut.tus.begin() + from);
    auto script = GenScript(c.rng, cut, false, cap, false, true);
    Trace a, b;
    Play(*d, script, a);
    auto f = Make(st, cfg, false);
    Play(*f, script, b);
    c.Eval();
    auto diff = a.Diff(b);
    V_CHECK_R(c, diff.empty(), "seek-differs", "from unit " + std::to_string(from) + ": " + diff + " " + Describe(st, cfg, ref::Select(st, cfg.q)), );
    c.Count("seeks");
    V_CHECK_R(c, d->Reset().ok(), "reset-refused", "seek", );
    c.Distinct(HashVec(st.descriptors) ^ from);
  }
}
// A reset that fails leaves a decoder that refuses, or can be reset to a good mix.
void FailedReset(Ctx& c) {
  ref::GenOpt g; g.max_elems = 2; g.max_frame = 20; g.max_tus = 4;
  auto st = ref::GenStream(c.rng, g);
  ref::Stream plain = st;
  AddForeign(c.rng, st);
  uint32_t foreign = st.mixes.back().id;
  Cfg cfg = GenCfg(c.rng, plain);
  cfg.q.mix = plain.mixes[c.rng.Below(plain.mixes.size())].id;
  if (cfg.q.layout && ref::Select(st, cfg.q).ss < -5) return;
  if (!ref::Renderable(st, ref::Select(st, cfg.q)) || st.mixes[ref::Select(st, cfg.q).mix].id == foreign) { c.Count("skipped"); return; }
  auto d = Make(st, cfg, false);
  if (!d) { c.Count("not-created"); return; }
  size_t cap = static_cast<size_t>(st.codec.nsamples) * 24 * 4;
  Trace before, after, fresh;
  auto script = GenScript(c.rng, st, false, cap, false, c.rng.Bool());
  Play(*d, script, before);
  vext_fail_opus_decoder = 1;
  Cfg bad = cfg; bad.q.mix = foreign;
  api::SelectedMix got{};
  bool failed = !d->ResetWithNewMix(ApiRequest(bad.q), got).ok();
  Stir(c.rng);
  c.Eval();
  if (failed) {
    // Whatever it answers, it must not invent audio or touch freed memory.
    Trace t;
    auto more = GenScript(c.rng, st, false, cap, false, true);
    Play(*d, more, t);
    for (auto& e : t.ev) V_CHECK_R(c, e.rfind("take ok ", 0) != 0 || e.size() == 8, "output-after-failed-reset", e.substr(0, 200), );
    c.Count("failed-resets");
  } else c.Count("foreign-mix-accepted");
  vext_fail_opus_decoder = 0;
  auto s = d->ResetWithNewMix(ApiRequest(cfg.q), got);
  V_CHECK_R(c, s.ok(), "reset-refused", "after a failed reset: " + s.error_message, );
  auto again = GenScript(c.rng, st, false, cap, false, true);
  Play(*d, again, after);
  auto f = Make(st, cfg, false);
  Play(*f, again, fresh);
  auto diff = after.Diff(fresh);
  V_CHECK_R(c, diff.empty(), "failed-reset-differs", diff + " " + Describe(st, cfg, ref::Select(st, cfg.q)), );
  c.Distinct(HashVec(st.descriptors));
}
}  // namespace
V_MAIN({{"reset", 2500, 40000, Reset}, {"instances", 1200, 20000, Instances}, {"seek", 1200, 20000, Seek}, {"failed-reset", 1500, 20000, FailedReset}})
