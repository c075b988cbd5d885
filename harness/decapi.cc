// C20: random histories of decoder API calls against a state machine.
#include "harness/decwork.h"
#include "iamf/api/decoder/iamf_decoder.h"
using namespace decwork;
namespace {
// What the API promises about one decoder.
struct Model {
  const ref::Stream* st;
  Cfg cfg;
  bool standalone;
  ref::Selected sel;
  ref::Bytes data;          // all that will be fed
  size_t fed = 0, desc = 0; // desc: bytes of descriptors still ahead of the units
  size_t first = 0;         // first unit after the last reset
  size_t next = 0;          // next unit to come out
  size_t begun = 0, whole = 0;  // units any / all of whose bytes were fed
  bool eos = false, complete = false;
  bool cut = false;         // ended inside a unit: what remains is not judged
};
std::string Txt(const Model& m, const std::string& log) { return log.substr(log.size() > 1500 ? log.size() - 1500 : 0) + " | " + Describe(*m.st, m.cfg, m.sel) + (m.standalone ? " standalone" : " from-descriptors"); }
void Progress(Model& m) {
  size_t p = m.desc; m.begun = m.whole = m.first;
  for (size_t t = m.first; t < m.st->tus.size(); ++t) { if (m.fed > p) m.begun = t + 1; p += m.st->tu_bytes[t].size(); if (m.fed >= p) m.whole = t + 1; }
}
// Getters agree with the model (or all refuse before the descriptors are known).
bool Getters(Ctx& c, D& d, Model& m, const std::string& log) {
  bool now = d.IsDescriptorProcessingComplete();
  V_CHECK_R(c, now || !m.complete, "complete-lost", Txt(m, log), false);
  m.complete = now;
  int ch = -7; uint32_t rate = 7, frame = 7; api::SelectedMix mix{};
  bool a = d.GetNumberOfOutputChannels(ch).ok(), b = d.GetOutputMix(mix).ok(), e = d.GetSampleRate(rate).ok(), f = d.GetFrameSize(frame).ok();
  V_CHECK_R(c, d.GetOutputSampleType() == (m.cfg.bits16 ? api::OutputSampleType::kInt16LittleEndian : api::OutputSampleType::kInt32LittleEndian), "sample-type", Txt(m, log), false);
  if (!now) {
    V_CHECK_R(c, !a && !b && !e && !f, "getter-before-descriptors", Txt(m, log), false);
    V_CHECK_R(c, !d.IsTemporalUnitAvailable(), "unit-before-descriptors", Txt(m, log), false);
    c.Count("getters-refused");
    return true;
  }
  V_CHECK_R(c, a && b && e && f, "getter-refused", Txt(m, log), false);
  V_CHECK_R(c, ch == OutChannels(m.sel) && rate == m.st->codec.lpcm.rate && frame == m.st->codec.nsamples, "getter-values", std::to_string(ch) + " " + std::to_string(rate) + " " + std::to_string(frame) + " " + Txt(m, log), false);
  V_CHECK_R(c, mix.mix_presentation_id == m.st->mixes[m.sel.mix].id && static_cast<int>(mix.output_layout) == (m.sel.ss < 0 ? 14 : m.sel.ss), "getter-mix",
            std::to_string(mix.mix_presentation_id) + "/" + std::to_string(static_cast<int>(mix.output_layout)) + " " + Txt(m, log), false);
  c.Count("getters-answered");
  return true;
}
// Takes one unit: sizes too small are refused and lose nothing.
bool Pull(Ctx& c, D& d, Model& m, std::string& log) {
  bool had = d.IsTemporalUnitAvailable();
  if (!had) {
    auto o = Take(d, c.rng.Below(64));
    log += " take(none)";
    V_CHECK_R(c, o.data.empty(), "output-from-nothing", Txt(m, log), false);
    V_CHECK_R(c, o.ok || !m.complete, "take-none-status", o.err + " " + Txt(m, log), false);
    c.Count("takes-empty");
    return true;
  }
  if (m.cut && m.next >= m.whole) { Take(d, MaxBytes(*m.st, m.sel)); log += " take(rest)"; c.Count("takes-cut"); return true; }
  V_CHECK_R(c, m.next < m.begun, "unit-too-early", "unit " + std::to_string(m.next) + " " + Txt(m, log), false);
  auto w = WantTu(*m.st, m.cfg, m.sel, m.next);
  size_t need = w.v.size() * (m.cfg.bits16 ? 2 : 4);
  if (need && c.rng.Chance(1, 4)) {
    size_t cap = c.rng.Chance(1, 2) ? need - 1 : c.rng.Below(need);
    auto o = Take(d, cap);
    log += " take(" + std::to_string(cap) + "<" + std::to_string(need) + ")";
    V_CHECK_R(c, !o.ok && o.data.empty(), "small-buffer-accepted", Txt(m, log), false);
    V_CHECK_R(c, d.IsTemporalUnitAvailable(), "small-buffer-lost", Txt(m, log), false);
    c.Count("takes-small");
    if (c.rng.Bool()) return true;
  }
  size_t cap = need + (c.rng.Bool() ? 0 : c.rng.Below(40));
  auto o = Take(d, cap);
  log += " take#" + std::to_string(m.next);
  // Only refilling with the rest of a cut unit may fail.
  V_CHECK_R(c, o.ok || (m.cut && m.next + 1 >= m.whole), "take-failed", o.err + " " + Txt(m, log), false);
  auto diff = Compare(w, o.data, m.cfg.bits16);
  V_CHECK_R(c, diff.empty(), "unit-content", "unit " + std::to_string(m.next) + ": " + diff + " " + Txt(m, log), false);
  ++m.next;
  c.Count("takes-unit");
  return true;
}
void Feed(const ref::Bytes& data, Model& m, size_t n, D& d, bool& ok, std::string& err) {
  auto s = d.Decode(data.data() + m.fed, n);
  ok = s.ok(); err = s.error_message;
  m.fed += n;
  Progress(m);
}
void History(Ctx& c) {
  ref::GenOpt g; g.max_elems = 2; g.max_frame = 20; g.redundant = true;
  auto st = ref::GenStream(c.rng, g);
  Model m; m.st = &st; m.cfg = GenCfg(c.rng, st); m.standalone = c.rng.Bool();
  m.sel = ref::Select(st, m.cfg.q);
  if (!ref::Renderable(st, m.sel)) { c.Count("skipped"); return; }
  std::unique_ptr<D> d;
  if (m.standalone) { d = F::Create(Settings(m.cfg)); m.data = st.All(); m.desc = st.descriptors.size(); }
  else { d = F::CreateFromDescriptors(Settings(m.cfg), st.descriptors.data(), st.descriptors.size()); for (auto& t : st.tu_bytes) m.data.insert(m.data.end(), t.begin(), t.end()); }
  std::string log;
  c.Eval();
  V_CHECK_R(c, d != nullptr, "not-created", Txt(m, log), );
  uint64_t h = HashVec(m.data);
  Progress(m);
  bool ok; std::string err;
  // Bytes of the next call: whole units when the decoder asks for those.
  auto chunk = [&] {
    size_t left = m.data.size() - m.fed;
    if (m.standalone) return c.rng.Chance(1, 10) ? left : std::min<size_t>(left, c.rng.Below(c.rng.Chance(1, 3) ? 8 : 400));
    size_t n = 0; int k = static_cast<int>(c.rng.Below(3));
    for (size_t t = m.whole; t < st.tus.size() && k-- > 0; ++t) n += st.tu_bytes[t].size();
    return n;
  };
  int steps = static_cast<int>(c.rng.Range(5, 40));
  for (int i = 0; i < steps; ++i) {
    int op = static_cast<int>(c.rng.Below(12));
    h = Mix(h + op);
    // A decoder can be moved at any point: the new one carries on.
    if (auto* p = dynamic_cast<api::IamfDecoder*>(d.get()); p && c.rng.Chance(1, 20)) {
      if (c.rng.Bool()) { d = std::make_unique<api::IamfDecoder>(std::move(*p)); log += " moved"; }
      else if (auto o = F::Create(Settings(GenCfg(c.rng, st)))) {
        auto* t = dynamic_cast<api::IamfDecoder*>(o.get());
        if (t && c.rng.Bool()) t->Decode(st.descriptors.data(), c.rng.Below(st.descriptors.size() + 1));
        if (t) { *t = std::move(*p); d = std::move(o); log += " move-assigned"; }
      }
      c.Count("moves");
    }
    if (op <= 4) {
      size_t n = chunk();
      if (m.eos) {
        V_CHECK_R(c, !d->Decode(m.data.data() + m.fed, n).ok(), "decode-after-end", Txt(m, log), );
        log += " decode-after-end";
        c.Count("decode-after-end");
      } else {
        bool first = !d->IsDescriptorProcessingComplete();
        bool before = d->IsTemporalUnitAvailable();
        Feed(m.data, m, n, *d, ok, err);
        log += " decode(" + std::to_string(n) + ")";
        V_CHECK_R(c, ok, "decode-failed", err + " " + Txt(m, log), );
        if (first) V_CHECK_R(c, !d->IsTemporalUnitAvailable(), "unit-with-descriptors", Txt(m, log), );
        V_CHECK_R(c, d->IsTemporalUnitAvailable() || !before, "unit-dropped", Txt(m, log), );
        c.Count("decodes");
      }
    } else if (op <= 7) { if (!Pull(c, *d, m, log)) return; }
    else if (op == 8) { if (!Getters(c, *d, m, log)) return; }
    else if (op == 9) {
      if (m.eos && !c.rng.Chance(1, 4)) continue;
      if (m.begun > m.whole && !c.rng.Chance(1, 6)) continue;
      auto s = d->SignalEndOfDecoding();
      log += " end";
      m.eos = true; m.cut = m.begun > m.whole;
      V_CHECK_R(c, s.ok() || m.cut, "end-failed", s.error_message + " " + Txt(m, log), );
      c.Count("ends");
    } else {
      bool mixed = op == 11;
      ref::Request q; api::SelectedMix got{};
      Cfg k = m.cfg;
      if (mixed) { k = GenCfg(c.rng, st); q = k.q; auto s2 = ref::Select(st, q); if (!ref::Renderable(st, s2)) continue; }
      auto s = mixed ? d->ResetWithNewMix(ApiRequest(q), got) : d->Reset();
      log += mixed ? " reset-mix(" + (q.mix ? std::to_string(*q.mix) : "-") + "," + (q.layout ? std::to_string(*q.layout) : "-") + ")" : " reset";
      if (m.standalone) { V_CHECK_R(c, !s.ok(), "reset-standalone", Txt(m, log), ); c.Count("resets-refused"); continue; }
      V_CHECK_R(c, s.ok(), "reset-failed", s.error_message + " " + Txt(m, log), );
      if (mixed) {
        m.cfg.q = q; m.sel = ref::Select(st, q);
        V_CHECK_R(c, got.mix_presentation_id == st.mixes[m.sel.mix].id && static_cast<int>(got.output_layout) == (m.sel.ss < 0 ? 14 : m.sel.ss), "reset-mix", Txt(m, log), );
      }
      V_CHECK_R(c, !d->IsTemporalUnitAvailable(), "reset-keeps-unit", Txt(m, log), );
      // Start again anywhere: a seek.
      m.first = st.tus.empty() ? 0 : c.rng.Below(st.tus.size());
      m.next = m.first; m.fed = 0; m.eos = m.cut = false;
      m.data.clear();
      for (size_t t = m.first; t < st.tus.size(); ++t) m.data.insert(m.data.end(), st.tu_bytes[t].begin(), st.tu_bytes[t].end());
      Progress(m);
      c.Count("resets");
    }
    // After a drain every unit that must be ready was handed out.
    if (c.rng.Chance(1, 3)) {
      int guard = 100;
      while (d->IsTemporalUnitAvailable() && guard--) if (!Pull(c, *d, m, log)) return;
      V_CHECK_R(c, guard > 0, "endless-drain", Txt(m, log), );
      bool ends = m.eos && (m.complete || d->IsDescriptorProcessingComplete());
      size_t due = m.standalone ? 0 : m.whole;
      if (m.standalone && ends) due = m.whole;
      V_CHECK_R(c, m.next >= due, "unit-late", std::to_string(m.next) + " out, " + std::to_string(due) + " due " + Txt(m, log), );
      c.Count("drains");
    }
  }
  // To the end.
  if (!m.eos) {
    Feed(m.data, m, m.data.size() - m.fed, *d, ok, err);
    V_CHECK_R(c, ok, "decode-failed", err + " " + Txt(m, log), );
    V_CHECK_R(c, d->SignalEndOfDecoding().ok(), "end-failed", Txt(m, log), );
    m.eos = true;
  }
  if (!Getters(c, *d, m, log)) return;
  int guard = 100;
  while (d->IsTemporalUnitAvailable() && guard--) if (!Pull(c, *d, m, log)) return;
  V_CHECK_R(c, guard > 0, "endless-drain", Txt(m, log), );
  if (m.complete) V_CHECK_R(c, m.next == m.whole, "unit-missing", std::to_string(m.next) + " out of " + std::to_string(m.whole) + Txt(m, log), );
  c.Distinct(h);
  if (c.WantSample() && m.next > 1) c.Sample((m.standalone ? "standalone" : "from-descriptors") + log.substr(0, 400));
}
}  // namespace
V_MAIN({{"history", 16000, 160000, History}})
