// C03: decoded output of LPCM sequences, sample for sample.
#include "harness/decwork.h"
using namespace decwork;
namespace {
void Decode(Ctx& c, const ref::GenOpt& o) {
  auto st = ref::GenStream(c.rng, o);
  Cfg cfg = GenCfg(c.rng, st);
  if (o.identity) { cfg.q.layout.reset(); cfg.q.mix.reset(); }
  if (o.choice) { if (c.rng.Chance(3, 4)) cfg.q.mix.reset(); if (c.rng.Chance(3, 4)) cfg.q.layout = c.rng.Bool() ? 0 : ref::kBinaural; }
  auto sel = ref::Select(st, cfg.q);
  c.Count(std::string("selected-by-") + sel.tier);
  bool can = ref::Renderable(st, sel);
  auto text = [&] { return Describe(st, cfg, sel) + " descriptors=" + Hex(st.descriptors, 300); };
  c.Eval();
  auto d = F::CreateFromDescriptors(Settings(cfg), st.descriptors.data(), st.descriptors.size());
  if (!can) { c.Count("unrenderable"); if (d) { /* created without a renderer: any output would be invented */ c.Count("unrenderable-created"); } return; }
  V_CHECK_R(c, d != nullptr, "refused-valid", text(), );
  c.Count(st.elems.size() > 1 ? "streams-multi" : "streams-single");
  api::SelectedMix got{};
  V_CHECK_R(c, d->GetOutputMix(got).ok(), "no-mix", text(), );
  V_CHECK_R(c, got.mix_presentation_id == st.mixes[sel.mix].id && static_cast<int>(got.output_layout) == (sel.ss < 0 ? 14 : sel.ss), "selected",
            "selected " + std::to_string(got.mix_presentation_id) + "/" + std::to_string(static_cast<int>(got.output_layout)) + " " + text(), );
  uint64_t h = HashVec(st.descriptors);
  for (size_t t = 0; t < st.tus.size(); ++t) {
    auto s = d->Decode(st.tu_bytes[t].data(), st.tu_bytes[t].size());
    V_CHECK_R(c, s.ok(), "decode-failed", "unit " + std::to_string(t) + ": " + s.error_message + " " + text(), );
    V_CHECK_R(c, d->IsTemporalUnitAvailable(), "unit-missing", "unit " + std::to_string(t) + " " + text(), );
    auto out = Take(*d, MaxBytes(st, sel));
    V_CHECK_R(c, out.ok, "output-failed", out.err + " " + text(), );
    auto w = WantTu(st, cfg, sel, t);
    std::string diff = Compare(w, out.data, cfg.bits16);
    auto& u = st.tus[t];
    V_CHECK_R(c, diff.empty(), w.exact ? "pcm-exact" : "pcm", "unit " + std::to_string(t) + " trim " + std::to_string(u.trim_start) + "/" + std::to_string(u.trim_end) + " blocks " + std::to_string(u.blocks.size()) + ": " + diff + " " + text() + " unit=" + Hex(st.tu_bytes[t], 200), );
    c.Count(w.exact ? "units-exact" : "units-mixed");
    if (u.trim_start || u.trim_end) c.Count("units-trimmed");
    if (w.ticks == 0) c.Count("units-empty");
    if (!u.blocks.empty()) c.Count("units-with-gain-blocks");
    for (auto& b : u.blocks) if (b.def.type == 2) c.Count("recon-blocks");
    c.Count("samples", w.v.size());
    h ^= Mix(HashVec(out.data) + t);
    V_CHECK_R(c, !d->IsTemporalUnitAvailable(), "extra-unit", text(), );
    if (c.WantSample() && w.v.size()) c.Sample(Describe(st, cfg, sel) + " unit " + std::to_string(t) + " -> " + std::to_string(w.ticks) + " ticks, first sample in " + std::to_string(w.v[0].first) + ".." + std::to_string(w.v[0].second));
  }
  if (!st.tus.empty()) c.Distinct(h);
}
void Mixed(Ctx& c) { ref::GenOpt o; o.recon = c.rng.Bool(); Decode(c, o); }
void Layers(Ctx& c) { ref::GenOpt o; o.recon = true; o.scalable_only = true; o.max_frame = 24; Decode(c, o); }
void Identity(Ctx& c) { ref::GenOpt o; o.identity = true; o.gains = c.rng.Chance(1, 4); o.max_frame = 200; Decode(c, o); }
void Choice(Ctx& c) { ref::GenOpt o; o.choice = true; o.max_mixes = 6; o.max_elems = 4; o.max_tus = 1; o.max_frame = 8; Decode(c, o); }
}  // namespace
V_MAIN({{"choice", 4000, 40000, Choice}, {"identity", 4000, 40000, Identity}, {"layers", 5000, 40000, Layers}, {"mixed", 12000, 100000, Mixed}})
