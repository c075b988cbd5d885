// C23: loudness bookkeeping. The ITU-1770-4 calculator against a table derived from loudspeaker positions and a
// recording analyzer; the finalizer with recording calculators and processors against the reference rendering; the
// encoder's loudness against what the decoder plays.
#include <cmath>
#include <set>
#include "harness/decwork.h"
#include "harness/encwork.h"
#include "harness/ref/labels.h"
#include "iamf/cli/descriptor_obu_parser.h"
#include "iamf/cli/itu_1770_4/loudness_calculator_factory_itu_1770_4.h"
#include "iamf/cli/itu_1770_4/loudness_calculator_itu_1770_4.h"
#include "iamf/cli/layout_renderer_factory.h"
#include "iamf/cli/obu_processor.h"
#include "iamf/cli/rendering_mix_presentation_finalizer.h"
#include "iamf/cli/sample_processor_base.h"
#include "include/ebur128_analyzer.h"
using namespace vlib;
using namespace iamf_tools;
using ref::Bytes;
using ref::Mat;
namespace pb = iamf_tools_cli_proto;
namespace {
typedef std::vector<absl::Span<const double>> Spans;
Spans ToSpans(const Mat& m) { Spans s; for (auto& v : m) s.push_back(absl::MakeConstSpan(v)); return s; }
Mat FromSpans(absl::Span<const absl::Span<const double>> s) { Mat m; for (auto& v : s) m.emplace_back(v.begin(), v.end()); return m; }
Layout ToLayout(int ss) {
  Layout l;
  if (ss < 0) { l.layout_type = ss == -1 ? Layout::kLayoutTypeBinaural : static_cast<Layout::LayoutType>(ss == -2 ? 0 : 1); l.specific_layout = LoudspeakersReservedOrBinauralLayout{}; }
  else { l.layout_type = Layout::kLayoutTypeLoudspeakersSsConvention; l.specific_layout = LoudspeakersSsConventionLayout{.sound_system = static_cast<LoudspeakersSsConventionLayout::SoundSystem>(ss)}; }
  return l;
}
bool SameLayout(const Layout& l, int ss) {
  Layout w = ToLayout(ss);
  if (l.layout_type != w.layout_type) return false;
  return ss < 0 || std::get<LoudspeakersSsConventionLayout>(l.specific_layout).sound_system == std::get<LoudspeakersSsConventionLayout>(w.specific_layout).sound_system;
}
// ---- the calculator ----
// Azimuth and elevation of every loudspeaker in output order; LFE where azimuth is 999.
typedef std::vector<std::pair<int, int>> Positions;
const Positions& PositionsOf(int ss) {
  static const int F = 999;
  static const std::map<int, Positions> m{
      {-1, {{-30, 0}, {30, 0}}}, {0, {{30, 0}, {-30, 0}}}, {1, {{30, 0}, {-30, 0}, {0, 0}, {F, 0}, {110, 0}, {-110, 0}}},
      {2, {{30, 0}, {-30, 0}, {0, 0}, {F, 0}, {110, 0}, {-110, 0}, {30, 30}, {-30, 30}}},
      {3, {{30, 0}, {-30, 0}, {0, 0}, {F, 0}, {110, 0}, {-110, 0}, {30, 30}, {-30, 30}, {110, 30}, {-110, 30}}},
      {4, {{30, 0}, {-30, 0}, {0, 0}, {F, 0}, {110, 0}, {-110, 0}, {30, 30}, {-30, 30}, {110, 30}, {-110, 30}, {0, -30}}},
      {5, {{0, 0}, {30, 0}, {-30, 0}, {45, 30}, {-45, 30}, {90, 0}, {-90, 0}, {135, 0}, {-135, 0}, {180, 45}, {F, 0}, {F, 0}}},
      {6, {{30, 0}, {-30, 0}, {0, 0}, {F, 0}, {90, 0}, {-90, 0}, {135, 0}, {-135, 0}, {45, 30}, {-45, 30}, {135, 30}, {-135, 30}, {15, 0}, {-15, 0}}},
      {7, {{60, 0}, {-60, 0}, {0, 0}, {F, 0}, {135, 0}, {-135, 0}, {30, 0}, {-30, 0}, {180, 0}, {F, 0}, {90, 0}, {-90, 0}, {45, 30}, {-45, 30}, {0, 30}, {0, 90}, {135, 30}, {-135, 30}, {90, 30}, {-90, 30}, {180, 30}, {0, -30}, {45, -30}, {-45, -30}}},
      {8, {{30, 0}, {-30, 0}, {0, 0}, {F, 0}, {90, 0}, {-90, 0}, {135, 0}, {-135, 0}}},
      {9, {{30, 0}, {-30, 0}, {0, 0}, {F, 0}, {90, 0}, {-90, 0}, {135, 0}, {-135, 0}, {45, 30}, {-45, 30}, {135, 30}, {-135, 30}}},
      {10, {{30, 0}, {-30, 0}, {0, 0}, {F, 0}, {90, 0}, {-90, 0}, {135, 0}, {-135, 0}, {90, 45}, {-90, 45}}},
      {11, {{30, 0}, {-30, 0}, {0, 0}, {F, 0}, {45, 30}, {-45, 30}}}, {12, {{0, 0}}},
      {13, {{60, 0}, {-60, 0}, {0, 0}, {F, 0}, {135, 0}, {-135, 0}, {30, 0}, {-30, 0}, {90, 0}, {-90, 0}, {45, 30}, {-45, 30}, {135, 30}, {-135, 30}, {90, 30}, {-90, 30}}},
      {14, {{30, 0}, {-30, 0}, {0, 0}, {F, 0}, {90, 0}, {-90, 0}, {135, 0}, {-135, 0}, {45, 30}, {-45, 30}, {135, 30}, {-135, 30}, {0, 90}, {45, -30}, {-45, -30}, {135, -30}, {-135, -30}}}};
  static const Positions none;
  auto it = m.find(ss);
  return it == m.end() ? none : it->second;
}
float WeightOf(std::pair<int, int> p) { int a = std::abs(p.first); return a == 999 ? 0.0f : std::abs(p.second) < 30 && a >= 60 && a <= 120 ? 1.41f : 1.0f; }
int16_t Q78(float v) { return static_cast<int16_t>(std::trunc(std::clamp(v, -128.0f, 128.0f - 1 / 256.0f) * 256.0f)); }
LoudnessInfo GenLoudness(Rng& r) {
  LoudnessInfo l;
  l.info_type = static_cast<uint8_t>(r.Chance(1, 4) ? r.U8() : r.Below(4));
  l.integrated_loudness = static_cast<int16_t>(r.U32()); l.digital_peak = static_cast<int16_t>(r.U32());
  l.true_peak = l.info_type & 1 ? static_cast<int16_t>(r.U32()) : static_cast<int16_t>(0);
  if (l.info_type & 2) for (int n = static_cast<int>(r.Range(1, 3)), k = 1; k <= n; ++k) l.anchored_loudness.anchor_elements.push_back({.anchor_element = static_cast<AnchoredLoudnessElement::AnchorElement>(k), .anchored_loudness = static_cast<int16_t>(r.U32())});
  if (l.info_type & 0xfc) { l.layout_extension.info_type_bytes = r.Bytes(r.Below(6)); }
  return l;
}
std::string Text(const LoudnessInfo& l) { std::ostringstream o; o << int(l.info_type) << ":" << l.integrated_loudness << "/" << l.digital_peak << "/" << l.true_peak << " anchors " << l.anchored_loudness.anchor_elements.size() << " ext " << l.layout_extension.info_type_bytes.size(); return o.str(); }
void Calc(Ctx& c) {
  Rng& r = c.rng;
  int ss = static_cast<int>(r.Range(-3, 16));
  MixPresentationLayout ml{.loudness_layout = ToLayout(ss), .loudness = GenLoudness(r)};
  uint32_t n = static_cast<uint32_t>(r.Range(1, 64)); int rate = r.Pick(std::vector<int>{8000, 44100, 48000, 96000});
  loudness::Probe p; loudness::probe = &p;
  struct Un { ~Un() { loudness::probe = nullptr; } } un;
  auto& pos = PositionsOf(ss);
  c.Eval();
  std::unique_ptr<LoudnessCalculatorBase> q = r.Bool() ? std::unique_ptr<LoudnessCalculatorBase>(LoudnessCalculatorItu1770_4::CreateForLayout(ml, n, rate)) : LoudnessCalculatorFactoryItu1770_4().CreateLoudnessCalculator(ml, n, rate);
  V_CHECK(c, (q != nullptr) == !pos.empty(), "calc-create", "sound system " << ss);
  if (!q) { c.Count("no-calculator"); return; }
  V_CHECK(c, p.channels == static_cast<int>(pos.size()) && p.rate == rate && p.true_peak == ((ml.loudness.info_type & 1) != 0), "calc-setup", "sound system " << ss << " channels " << p.channels << " rate " << p.rate << " true peak " << p.true_peak);
  V_CHECK(c, p.weights.size() == pos.size(), "calc-weights", p.weights.size());
  for (size_t k = 0; k < pos.size(); ++k) V_CHECK(c, std::fabs(p.weights[k] - WeightOf(pos[k])) < 1e-6f, "calc-weight", "sound system " << ss << " channel " << k << " weighs " << p.weights[k] << " instead of " << WeightOf(pos[k]));
  Mat want(pos.size());
  for (int k = static_cast<int>(r.Below(6)); k > 0; --k) {
    size_t ticks = r.Chance(1, 6) ? n + r.Range(1, 3) : static_cast<size_t>(r.Below(n + 1)), ch = r.Chance(1, 8) ? static_cast<size_t>(r.Below(26)) : pos.size();
    Mat m(ch, std::vector<double>(ticks)); for (auto& v : m) for (auto& x : v) x = 4 * r.Unit() - 2;
    bool ok = ch == pos.size() && ticks <= n;
    if (ch > 1 && r.Chance(1, 8)) { m[r.Range(1, ch - 1)].push_back(1); ok = false; }
    Spans s = ToSpans(m);
    auto before = p.data;
    auto st = q->AccumulateLoudnessForSamples(s);
    V_CHECK(c, st.ok() == ok, ok ? "calc-refused" : "calc-accepted", st << " " << ch << "x" << ticks << " of " << pos.size() << "x" << n);
    if (ok) for (size_t i = 0; i < ch; ++i) want[i].insert(want[i].end(), m[i].begin(), m[i].end());
    V_CHECK(c, p.data == want && p.planar_double, "calc-samples", "sound system " << ss << " " << ch << "x" << ticks);
    c.Count(ok ? "calc-frames" : "calc-refusals");
  }
  for (int k = 0; k < 3; ++k) {
    p.answer = true;
    auto level = [&] { switch (r.Below(6)) { case 0: return -std::numeric_limits<float>::infinity(); case 1: return static_cast<float>(r.Range(-200, 200)); case 2: return static_cast<float>(r.Range(-128 * 256 - 3, 128 * 256 + 3)) / 256.0f; default: return static_cast<float>(-60 + 70 * r.Unit()); } };
    p.integrated = r.Chance(1, 6) ? std::optional<float>() : std::optional<float>(level()); p.digital = level(); p.peak = level();
    LoudnessInfo w = ml.loudness;
    bool has = p.integrated.has_value();
    w.integrated_loudness = has ? Q78(*p.integrated) : static_cast<int16_t>(-32768); w.digital_peak = has ? Q78(p.digital) : static_cast<int16_t>(-32768);
    if (w.info_type & 1) w.true_peak = has ? Q78(p.peak) : static_cast<int16_t>(-32768);
    auto g = q->QueryLoudness();
    V_CHECK(c, g.ok(), "calc-query", g.status());
    V_CHECK(c, *g == w, "calc-answer", Text(*g) << " instead of " << Text(w) << " for " << (has ? *p.integrated : -999) << " " << p.digital << " " << p.peak);
    c.Count(has ? "calc-answers" : "calc-silent");
  }
  c.Distinct(Mix(static_cast<uint64_t>(ss + 10) * 1000 + n));
}
// ---- recording stand-ins ----
struct Heard {
  int mix = -1, sub = -1, lay = -1;      // of the processor
  bool calc = false, proc = false;
  LoudnessInfo user, answer; int rate = 0; uint32_t frame = 0; Layout layout;
  Mat samples, processed; std::vector<Mat> frames, proc_frames;
  int fail = 0; bool fail_query = false, alive = false;
  int flushes = 0, proc_mode = 0, queries = 0;
};
class Calculator : public LoudnessCalculatorBase {
 public:
  explicit Calculator(Heard* h) : h_(h) {}
  absl::Status AccumulateLoudnessForSamples(absl::Span<const absl::Span<const double>> s) override {
    h_->frames.push_back(FromSpans(s));
    return h_->fail && static_cast<int>(h_->frames.size()) == h_->fail ? absl::InternalError("injected") : absl::OkStatus();
  }
  absl::StatusOr<LoudnessInfo> QueryLoudness() const override { ++h_->queries; if (h_->fail_query) return absl::InternalError("injected"); return h_->answer; }
 private:
  Heard* h_;
};
class Processor : public SampleProcessorBase {
 public:
  Processor(Heard* h, size_t n, size_t ch) : SampleProcessorBase(n, ch, n), h_(h), held_(ch) {}
 private:
  absl::Status PushFrameDerived(absl::Span<const absl::Span<const double>> s) override {
    h_->proc_frames.push_back(FromSpans(s));
    for (size_t k = 0; k < s.size(); ++k) {
      if (h_->proc_mode == 0) for (double x : s[k]) output_channel_time_samples_[k].push_back(-x);
      if (h_->proc_mode == 1) { output_channel_time_samples_[k] = held_[k]; held_[k].assign(s[k].begin(), s[k].end()); }
    }
    return absl::OkStatus();
  }
  absl::Status FlushDerived() override { ++h_->flushes; if (h_->proc_mode == 1) for (size_t k = 0; k < held_.size(); ++k) output_channel_time_samples_[k] = held_[k]; return absl::OkStatus(); }
  Heard* h_; Mat held_;
};
// Which layout a calculator is for is told by the integrated loudness the user gave it.
struct Ear {
  Rng& r; std::map<int, std::unique_ptr<Heard>> by; int fail_at = 0; bool echo = false, all = false;
  Heard* At(int tag) { auto& h = by[tag]; if (!h) h = std::make_unique<Heard>(); return h.get(); }
};
class Factory : public LoudnessCalculatorFactoryBase {
 public:
  explicit Factory(Ear& e) : e_(e) {}
  std::unique_ptr<LoudnessCalculatorBase> CreateLoudnessCalculator(const MixPresentationLayout& l, uint32_t n, int32_t rate) const override {
    Rng& r = e_.r;
    if (!e_.all && r.Chance(1, 8)) return nullptr;
    Heard* h = e_.At(l.loudness.integrated_loudness);
    h->calc = true; h->user = h->answer = l.loudness; h->rate = rate; h->frame = n; h->layout = l.loudness_layout;
    if (!e_.echo) {
      if (r.Bool()) h->answer.integrated_loudness = static_cast<int16_t>(r.U32());
      if (r.Bool()) h->answer.digital_peak = static_cast<int16_t>(r.U32());
      if ((l.loudness.info_type & 1) && r.Bool()) h->answer.true_peak = static_cast<int16_t>(r.U32());
    }
    if (e_.fail_at && --e_.fail_at == 0) { if (r.Bool()) h->fail = static_cast<int>(r.Range(1, 3)); else h->fail_query = true; }
    return std::make_unique<Calculator>(h);
  }
 private:
  Ear& e_;
};
bool Near(const Mat& a, const Mat& b, const Mat& e, std::string& d) {
  std::ostringstream o;
  if (a.size() != b.size()) { o << a.size() << " channels instead of " << b.size(); d = o.str(); return false; }
  for (size_t k = 0; k < a.size(); ++k) {
    if (a[k].size() != b[k].size()) { o << "channel " << k << ": " << a[k].size() << " ticks instead of " << b[k].size(); d = o.str(); return false; }
    for (size_t t = 0; t < a[k].size(); ++t) if (!(std::fabs(a[k][t] - b[k][t]) <= e[k][t] + 1e-9 + 1e-6 * std::fabs(b[k][t]))) { o << "channel " << k << " tick " << t << ": " << a[k][t] << " instead of " << b[k][t]; d = o.str(); return false; }
  }
  return true;
}
std::optional<MixPresentationObu> ParseMix(const ref::Mix& m) {
  Bytes p = ref::EncodeMix(m, ref::Lp{});
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(p));
  auto o = MixPresentationObu::CreateFromBuffer(ObuHeader{}, static_cast<int64_t>(p.size()), *rb);
  if (!o.ok()) return std::nullopt;
  return std::optional<MixPresentationObu>(*std::move(o));
}
// ---- the finalizer ----
void Final(Ctx& c) {
  Rng& r = c.rng;
  ref::GenOpt o; o.max_tus = 4; o.max_elems = 3; o.max_mixes = 3; o.max_frame = 48; o.identity = r.Bool(); o.enhanced = true; o.redundant = false; o.trims = true;
  ref::Stream st = ref::GenStream(r, o);
  Bytes all = st.All();
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(all));
  bool insufficient = false;
  auto p = ObuProcessor::Create(st.tus.empty(), rb.get(), insufficient);
  if (!p) { c.Count("no-world"); return; }
  std::vector<ObuProcessor::OutputTemporalUnit> units;
  for (bool go = !st.tus.empty(); go;) {
    std::optional<ObuProcessor::OutputTemporalUnit> u;
    if (!p->ProcessTemporalUnit(true, u, go).ok()) { c.Count("no-world"); return; }
    if (u && !u->output_audio_frames.empty()) units.push_back(std::move(*u));
  }
  if (units.size() != st.tus.size()) { c.Count("no-world"); return; }
  // Some mixes get the sub-mixes of others too.
  std::vector<ref::Mix> mixes = st.mixes;
  for (auto& m : mixes) if (r.Chance(1, 3)) {
    auto& more = r.Pick(st.mixes).sm[0];
    bool shared = false; for (auto& x : more.el) for (auto& y : m.sm[0].el) shared |= x.id == y.id;
    if (!shared) m.sm.push_back(more);
  }
  for (auto& m : mixes) for (auto& s : m.sm) if (r.Chance(1, 8)) { ref::MixLayout l; l.type = static_cast<uint8_t>(r.Below(2)); s.layouts.push_back(l); }
  DescriptorObus::MixPresentationObus obus;
  int tag = static_cast<int>(r.Below(1000));
  std::map<std::tuple<size_t, size_t, size_t>, int> tags;
  for (size_t i = 0; i < mixes.size(); ++i) {
    auto m = ParseMix(mixes[i]);
    V_CHECK(c, m.has_value(), "final-mix", "a mix was refused");
    for (size_t s = 0; s < m->sub_mixes_.size(); ++s) for (size_t l = 0; l < m->sub_mixes_[s].layouts.size(); ++l) {
      auto& q = m->sub_mixes_[s].layouts[l].loudness;
      q = GenLoudness(r); q.integrated_loudness = static_cast<int16_t>(++tag); tags[{i, s, l}] = tag;
    }
    obus.push_back(*m);
  }
  c.Eval();
  Ear ear{r, {}}; ear.echo = r.Bool(); ear.all = r.Chance(1, 3); if (r.Chance(1, 12)) ear.fail_at = static_cast<int>(r.Range(1, 4));
  bool validate = r.Bool(), rendering = !r.Chance(1, 10), measuring = !r.Chance(1, 8);
  bool trim_start = !r.Chance(1, 6), trim_end = !r.Chance(1, 6);
  Factory factory(ear);
  LayoutRendererFactory renderers(TrimmingSettings{.trim_beginning = trim_start, .trim_end = trim_end});
  std::map<std::tuple<uint32_t, size_t, size_t>, std::unique_ptr<Heard>> procs;
  std::string proc_trouble;
  int max_mode = static_cast<int>(r.Range(0, 3));
  auto make = [&](DecodedUleb128 mix, size_t s, size_t l, const Layout& layout, int ch, int rate, int bits, size_t n) -> std::unique_ptr<SampleProcessorBase> {
    if (r.Bool()) return nullptr;
    auto& h = procs[{mix, s, l}];
    std::ostringstream e;
    if (h) e << "two processors for " << mix << "/" << s << "/" << l;
    h = std::make_unique<Heard>(); h->proc_mode = max_mode ? static_cast<int>(r.Below(max_mode)) : 0;
    if (rate != static_cast<int>(st.codec.lpcm.rate) || n != st.codec.nsamples || bits != st.codec.lpcm.size) e << " told " << rate << " Hz " << bits << " bits " << n << " samples";
    for (size_t i = 0; i < mixes.size(); ++i) if (mixes[i].id == mix) { int ss = ref::LayoutSsOf(mixes[i].sm.at(s).layouts.at(l)); if (!SameLayout(layout, ss) || ch != (ss < 0 ? 2 : ref::SsChannels(ss))) e << " wrong layout or channels " << ch; }
    if (!e.str().empty()) proc_trouble = e.str();
    return std::make_unique<Processor>(h.get(), n, ch);
  };
  auto f = RenderingMixPresentationFinalizer::Create(rendering ? &renderers : nullptr, measuring ? &factory : nullptr, p->GetAudioElementsView(), make, obus);
  V_CHECK(c, f.ok(), "final-create", f.status());
  V_CHECK(c, proc_trouble.empty(), "final-processor", proc_trouble);
  // The mixes as the reference knows them, one sub-mix each.
  struct Want { size_t i, s, l; int ss; bool ok; ref::Stream* st; Heard* calc; Heard* proc; };
  std::vector<std::unique_ptr<ref::Stream>> views; std::vector<Want> wants;
  std::vector<bool> mix_ok(mixes.size(), false);
  for (size_t i = 0; i < mixes.size(); ++i) for (size_t s = 0; s < mixes[i].sm.size(); ++s) {
    views.push_back(std::make_unique<ref::Stream>(st)); auto& v = *views.back(); v.mixes.assign(1, mixes[i]); v.mixes[0].sm.assign(1, mixes[i].sm[s]);
    for (size_t l = 0; l < mixes[i].sm[s].layouts.size(); ++l) {
      int ss = ref::LayoutSsOf(mixes[i].sm[s].layouts[l]);
      bool ok = rendering && ss >= -1 && ref::Renderable(v, {0, ss});
      mix_ok[i] = mix_ok[i] || ok;
      auto it = ear.by.find(tags[{i, s, l}]); auto pt = procs.find({mixes[i].id, s, l});
      wants.push_back({i, s, l, ss, ok, &v, it == ear.by.end() ? nullptr : it->second.get(), pt == procs.end() ? nullptr : pt->second.get()});
    }
  }
  std::ostringstream what; what << mixes.size() << " mixes, " << wants.size() << " layouts, " << units.size() << " units" << (validate ? " validate" : "") << (rendering ? "" : " no rendering") << (measuring ? "" : " no loudness");
  for (auto& w : wants) what << " [" << w.i << "." << w.s << "." << w.l << " ss " << w.ss << (w.ok ? "" : " none") << (w.calc ? " C" : "") << (w.proc ? " P" : "") << "]";
  bool early = !r.Chance(1, 15), broken = false;
  for (size_t t = 0; t < units.size() && !broken; ++t) {
    // The labelled frames of the unit.
    IdLabeledFrameMap frames; auto& u = st.tus[t];
    for (auto& el : st.elems) {
      LabeledFrame x{}; x.samples_to_trim_at_start = u.trim_start; x.samples_to_trim_at_end = u.trim_end;
      auto dp = ref::DemixOf(el); if (auto db = u.demix.find(el.e.id); db != u.demix.end()) dp = db->second;
      x.demixing_params.alpha = dp.a; x.demixing_params.beta = dp.b; x.demixing_params.gamma = dp.g; x.demixing_params.delta = dp.d; x.demixing_params.w = dp.w; x.demixing_params.in_bitstream = dp.in_bitstream;
      ref::Labels derived; auto names = ref::SubstreamLabels(el); size_t flat = st.FlatOf(el.e.id);
      std::vector<const ref::Layer*> layer(el.subs.size(), nullptr);
      if (!el.Ambisonics()) { size_t at = 0; for (auto& l : el.e.layers) for (int q = 0; q < l.sub; ++q) layer[at++] = &l; }
      for (size_t s = 0; s < el.subs.size(); ++s) for (size_t k = 0; k < el.subs[s].size(); ++k) {
        double og = 1;
        if (layer[s] && layer[s]->og && (layer[s]->og_flags & ref::GainBit(el.subs[s][k]))) og = std::pow(10.0, layer[s]->gain / 256.0 / 20);
        auto& v = x.label_to_samples[*std::next(names[s].begin(), static_cast<long>(k))];
        for (int32_t y : u.pcm[flat + s][k]) v.push_back(og * std::ldexp(static_cast<double>(y), 1 - st.codec.lpcm.size));
        derived[el.subs[s][k]] = v;
      }
      if (el.scalable) {
        std::set<std::string> had; for (auto& [n, v] : derived) had.insert(n);
        ref::Demix(derived, el, dp);
        for (auto& [n, v] : derived) if (!had.count(n)) x.label_to_samples[ref::LabelOf("D:" + n)] = v;
      }
      frames[el.e.id] = x;
    }
    auto& un = units[t];
    int64_t start = un.output_audio_frames.front().start_timestamp, end = un.output_audio_frames.front().end_timestamp;
    if (!un.output_parameter_blocks.empty() && r.Chance(1, 12)) {
      auto s = f->PushTemporalUnit(frames, start + (r.Bool() ? 1 : 0), end + 1, un.output_parameter_blocks);
      V_CHECK(c, !s.ok(), "final-timestamps", what.str());
      c.Count("wrong-timestamps");
    }
    bool expect = true;
    for (auto& w : wants) if (w.ok && w.calc && w.calc->fail && static_cast<int>(w.calc->frames.size()) + 1 == w.calc->fail) expect = false;
    if (r.Chance(1, 20)) { auto s = f->GetFinalizedMixPresentationObus(validate); V_CHECK(c, !s.ok(), "final-early", what.str()); c.Count("early-get"); }
    std::vector<size_t> cf, pf; for (auto& w : wants) { cf.push_back(w.calc ? w.calc->frames.size() : 0); pf.push_back(w.proc ? w.proc->proc_frames.size() : 0); }
    auto s = f->PushTemporalUnit(frames, start, end, un.output_parameter_blocks);
    V_CHECK(c, s.ok() == expect, expect ? "final-push" : "final-push-accepted", s << " " << what.str());
    if (!expect) { broken = true; c.Count("injected"); break; }
    for (size_t k = 0; k < wants.size(); ++k) {
      auto& w = wants[k];
      auto got = f->GetPostProcessedSamplesAsSpan(mixes[w.i].id, w.s, w.l);
      std::ostringstream at; at << "unit " << t << " of mix " << w.i << "." << w.s << "." << w.l << ": " << what.str();
      V_CHECK(c, got.ok() == (rendering && mix_ok[w.i]), "final-get", at.str() << " " << got.status());
      if (!w.ok) {
        V_CHECK(c, (!w.calc || w.calc->frames.empty()) && (!w.proc || w.proc->proc_frames.empty()), "final-unrenderable", at.str());
        c.Count("unrenderable"); continue;
      }
      Mat err; bool exact; Mat want = ref::RenderTu(*w.st, {0, w.ss}, t, trim_start, trim_end, &exact, &err);
      std::string d;
      if (w.calc) {
        V_CHECK(c, w.calc->frames.size() == cf[k] + 1, "final-measured-once", at.str());
        V_CHECK(c, Near(w.calc->frames.back(), want, err, d), "final-measured", d << " " << at.str());
        V_CHECK(c, w.calc->rate == static_cast<int>(st.codec.lpcm.rate) && w.calc->frame == st.codec.nsamples && SameLayout(w.calc->layout, w.ss), "final-calculator", at.str());
        c.Count("measured");
      }
      if (w.proc) {
        V_CHECK(c, w.proc->proc_frames.size() == pf[k] + 1, "final-processed-once", at.str());
        V_CHECK(c, Near(w.proc->proc_frames.back(), want, err, d), "final-processed", d << " " << at.str());
        if (w.calc) V_CHECK(c, w.proc->proc_frames.back() == w.calc->frames.back(), "final-same-samples", at.str());
        Mat out = FromSpans(*got), expect_out(want.size());
        auto& fs = w.proc->proc_frames;
        for (size_t q = 0; q < want.size(); ++q) {
          if (w.proc->proc_mode == 0) for (double x : fs.back()[q]) expect_out[q].push_back(-x);
          if (w.proc->proc_mode == 1 && fs.size() > 1) expect_out[q] = fs[fs.size() - 2][q];
        }
        V_CHECK(c, out == expect_out, "final-post-processed", at.str());
        c.Count("processed");
      } else {
        V_CHECK(c, Near(FromSpans(*got), want, err, d), "final-rendered", d << " " << at.str());
        c.Count("rendered");
      }
    }
    // Anything else is not there.
    V_CHECK(c, !f->GetPostProcessedSamplesAsSpan(mixes[0].id, mixes[0].sm.size(), 0).ok() && !f->GetPostProcessedSamplesAsSpan(mixes[0].id, 0, mixes[0].sm[0].layouts.size()).ok() && !f->GetPostProcessedSamplesAsSpan(999999, 0, 0).ok(), "final-get-missing", what.str());
    for (auto& h : wants) if (h.proc) V_CHECK(c, h.proc->flushes == 0, "final-flushed-early", what.str());
    c.Count("units");
  }
  if (broken) return;
  if (!early) { auto s = f->GetFinalizedMixPresentationObus(validate); V_CHECK(c, !s.ok(), "final-early", what.str()); c.Count("early-get"); }
  auto s = f->FinalizePushingTemporalUnits();
  V_CHECK(c, s.ok(), "final-finalize", s << " " << what.str());
  for (auto& w : wants) if (w.proc && mix_ok[w.i]) {
    V_CHECK(c, w.proc->flushes == 1, "final-flush", w.proc->flushes << " " << what.str());
    if (w.ok && w.proc->proc_mode == 1 && !w.proc->proc_frames.empty()) { auto g = f->GetPostProcessedSamplesAsSpan(mixes[w.i].id, w.s, w.l); V_CHECK(c, g.ok() && FromSpans(*g) == w.proc->proc_frames.back(), "final-flush-samples", what.str()); c.Count("flushed-samples"); }
  }
  V_CHECK(c, !f->PushTemporalUnit({}, 0, 0, {}).ok() && !f->FinalizePushingTemporalUnits().ok(), "final-state", what.str());
  // The loudness of every layout rendered is the measured one; of every other the user's.
  bool matches = true, query = true;
  DescriptorObus::MixPresentationObus want = obus;
  { size_t i = 0; for (auto& m : want) {
      for (auto& w : wants) if (w.i == i && w.ok && w.calc) {
        auto& l = m.sub_mixes_[w.s].layouts[w.l].loudness; auto& a = w.calc->answer;
        if (w.calc->fail_query) query = false;
        if (l.integrated_loudness != a.integrated_loudness || l.digital_peak != a.digital_peak || ((l.info_type & 1) && l.true_peak != a.true_peak)) matches = false;
        l = a;
      }
      ++i; } }
  auto got = f->GetFinalizedMixPresentationObus(validate);
  bool ok = query && (matches || !validate);
  V_CHECK(c, got.ok() == ok, ok ? "final-refused" : "final-accepted", got.status() << " " << what.str());
  c.Count(ok ? "finalized" : query ? "mismatch" : "injected");
  if (!ok) return;
  V_CHECK(c, got->size() == want.size(), "final-count", what.str());
  auto a = got->begin(); auto b = want.begin();
  for (size_t i = 0; i < want.size(); ++i, ++a, ++b) {
    for (auto& w : wants) if (w.i == i) { auto& x = a->sub_mixes_[w.s].layouts[w.l].loudness; auto& y = b->sub_mixes_[w.s].layouts[w.l].loudness; V_CHECK(c, x == y, w.ok ? "final-loudness" : "final-loudness-unrendered", "mix " << w.i << "." << w.s << "." << w.l << ": " << Text(x) << " instead of " << Text(y) << " " << what.str()); c.Count("loudness"); }
    V_CHECK(c, *a == *b, "final-mix-changed", what.str());
  }
  V_CHECK(c, !f->GetFinalizedMixPresentationObus(validate).ok(), "final-twice", what.str());
  c.Distinct(HashStr(what.str()));
  if (c.WantSample()) c.Sample(what.str());
}
// ---- the encoder ----
void Encode(Ctx& c) {
  Rng& r = c.rng;
  enc::JobOpt o; o.max_chunks = 3; o.max_frame = 48;
  enc::Job j = enc::GenJob(r, o);
  auto w = enc::Expect(j);
  if (!w.ok) { c.Count("job-not-ok"); return; }
  pb::UserMetadata u = enc::Metadata(j);
  // Tag every layout.
  int tag = 0;
  for (auto& m : *u.mutable_mix_presentation_metadata()) for (auto& s : *m.mutable_sub_mixes()) for (auto& l : *s.mutable_layouts()) l.mutable_loudness()->set_integrated_loudness(++tag);
  Ear ear{r, {}}; ear.echo = r.Chance(1, 3); ear.all = true;
  bool validate = r.Bool();
  u.mutable_test_vector_metadata()->set_validate_user_loudness(validate);
  Factory factory(ear); LayoutRendererFactory renderers(TrimmingSettings{});
  c.Eval();
  auto e = enc::Enc::Create(u, &renderers, &factory, RenderingMixPresentationFinalizer::ProduceNoSampleProcessors, enc::Enc::CreateNoObuSequencers);
  V_CHECK(c, e.ok(), "encode-create", e.status());
  auto got = enc::Run(**e, j, w.frames);
  bool matches = true;
  std::vector<std::pair<size_t, size_t>> tags{{0, 0}};
  for (size_t i = 0; i < j.st.mixes.size(); ++i) for (size_t l = 0; l < j.st.mixes[i].sm[0].layouts.size(); ++l) tags.push_back({i, l});
  std::vector<bool> measured(tags.size(), false);
  for (auto& [t, h] : ear.by) {
    V_CHECK(c, t >= 1 && t < static_cast<int>(tags.size()), "encode-tag", t);
    if (h->queries || !got.status.ok()) { measured[t] = true; auto& a = h->answer; auto& b = h->user; if (a.integrated_loudness != b.integrated_loudness || a.digital_peak != b.digital_peak || ((b.info_type & 1) && a.true_peak != b.true_peak)) matches = false; }
  }
  std::ostringstream what; what << ear.by.size() << " of " << tags.size() - 1 << " layouts measured, " << w.frames << " frames of " << j.N() << (validate ? " validate" : "");
  if (validate && !matches) { V_CHECK(c, !got.status.ok(), "encode-accepted", what.str()); c.Count("encode-mismatch"); return; }
  V_CHECK(c, got.status.ok(), "encode", got.where << " " << got.status << " " << what.str());
  // The descriptors hold what was measured.
  std::vector<enc::Cut> cuts; V_CHECK(c, enc::Split(got.descriptors, cuts), "encode-split", "");
  size_t i = 0;
  for (auto& k : cuts) if (k.type == 2) {
    auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(k.payload));
    auto m = MixPresentationObu::CreateFromBuffer(ObuHeader{}, static_cast<int64_t>(k.payload.size()), *rb);
    V_CHECK(c, m.ok(), "encode-mix", m.status());
    for (size_t l = 0; l < m->sub_mixes_[0].layouts.size(); ++l) for (size_t t = 1; t < tags.size(); ++t) if (tags[t] == std::make_pair(i, l)) {
      auto h = ear.by.find(static_cast<int>(t));
      auto& x = m->sub_mixes_[0].layouts[l].loudness;
      if (h == ear.by.end() || !h->second->queries) { V_CHECK(c, x.integrated_loudness == static_cast<int>(t), "encode-kept", what.str()); c.Count("encode-kept"); continue; }
      auto& y = h->second->answer;
      V_CHECK(c, x.integrated_loudness == y.integrated_loudness && x.digital_peak == y.digital_peak && (!(x.info_type & 1) || x.true_peak == y.true_peak), "encode-loudness", Text(x) << " instead of " << Text(y) << " " << what.str());
      c.Count("encode-loudness");
    }
    ++i;
  }
  V_CHECK(c, i == j.st.mixes.size(), "encode-mixes", i);
  // Every layout heard as many samples as remain after trimming.
  for (auto& [t, h] : ear.by) {
    size_t n = 0, bad = 0; for (auto& f : h->frames) { n += f.empty() ? 0 : f[0].size(); if (f.size() != PositionsOf(ref::LayoutSsOf(j.st.mixes[tags[t].first].sm[0].layouts[tags[t].second])).size()) ++bad; }
    if (h->frames.empty()) continue;
    V_CHECK(c, h->frames.size() == got.tus.size(), "encode-frames", h->frames.size() << " instead of " << got.tus.size() << " " << what.str());
    V_CHECK(c, bad == 0, "encode-channels", what.str());
    c.Count("encode-samples", static_cast<int64_t>(n));
  }
  c.Distinct(HashStr(what.str()) ^ HashVec(got.descriptors));
}
}  // namespace
V_MAIN({{"calc", 6000, 60000, Calc}, {"final", 4000, 40000, Final}, {"encode", 1200, 12000, Encode}})
