// C15: the renderers the factory makes, against the gain matrices channel by channel.
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include "harness/ref/labels.h"
#include "harness/ref/stream.h"
#include "harness/vlib.h"
#include "iamf/cli/labeled_frame.h"
#include "iamf/cli/renderer/audio_element_renderer_base.h"
#include "iamf/cli/renderer_factory.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/mix_presentation.h"
using namespace iamf_tools;
using namespace vlib;
using ref::CLabel;
using ref::Elem;
using ref::Lp;
using ref::Mat;
using Bytes = std::vector<uint8_t>;
using Samples = std::vector<std::vector<double>>;
namespace {

std::optional<AudioElementObu> Parse(const Bytes& payload) {
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(payload));
  auto o = AudioElementObu::CreateFromBuffer(ObuHeader{}, static_cast<int64_t>(payload.size()), *rb);
  if (!o.ok()) return std::nullopt;
  return std::optional<AudioElementObu>(*std::move(o));
}
Layout ToLayout(int ss) {
  Layout l;
  if (ss < 0) { l.layout_type = Layout::kLayoutTypeBinaural; l.specific_layout = LoudspeakersReservedOrBinauralLayout{}; }
  else { l.layout_type = Layout::kLayoutTypeLoudspeakersSsConvention; l.specific_layout = LoudspeakersSsConventionLayout{.sound_system = static_cast<LoudspeakersSsConventionLayout::SoundSystem>(ss)}; }
  return l;
}
// The real element, and its substreams' labels keyed by id.
struct World {
  Elem el;
  AudioElementObu obu;
  SubstreamIdLabelsMap labels;
};
World Make(Rng& r, Elem el) {
  el.e.id = static_cast<uint32_t>(r.Below(200)); el.e.codec = 1;
  std::set<uint32_t> used;
  while (el.e.subs.size() < el.subs.size()) { uint32_t id = static_cast<uint32_t>(r.Below(1000)); if (used.insert(id).second) el.e.subs.push_back(id); }
  auto o = Parse(ref::EncodeElement(el.e, Lp{}));
  if (!o) HarnessBug("element refused");
  World w{el, *o, {}};
  auto ls = ref::SubstreamLabels(el);
  for (size_t i = 0; i < ls.size(); ++i) w.labels[el.e.subs[i]] = std::list<ChannelLabel::Label>(ls[i].begin(), ls[i].end());
  return w;
}
// An ambisonics element of any order the tables hold, dense or sparse.
Elem GenAmbi(Rng& r) {
  Elem el; auto& q = el.e;
  int n = static_cast<int>(r.Below(6)); if (n == 5 && r.Chance(2, 3)) n = 4;
  int C = (n + 1) * (n + 1);
  q.type = 1; q.C = static_cast<uint8_t>(C);
  if (r.Bool()) {
    q.amb_mode = 0; q.N = static_cast<uint8_t>(r.Chance(1, 3) ? C : r.Range(1, C));
    std::vector<uint8_t> m; for (int i = 0; i < C; ++i) m.push_back(i < q.N ? static_cast<uint8_t>(i) : 255);
    r.Shuffle(m); q.mapping = m;
    for (int i = 0; i < q.N; ++i) el.subs.push_back({"s" + std::to_string(i) + ".0"});
  } else {
    q.amb_mode = 1;
    int total = static_cast<int>(r.Range(1, C)), M = static_cast<int>(r.Range(0, total / 2));
    q.N = static_cast<uint8_t>(total - M); q.M = static_cast<uint8_t>(M);
    for (int i = 0; i < total * C; ++i) q.matrix.push_back(r.Chance(1, 3) ? static_cast<int16_t>(0) : static_cast<int16_t>(r.Edge32()));
    for (int i = 0; i < q.N; ++i) { ref::Names s{"s" + std::to_string(i) + ".0"}; if (i < M) s.push_back("s" + std::to_string(i) + ".1"); el.subs.push_back(s); }
  }
  q.num_params.reset();
  return el;
}
// The label an input of a path goes by: "s<substream>.<channel>" for ambisonics.
CLabel InLabel(const World& w, const std::string& n) {
  if (!w.el.Ambisonics()) return ref::LabelOf(n);
  int s = 0, c = 0;
  if (sscanf(n.c_str(), "s%d.%d", &s, &c) != 2) HarnessBug("ambisonics input " + n);
  return ref::SubstreamLabels(w.el)[s][c];
}
double Sample(Rng& r, int kind) {
  switch (kind) {
    case 0: return 2 * r.Unit() - 1;
    case 1: return 0;
    case 2: return r.Bool() ? 1 : -1;
    case 3: return (2 * r.Unit() - 1) * 1e-6;
    default: return (2 * r.Unit() - 1) * 4;
  }
}
std::string Describe(const World& w, int ss, int hp) {
  std::ostringstream o;
  o << "type " << int(w.el.e.type) << " layout " << ss << " headphones " << hp;
  for (auto& l : w.el.e.layers) o << " layer " << int(l.layout) << "/" << int(l.expanded);
  if (w.el.Ambisonics()) o << " mode " << w.el.e.amb_mode << " C " << int(w.el.e.C) << " N " << int(w.el.e.N) << " M " << int(w.el.e.M);
  return o.str();
}
const std::map<std::string, std::string>& Demixed() {
  static const std::map<std::string, std::string> m{{"R2", "D:R2"}, {"L3", "D:L3"}, {"R3", "D:R3"}, {"L5", "D:L5"}, {"R5", "D:R5"}, {"Ls5", "D:Ls5"}, {"Rs5", "D:Rs5"}, {"Ltf2", "D:Ltf2"}, {"Rtf2", "D:Rtf2"},
      {"Ltb4", "D:Ltb4"}, {"Rtb4", "D:Rtb4"}, {"L7", "D:L7"}, {"R7", "D:R7"}, {"Lrs7", "D:Lrs7"}, {"Rrs7", "D:Rrs7"}};
  return m;
}

struct Frame { LabeledFrame f; std::vector<std::vector<double>> in; };  // in: per path input
// A frame with every label the element carries or the layers derive.
Frame GenFrame(Rng& r, const World& w, const ref::Path& p, size_t n) {
  Frame fr;
  int kind = static_cast<int>(r.Below(5));
  // Everything in the element, then what the path needs.
  for (auto& s : ref::SubstreamLabels(w.el)) for (auto l : s) { auto& v = fr.f.label_to_samples[l]; v.resize(n); for (auto& x : v) x = Sample(r, kind); }
  for (auto& name : p.in) {
    if (name.empty()) { fr.in.emplace_back(); continue; }
    CLabel l = InLabel(w, name);
    auto it = fr.f.label_to_samples.find(l);
    if (it == fr.f.label_to_samples.end()) {
      auto d = Demixed().find(name);
      if (d != Demixed().end() && r.Bool()) l = ref::LabelOf(d->second);
      auto& v = fr.f.label_to_samples[l]; v.resize(n); for (auto& x : v) x = Sample(r, r.Chance(3, 4) ? kind : 0);
      it = fr.f.label_to_samples.find(l);
    }
    fr.in.push_back(it->second);
  }
  // Labels of no concern.
  if (r.Chance(1, 4)) { auto& v = fr.f.label_to_samples[ChannelLabel::kObjectChannel0]; if (v.empty()) v.assign(n + 1, 0.5); }
  return fr;
}
ref::DemixParams GenDemix(Rng& r, DownMixingParams& out) {
  ref::DemixParams d;
  if (r.Chance(1, 3)) { static const int modes[] = {0, 1, 2, 4, 5, 6}; d = ref::DemixByMode(modes[r.Below(6)], static_cast<int>(r.Below(11))); }
  else { d.a = r.Unit(); d.b = r.Unit(); d.g = r.Unit(); d.d = r.Unit(); d.w = r.Unit() / 2; d.in_bitstream = r.Bool(); }
  out.alpha = d.a; out.beta = d.b; out.gamma = d.g; out.delta = d.d; out.w = d.w; out.in_bitstream = d.in_bitstream;
  return d;
}
// What a frame must add to the output.
void Expect(const World& w, const ref::Path& p, int play, const Frame& fr, const ref::DemixParams& d, size_t from, size_t ticks, size_t channels, Samples& out, Samples& tol) {
  ref::Path q = p;
  Mat dyn;
  if (!p.exact && !p.obr && !w.el.Ambisonics() && ref::DynamicGains(w.el, play, d, dyn)) { q.g = dyn; q.gerr.assign(q.in.size(), 0); }
  out.assign(channels, std::vector<double>(ticks, 0.0)); tol = out;
  for (size_t i = 0; i < q.in.size(); ++i) {
    if (q.in[i].empty()) continue;
    for (size_t c = 0; c < channels; ++c) for (size_t t = 0; t < ticks; ++t) {
      double x = fr.in[i][from + t];
      out[c][t] += x * q.g[i][c]; tol[c][t] += std::fabs(x) * (q.gerr[i] + (p.exact ? 0 : 1e-12 * std::fabs(q.g[i][c])));
    }
  }
}

// One renderer over several frames.
bool Run(Ctx& c, const World& w, int ss, int hp) {
  Rng& r = c.rng;
  TrimmingSettings ts; ts.trim_beginning = r.Chance(3, 4); ts.trim_end = r.Chance(3, 4);
  const size_t n = r.Range(1, hp == 1 ? 80 : 40);
  const ref::Path p = ref::PathFor(w.el, ss, hp, n);
  RenderingConfig rc; rc.headphones_rendering_mode = static_cast<RenderingConfig::HeadphonesRenderingMode>(hp);
  RendererFactory factory(ts);
  const uint32_t rate = r.Bool() ? 48000 : 44100;
  c.Eval();
  auto rd = factory.CreateRendererForLayout(w.obu.audio_substream_ids_, w.labels, w.obu.GetAudioElementType(), w.obu.config_, rc, ToLayout(ss), n, rate);
  const std::string what = Describe(w, ss, hp);
  V_CHECK_R(c, (rd != nullptr) == p.ok, "create " + std::to_string(ss), what + ": renderer " + (rd ? "made" : "missing"), false);
  if (!rd) { c.Count("no-renderer"); return true; }
  const int play = ss < 0 ? 0 : ss;
  const size_t channels = ss < 0 ? 2 : static_cast<size_t>(ref::SsChannels(ss));
  c.Count(p.exact ? "pass-through" : p.obr ? "binaural-library" : w.el.Ambisonics() ? "ambisonics" : "matrixed");
  Samples pend(channels), ptol(channels);
  bool have_pend = false;
  const int frames = static_cast<int>(r.Range(1, 5));
  std::string trace = what;
  for (int k = 0; k < frames; ++k) {
    // A new frame may be shorter than the nominal length (the last one is).
    size_t len = r.Chance(1, 4) ? r.Range(1, n) : n;
    // One channel-omitting order uses an all-zero channel of the nominal length.
    Frame fr = GenFrame(r, w, p, len);
    auto d = GenDemix(r, fr.f.demixing_params);
    uint32_t a = 0, b = 0;
    if (r.Chance(1, 3)) a = static_cast<uint32_t>(r.Range(0, len));
    if (r.Chance(1, 3)) b = static_cast<uint32_t>(r.Range(0, len - a));
    fr.f.samples_to_trim_at_start = a; fr.f.samples_to_trim_at_end = b;
    size_t from = ts.trim_beginning ? a : 0, drop = ts.trim_end ? b : 0;
    if (r.Chance(1, 10)) {  // broken frames are refused and leave nothing behind
      LabeledFrame bad = fr.f;
      int how = static_cast<int>(r.Below(4));
      std::vector<CLabel> needed;
      for (auto& nm : p.in) if (!nm.empty()) { CLabel l = InLabel(w, nm); if (!bad.label_to_samples.count(l)) { auto dm = Demixed().find(nm); if (dm == Demixed().end()) HarnessBug("demixed"); l = ref::LabelOf(dm->second); } needed.push_back(l); }
      CLabel one = r.Pick(needed);
      bool expect_bad = true;
      if (how == 0) bad.label_to_samples.erase(one);
      else if (how == 1) { bad.label_to_samples[one].push_back(0); expect_bad = needed.size() > 1 || len + 1 > n; }
      else if (how == 2) { for (auto& [l, v] : bad.label_to_samples) v.resize(n + 1 + r.Below(3)); }
      else { bad.samples_to_trim_at_start = static_cast<uint32_t>(ts.trim_beginning ? len + 1 - (ts.trim_end ? std::min<size_t>(b, len) : 0) : 0); bad.samples_to_trim_at_end = ts.trim_beginning ? b : static_cast<uint32_t>(len + 1); expect_bad = ts.trim_beginning || ts.trim_end; }
      if (how == 1 && !expect_bad) goto good;
      if (how == 3 && !expect_bad) goto good;
      auto st = rd->RenderLabeledFrame(bad);
      V_CHECK_R(c, !st.ok(), "bad frame accepted", what + ": how " + std::to_string(how), false);
      c.Count("frames-refused");
      continue;
    }
  good:
    Samples want, tol;
    const size_t ticks = len - from - drop;
    Expect(w, p, play, fr, d, from, ticks, channels, want, tol);
    auto st = rd->RenderLabeledFrame(fr.f);
    V_CHECK_R(c, st.ok(), "frame refused", what + ": " + std::string(st.status().message()), false);
    V_CHECK_R(c, *st == ticks, "ticks", what + ": " + std::to_string(*st) + " of " + std::to_string(ticks), false);
    c.Count("frames"); if (from || drop) c.Count("frames-trimmed");
    if (!p.exact && !p.obr && !w.el.Ambisonics() && d.in_bitstream) { Mat g; if (ref::DynamicGains(w.el, play, d, g)) c.Count("frames-dynamic"); }
    Samples got;
    const size_t pre = r.Below(3);
    if (r.Bool()) got.assign(channels, std::vector<double>(pre, 7.0));
    const size_t had = got.empty() ? 0 : pre;
    rd->Flush(got);
    V_CHECK_R(c, got.size() == channels, "output channels", what + ": " + std::to_string(got.size()) + " of " + std::to_string(channels), false);
    for (size_t ch = 0; ch < channels; ++ch) {
      V_CHECK_R(c, got[ch].size() == had + ticks, "output length", what + ": channel " + std::to_string(ch) + " " + std::to_string(got[ch].size()) + " of " + std::to_string(had + ticks), false);
      for (size_t t = 0; t < had; ++t) V_CHECK_R(c, got[ch][t] == 7.0, "flush kept", what, false);
      for (size_t t = 0; t < ticks; ++t) {
        double g = got[ch][had + t], e = want[ch][t];
        V_CHECK_R(c, std::fabs(g - e) <= tol[ch][t] + 1e-300, "sample", what + " channel " + std::to_string(ch) + " tick " + std::to_string(t) + ": " + std::to_string(g) + " wanted " + std::to_string(e) + (d.in_bitstream ? " dynamic" : ""), false);
      }
      c.Count("samples", ticks);
    }
    Samples again;
    rd->Flush(again);
    for (auto& v : again) V_CHECK_R(c, v.empty(), "flushed twice", what, false);
    if (c.WantSample()) { std::ostringstream o; o << what << " ticks " << ticks << " first " << (ticks ? got[0][had] : 0.0); c.Sample(o.str()); }
    std::ostringstream key; key << what << got[0].size() << (ticks ? got[0].back() : 0.0) << want[channels - 1].size() << d.a << fr.in.size();
    c.Distinct(HashStr(key.str()));
  }
  (void)pend; (void)ptol; (void)have_pend;
  auto f = rd->Finalize();
  V_CHECK_R(c, f.ok(), "finalize", what, false);
  V_CHECK_R(c, rd->IsFinalized(), "finalized", what, false);
  return true;
}

// Every layout, single and layered, and ambisonics of each order.
void Random(Ctx& c) {
  Rng& r = c.rng;
  ref::GenOpt o; o.expanded_all = true;
  World w = Make(r, r.Chance(1, 3) ? GenAmbi(r) : ref::GenElem(r, o, 255));
  for (int k = 0; k < 4; ++k) if (!Run(c, w, static_cast<int>(r.Range(-1, 14)), r.Chance(1, 2) ? 0 : static_cast<int>(r.Range(1, 3)))) return;
  if (r.Chance(1, 3) && !Run(c, w, -1, 1)) return;
}
// Each layout and expanded layout against each playback layout, in turn.
void Sweep(Ctx& c) {
  Rng& r = c.rng;
  const int combos = 30 * 16;
  int k = static_cast<int>(c.index % combos);
  int lay = k / 16, ss = k % 16 - 1;
  Elem el;
  ref::Layer l;
  l.layout = static_cast<uint8_t>(lay < 10 ? lay : 15); l.expanded = static_cast<uint8_t>(lay < 10 ? 0 : lay - 10);
  el.e.type = 0; el.subs = ref::LayoutSubs(l.layout, l.layout == 15 ? l.expanded : -1);
  l.sub = static_cast<uint8_t>(el.subs.size()); l.coupled = 0;
  for (auto& s : el.subs) l.coupled += s.size() == 2;
  el.e.layers = {l}; el.e.num_params.reset();
  World w = Make(r, el);
  if (!Run(c, w, ss, 0)) return;
  c.Count("pairs-swept");
}
// Elements of a shape no renderer takes.
void Refused(Ctx& c) {
  Rng& r = c.rng;
  ref::GenOpt o;
  World w = Make(r, r.Bool() ? GenAmbi(r) : ref::GenElem(r, o, 64));
  auto type = w.obu.GetAudioElementType();
  auto config = w.obu.config_;
  auto ids = w.obu.audio_substream_ids_;
  auto labels = w.labels;
  int ss = static_cast<int>(r.Range(-1, 14));
  Layout lay = ToLayout(ss);
  std::string how;
  const int kind = static_cast<int>(r.Below(7));
  if (kind == 0) { how = "objects"; type = AudioElementObu::kAudioElementObjectBased; }
  else if (kind == 1) { how = "reserved type"; type = static_cast<AudioElementObu::AudioElementType>(r.Range(3, 7)); }
  else if (kind == 2) { how = "config of another type"; config = type == AudioElementObu::kAudioElementChannelBased ? AudioElementObu::AudioElementConfig(ExtensionConfig{}) : AudioElementObu::AudioElementConfig(ScalableChannelLayoutConfig{}); }
  else if (kind == 3) { how = "no layers"; type = AudioElementObu::kAudioElementChannelBased; config = ScalableChannelLayoutConfig{}; }
  else if (kind == 4) { how = "reserved layout"; lay.layout_type = static_cast<Layout::LayoutType>(r.Below(2)); lay.specific_layout = LoudspeakersReservedOrBinauralLayout{}; if (w.el.e.type == 0) { } }
  else if (kind == 5) { how = "reserved sound system"; lay = ToLayout(15); }
  else { how = "substreams without labels"; if (!w.el.Ambisonics()) return; if (r.Bool()) labels.erase(ids[r.Below(ids.size())]); else ids.pop_back(); }
  c.Eval();
  RenderingConfig rc; rc.headphones_rendering_mode = RenderingConfig::kHeadphonesRenderingModeStereo;
  RendererFactory f;
  auto rd = f.CreateRendererForLayout(ids, labels, type, config, rc, lay, 8, 48000);
  V_CHECK(c, rd == nullptr, "made for " + how, Describe(w, ss, 0));
  c.Count("refused");
  c.Distinct(HashStr(how + Describe(w, ss, 0)));
}
}  // namespace
V_MAIN({{"random", 18000, 300000, Random}, {"sweep", 5760, 9600, Sweep}, {"refused", 4500, 30000, Refused}})
