// C14: demixing parameters, down-mixing into substreams, reconstruction from substreams and output gains,
// against the equations of the specification; and whole streams with all of them through the decoder.
#include <cmath>
#include "harness/decwork.h"
#include "harness/encwork.h"
#include "harness/ref/labels.h"
#include "iamf/cli/audio_element_with_data.h"
#include "iamf/cli/audio_frame_with_data.h"
#include "iamf/cli/demixing_manager.h"
#include "iamf/cli/descriptor_obu_parser.h"
#include "iamf/cli/descriptor_obus.h"
#include "iamf/cli/downmixer_factory.h"
#include "iamf/cli/downmixer_manager.h"
#include "iamf/cli/parameters_manager.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/obu/demixing_info_parameter_data.h"
#include "iamf/obu/parameter_block.h"
using namespace iamf_tools;
using namespace decwork;
using ref::Bytes;
using ref::Lp;
namespace {
typedef DemixingInfoParameterData Dm;
constexpr int kModes[] = {0, 1, 2, 4, 5, 6};
int Offset(int mode) { return mode < 4 ? -1 : 1; }
std::string Show(const DownMixingParams& p) { std::ostringstream o; o << "alpha " << p.alpha << " beta " << p.beta << " gamma " << p.gamma << " delta " << p.delta << " offset " << p.w_idx_offset << " used " << p.w_idx_used << " w " << p.w << " bitstream " << p.in_bitstream; return o.str(); }
std::string Diff(const DownMixingParams& p, int mode, int w) {
  auto q = ref::DemixByMode(mode, w);
  bool ok = p.alpha == q.a && p.beta == q.b && p.gamma == q.g && p.delta == q.d && p.w == q.w && p.w_idx_used == w && p.w_idx_offset == Offset(mode) && p.in_bitstream;
  return ok ? "" : Show(p) + " for mode " + std::to_string(mode) + " w_idx " + std::to_string(w);
}

void Modes(Ctx& c) {
  int mode = static_cast<int>(c.index % 8), prev = static_cast<int>(c.index / 8 % 13) - 1, rule = static_cast<int>(c.index / 104 % 3);
  DownMixingParams p{9, 9, 9, 9, 9, 9, 9, false};
  auto s = Dm::DMixPModeToDownMixingParams(static_cast<Dm::DMixPMode>(mode), prev, static_cast<Dm::WIdxUpdateRule>(rule), p);
  c.Eval();
  bool known = mode != 3 && mode != 7;
  int w = rule == Dm::kFirstFrame ? 0 : rule == Dm::kDefault ? prev : known ? std::clamp(prev + Offset(mode), 0, 10) : 0;
  std::string what = "mode " + std::to_string(mode) + " previous w " + std::to_string(prev) + " rule " + std::to_string(rule);
  if (!known || w < 0 || w > 10) { V_CHECK(c, !s.ok(), "mode-accepted", what); c.Count("modes-refused"); return; }
  V_CHECK(c, s.ok(), "mode-refused", what + ": " + s.ToString());
  auto d = Diff(p, mode, w);
  V_CHECK(c, d.empty(), "mode-values", what + ": " + d);
  c.Count("modes"); c.Distinct(Mix(c.index % 312));
}

absl::StatusOr<DescriptorObus> Parse(const ref::Stream& st) {
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(st.descriptors));
  bool insufficient = false;
  return DescriptorObuParser::ProcessDescriptorObus(true, *rb, insufficient);
}
// Gives elements demixing and recon gain definitions, some of them shared.
void AddParams(Rng& r, ref::Stream& st) {
  uint32_t n = st.codec.nsamples;
  std::optional<ref::Pd> shared_d;
  uint32_t next = 200;
  for (auto& el : st.elems) {
    el.e.params.clear();
    if (el.Ambisonics()) continue;
    if (r.Chance(3, 4)) {
      ref::Pd p; p.type = 1; p.id = next++; p.rate = st.codec.lpcm.rate; p.s.dur = p.s.csd = n; p.dmode = static_cast<uint8_t>(r.Pick(std::vector<int>(kModes, kModes + 6))); p.dw = static_cast<uint8_t>(r.Below(11));
      if (shared_d && r.Bool()) p = *shared_d;
      shared_d = p;
      el.e.params.push_back(p);
    }
    if (r.Bool()) {
      ref::Pd p; p.type = 2; p.id = next++; p.rate = st.codec.lpcm.rate; p.s.dur = p.s.csd = n;
      el.e.params.push_back(p);
      bool any = false;
      for (auto& l : el.e.layers) { l.rg = r.Bool(); any |= l.rg; }
      (void)any;
    }
    r.Shuffle(el.e.params);
  }
  ref::EncodeStream(r, st, Lp{});
}
std::unique_ptr<ParameterBlockWithData> Block(const ref::PBlock& b, const ParamDefinition& def, int64_t start, int64_t end) {
  auto bytes = ref::EncodePBlock(b, Lp{});
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(bytes));
  auto o = ParameterBlockObu::CreateFromBuffer(ObuHeader{}, static_cast<int64_t>(bytes.size()), def, *rb);
  if (!o.ok()) HarnessBug("block " + o.status().ToString());
  return std::make_unique<ParameterBlockWithData>(ParameterBlockWithData{std::move(*o), start, end});
}

void Params(Ctx& c) {
  Rng& r = c.rng;
  ref::GenOpt g; g.max_tus = 0; g.max_mixes = 1; g.scalable_only = r.Chance(1, 2);
  auto st = ref::GenStream(r, g);
  AddParams(r, st);
  auto d = Parse(st);
  if (!d.ok()) HarnessBug("parse " + d.status().ToString());
  auto pm = ParametersManager::Create(d->audio_elements);
  V_CHECK(c, pm.ok(), "manager", pm.status().ToString());
  auto& m = **pm;
  std::string log;
  struct State { const ref::Pd* dd = nullptr; const ref::Pd* rd = nullptr; int prev = 0, used = 0; bool first = true; int64_t next_d = 0, next_r = 0; const ref::PBlock* db = nullptr; int64_t ds = 0, de = 0; const ref::PBlock* rb = nullptr; int64_t rs = 0, re = 0; bool got = false; };
  std::map<uint32_t, State> state;
  for (auto& el : st.elems) { State s; for (auto& p : el.e.params) (p.type == 1 ? s.dd : s.rd) = &p; state[el.e.id] = s; }
  std::vector<std::unique_ptr<ParameterBlockWithData>> keep;
  std::list<ref::PBlock> blocks;
  auto def_of = [&](uint32_t el, int type) -> const ParamDefinition& {
    for (auto& p : d->audio_elements.at(el).obu.audio_element_params_) {
      if (type == 1) if (auto* x = std::get_if<DemixingParamDefinition>(&p.param_definition)) return *x;
      if (type == 2) if (auto* x = std::get_if<ReconGainParamDefinition>(&p.param_definition)) return *x;
    }
    HarnessBug("definition");
  };
  const uint32_t N = st.codec.nsamples;
  int frames = static_cast<int>(r.Range(1, 25));
  uint64_t h = HashVec(st.descriptors);
  // Blocks always, sometimes, or never.
  std::map<uint32_t, int> habit; for (auto& el : st.elems) for (auto& p : el.e.params) habit[p.id] = static_cast<int>(r.Below(4));
  std::map<uint32_t, int> trend;
  for (int k = 0; k < frames; ++k) {
    int64_t start = int64_t{N} * k, end = start + N;
    // Blocks for this frame.
    std::set<uint32_t> done;
    for (auto& el : st.elems) for (auto& p : el.e.params) {
      if (!done.insert(p.id).second) continue;
      int hb = habit[p.id];
      if (hb == 0 || (hb == 3 && r.Chance(1, 20))) continue;
      ref::PBlock b; b.def = p; b.s = p.s;
      if (p.type == 2) for (auto& l : el.e.layers) b.recon_flags.push_back(l.rg);
      ref::PData pd;
      if (p.type == 1) { if (r.Chance(1, 6) || !trend.count(p.id)) trend[p.id] = static_cast<int>(r.Below(2)); pd.dmode = static_cast<uint8_t>(r.Chance(3, 4) ? kModes[3 * trend[p.id] + r.Below(3)] : kModes[r.Below(6)]); pd.dres = r.U8() & 31; }
      else for (auto& l : el.e.layers) { std::optional<ref::Recon> q; if (l.rg) { q.emplace(); q->flags = static_cast<uint32_t>(r.Below(4096)); for (auto& x : q->g) x = r.U8(); } pd.recon.push_back(q); }
      b.data = {pd};
      blocks.push_back(b);
      int64_t s = start, e = end;
      if (r.Chance(1, 60)) { s += r.Range(-3, 3); log += " odd-start"; }
      if (r.Chance(1, 60)) { e += r.Range(-3, 3); log += " odd-end"; }
      if (p.type == 1) keep.push_back(Block(b, def_of(el.e.id, 1), s, e));
      else {
        auto rd = dynamic_cast<const ReconGainParamDefinition&>(def_of(el.e.id, 2));
        for (auto& l : el.e.layers) rd.aux_data_.push_back({static_cast<bool>(l.rg), {}});
        keep.push_back(Block(b, rd, s, e));
      }
      log += " f" + std::to_string(k) + ":block id " + std::to_string(p.id) + " mode " + std::to_string(pd.dmode);
      if (p.type == 1) { m.AddDemixingParameterBlock(keep.back().get()); for (auto& [id, x] : state) if (x.dd && x.dd->id == p.id) { x.db = &blocks.back(); x.ds = s; x.de = e; } }
      else { m.AddReconGainParameterBlock(keep.back().get()); for (auto& [id, x] : state) if (x.rd && x.rd->id == p.id) { x.rb = &blocks.back(); x.rs = s; x.re = e; } }
      c.Count("blocks");
    }
    for (auto& el : st.elems) {
      auto& x = state[el.e.id];
      c.Eval();
      V_CHECK(c, m.DemixingParamDefinitionAvailable(el.e.id) == (x.dd != nullptr), "available", std::to_string(el.e.id));
      for (int again = r.Chance(1, 4) ? 2 : 1; again > 0; --again) {
        DownMixingParams p{9, 9, 9, 9, 9, 9, 9, false};
        auto s = m.GetDownMixingParameters(el.e.id, p);
        std::string what = "frame " + std::to_string(k) + " element " + std::to_string(el.e.id) + " log" + log;
        if (!x.dd) {
          V_CHECK(c, s.ok() && p.alpha == 0.707 && p.beta == 0.707 && p.gamma == 0.707 && p.delta == 0.707 && p.w == 0 && !p.in_bitstream, "no-definition", s.ToString() + " " + Show(p) + " " + what);
          c.Count("no-definition");
        } else if (!x.db) {
          V_CHECK(c, s.ok(), "default-refused", s.ToString() + " " + what);
          auto q = ref::DemixByMode(x.dd->dmode, x.dd->dw);
          V_CHECK(c, p.alpha == q.a && p.beta == q.b && p.gamma == q.g && p.delta == q.d && p.w == q.w && p.w_idx_used == x.dd->dw && p.in_bitstream, "default-values", Show(p) + " instead of mode " + std::to_string(x.dd->dmode) + " w " + std::to_string(x.dd->dw) + " " + what);
          c.Count("defaults");
        } else if (x.ds != x.next_d) {
          V_CHECK(c, !s.ok(), "misplaced-block", what + " block at " + std::to_string(x.ds) + " expected " + std::to_string(x.next_d));
          c.Count("misplaced"); return;
        } else {
          V_CHECK(c, s.ok(), "block-refused", s.ToString() + " " + what);
          int mode = x.db->data[0].dmode, w = x.first ? 0 : std::clamp(x.prev + Offset(mode), 0, 10);
          auto df = Diff(p, mode, w);
          V_CHECK(c, df.empty(), "block-values", df + " " + what);
          x.used = w;
          c.Count(x.first ? "first-frame" : w == 0 || w == 10 ? "w-at-limit" : "w-moves");
          h = Mix(h ^ (w * 8 + mode));
        }
      }
      ReconGainInfoParameterData rg;
      int layers = static_cast<int>(el.e.layers.size());
      int ask = r.Chance(1, 10) ? layers + 1 : r.Chance(1, 10) ? 0 : layers;
      auto s = m.GetReconGainInfoParameterData(el.e.id, ask, rg);
      std::string what = "frame " + std::to_string(k) + " element " + std::to_string(el.e.id) + " layers " + std::to_string(ask) + " log" + log;
      if (!x.rd || !x.rb) {
        V_CHECK(c, s.ok() && rg.recon_gain_elements.size() == static_cast<size_t>(ask), "recon-default", s.ToString() + " " + what);
        for (auto& e : rg.recon_gain_elements) { V_CHECK(c, e.has_value() && e->recon_gain_flag == 0, "recon-default", "flags " + what); for (auto v : e->recon_gain) V_CHECK(c, v == 255, "recon-default", "gain " + what); }
        c.Count("recon-defaults");
      } else if (x.rs != x.next_r || (ask > 0 && ask != layers)) {
        V_CHECK(c, !s.ok(), "recon-accepted", what);
        c.Count("recon-refused");
        if (x.rs != x.next_r) return;
      } else {
        V_CHECK(c, s.ok() && rg.recon_gain_elements.size() == static_cast<size_t>(layers), "recon-refused", s.ToString() + " " + what);
        for (int l = 0; l < layers; ++l) {
          auto& want = x.rb->data[0].recon[l]; auto& got = rg.recon_gain_elements[l];
          V_CHECK(c, want.has_value() == got.has_value(), "recon-presence", what);
          if (!want) continue;
          V_CHECK(c, got->recon_gain_flag == want->flags, "recon-flags", what);
          for (int i = 0; i < 12; ++i) if (want->flags >> i & 1) V_CHECK(c, got->recon_gain[i] == want->g[i], "recon-gain", what);
        }
        c.Count("recon-blocks");
      }
    }
    // Move on.
    for (auto& el : st.elems) {
      auto& x = state[el.e.id];
      auto s = m.UpdateDemixingState(el.e.id, end);
      if (x.dd && x.db) {
        if (x.de != end) { V_CHECK(c, !s.ok(), "update-accepted", "block ends " + std::to_string(x.de) + " expected " + std::to_string(end) + " log" + log); c.Count("updates-refused"); return; }
        x.next_d = x.de; x.prev = x.used; x.first = false; x.db = nullptr;
      }
      V_CHECK(c, s.ok(), "update-refused", s.ToString() + " log" + log);
      s = m.UpdateReconGainState(el.e.id, end);
      if (x.rd && x.rb) {
        if (x.re != end) { V_CHECK(c, !s.ok(), "update-accepted", "recon log" + log); c.Count("updates-refused"); return; }
        x.next_r = x.re; x.rb = nullptr;
      }
      V_CHECK(c, s.ok(), "update-refused", s.ToString() + " recon log" + log);
    }
  }
  c.Count("histories"); c.Distinct(h);
  if (c.WantSample()) c.Sample(std::to_string(st.elems.size()) + " elements, " + std::to_string(frames) + " frames:" + log.substr(0, 200));
}

ref::DemixParams GenParams(Rng& r) {
  if (r.Bool()) return ref::DemixByMode(kModes[r.Below(6)], static_cast<int>(r.Below(11)));
  ref::DemixParams p; p.a = r.Real(0, 1.5); p.b = r.Real(0.2, 1.5); p.g = r.Real(0.2, 1.5); p.d = r.Real(0.2, 1.5); p.w = r.Real(0, 0.5); p.in_bitstream = r.Bool();
  return p;
}
DownMixingParams ToDm(const ref::DemixParams& p) { return {p.a, p.b, p.g, p.d, 0, 0, p.w, p.in_bitstream}; }
std::string Kind(const ref::Elem& el) { std::string s; for (auto& l : el.e.layers) s += " " + std::to_string(l.layout) + (l.og ? "(og " + std::to_string(l.og_flags) + " " + std::to_string(l.gain) + ")" : ""); return el.Ambisonics() ? "ambisonics" : "layers" + s; }
std::vector<double> Samples(Rng& r, size_t n) {
  std::vector<double> v(n);
  int k = static_cast<int>(r.Below(4)); double a = r.Chance(1, 4) ? 1.0 : std::pow(10.0, -r.Real(0, 5));
  for (auto& x : v) x = k == 0 ? 0 : k == 1 ? (r.Bool() ? a : -a) : a * r.Real(-1, 1);
  return v;
}
// The samples of each label, as the code holds them.
typedef std::map<ChannelLabel::Label, std::vector<double>> ByLabel;

void Paths(Ctx& c) {
  Rng& r = c.rng;
  ref::GenOpt g; g.max_tus = 0; g.max_mixes = 1; g.max_frame = 12; g.output_gains = true; g.scalable_only = r.Chance(2, 3);
  auto st = ref::GenStream(r, g);
  auto d = Parse(st);
  V_CHECK(c, d.ok(), "parse", d.status().ToString() + " " + Hex(st.descriptors, 200));
  const size_t N = st.codec.nsamples;
  // What the parser says of each element.
  for (auto& el : st.elems) {
    auto it = d->audio_elements.find(el.e.id);
    V_CHECK(c, it != d->audio_elements.end(), "element", std::to_string(el.e.id));
    auto labels = ref::SubstreamLabels(el);
    for (size_t i = 0; i < labels.size(); ++i) {
      auto f = it->second.substream_id_to_labels.find(el.e.subs[i]);
      V_CHECK(c, f != it->second.substream_id_to_labels.end() && std::vector<ref::CLabel>(f->second.begin(), f->second.end()) == labels[i], "labels", "substream " + std::to_string(el.e.subs[i]) + " of " + Kind(el));
    }
    std::map<ref::CLabel, double> want;
    size_t at = 0;
    for (auto& l : el.e.layers) for (int q = 0; q < l.sub; ++q, ++at) for (auto& n : el.subs[at]) if (l.og && l.layout != 15 && (l.og_flags & ref::GainBit(n))) want[ref::LabelOf(n)] = l.gain / 256.0;
    std::map<ref::CLabel, double> got; for (auto& [l, v] : it->second.label_to_output_gain) got[l] = v;
    V_CHECK(c, got == want, "gain-labels", std::to_string(got.size()) + " gains instead of " + std::to_string(want.size()) + " in " + Kind(el));
    if (!want.empty()) c.Count("elements-with-gains");
  }
  auto linear = [&](const ref::Elem& el, size_t sub, size_t ch) {
    size_t at = 0;
    for (auto& l : el.e.layers) { if (sub < at + l.sub) return l.og && (l.og_flags & ref::GainBit(el.subs[sub][ch])) ? std::pow(10.0, l.gain / 256.0 / 20) : 1.0; at += l.sub; }
    return 1.0;
  };
  // Down-mixing, element by element, in chunks that need not be frames.
  absl::flat_hash_map<DecodedUleb128, DownmixerManager::DownmixingConfig> cfg;
  bool pass = !g.scalable_only && r.Chance(1, 3);
  for (auto& el : st.elems) {
    auto& a = d->audio_elements.at(el.e.id);
    absl::flat_hash_set<ChannelLabel::Label> top;
    if (!el.Ambisonics()) for (auto& n : ref::LayoutOrder(el.e.layers.back().layout, el.e.layers.back().layout == 15 ? el.e.layers.back().expanded : -1)) if (!n.empty()) top.insert(ref::LabelOf(n));
    auto dm = DownmixerFactory::CreateScalableChannelDownmixers(top, a.substream_id_to_labels);
    V_CHECK(c, dm.ok(), "downmixers", dm.status().ToString());
    int s1 = 0, l1 = 0, h1 = 0, s0 = 0, h0 = 0;
    if (el.scalable) { ref::LayoutNumbers(el.e.layers.back().layout, s1, l1, h1); ref::LayoutNumbers(el.e.layers[0].layout, s0, l1, h0); }
    bool heights = el.scalable && h1 > 0 && [&] { for (auto& l : el.e.layers) { int s, f, h; ref::LayoutNumbers(l.layout, s, f, h); if ((h == 4 && h1 == 4) || h == 0) continue; if (h != h1 || (s == 3) != (s1 == 3)) return true; } return false; }();
    bool any = s1 > s0 || heights;
    V_CHECK(c, dm->empty() == !any, "downmixer-count", std::to_string(dm->size()) + " for " + Kind(el));
    cfg[el.e.id] = {std::move(*dm), a.substream_id_to_labels, a.label_to_output_gain};
  }
  auto mgr = pass ? DownmixerManager::MakeForPassthrough(d->audio_elements) : DownmixerManager::Make(std::move(cfg));
  for (auto& el : st.elems) {
    c.Eval();
    if (pass && el.scalable) continue;
    auto names = enc::InputNames(el);
    auto blank = [&] { absl::flat_hash_map<uint32_t, SubstreamData> data; data.reserve(el.subs.size()); for (size_t i = 0; i < el.subs.size(); ++i) data.insert({el.e.subs[i], SubstreamData{el.e.subs[i], SubstreamFrames<InternalSampleType>(names[i].size(), N), SubstreamFrames<int32_t>(names[i].size(), N), {}, 0, 0}}); return data; };
    auto data = blank();
    ref::Names in;
    if (el.Ambisonics()) { for (auto& s : names) for (auto& n : s) in.push_back(n); }
    else for (auto& n : ref::LayoutOrder(el.e.layers.back().layout, el.e.layers.back().layout == 15 ? el.e.layers.back().expanded : -1)) if (!n.empty()) in.push_back(n);
    std::vector<std::vector<std::vector<double>>> want(names.size());
    for (size_t i = 0; i < names.size(); ++i) want[i].resize(names[i].size());
    int chunks = static_cast<int>(r.Range(1, 4)); size_t total = 0;
    for (int k = 0; k < chunks; ++k) {
      size_t n = r.Bool() ? N : static_cast<size_t>(r.Range(0, static_cast<int64_t>(2 * N + 2)));
      auto p = GenParams(r);
      ref::Labels x; for (auto& l : in) x[l] = Samples(r, n);
      LabelSamplesMap map; for (auto& [l, v] : x) map[ref::LabelOf(l)] = v;
      if (!in.empty() && r.Chance(1, 25)) {  // an input channel is missing
        LabelSamplesMap less = map; less.erase(ref::LabelOf(r.Pick(in)));
        absl::flat_hash_map<uint32_t, SubstreamData> other = blank();
        auto s = mgr->DownMixSamplesToSubstreams(el.e.id, ToDm(p), less, other);
        V_CHECK(c, !s.ok(), "missing-channel", "a channel missing of " + Kind(el));
        c.Count("downmix-refused");
      }
      auto s = mgr->DownMixSamplesToSubstreams(el.e.id, ToDm(p), map, data);
      V_CHECK(c, s.ok(), "downmix-refused", s.ToString() + " " + Kind(el));
      if (el.scalable) {
        auto original = x;
        enc::Downmix(x, p);
        // The two references are each other's inverse.
        ref::Labels sent; for (auto& q : names) for (auto& l : q) sent[l] = x.at(l);
        ref::Demix(sent, el, p);
        for (auto& [l, v] : original) for (size_t t = 0; t < v.size(); ++t) if (std::fabs(sent.at(l)[t] - v[t]) > 1e-9) HarnessBug("the references disagree on " + l);
      }
      for (size_t i = 0; i < names.size(); ++i) for (size_t q = 0; q < names[i].size(); ++q) { auto& v = x.at(names[i][q]); want[i][q].insert(want[i][q].end(), v.begin(), v.end()); }
      total += n;
    }
    if (size_t rest = total % N; rest || total == 0) for (size_t i = 0; i < names.size(); ++i) {
      int pad = static_cast<int>(N - rest);
      data.at(el.e.subs[i]).frames_in_obu.PadZeros(pad); data.at(el.e.subs[i]).frames_to_encode.PadZeros(pad);
      for (auto& v : want[i]) v.resize(total + pad, 0.0);
    }
    size_t full = (total + N - 1) / N; if (full == 0) full = 1;
    for (size_t i = 0; i < names.size(); ++i) {
      auto& sd = data.at(el.e.subs[i]);
      for (size_t k = 0; k < full; ++k) {
        std::string what = "frame " + std::to_string(k) + " of substream " + std::to_string(el.e.subs[i]) + " of " + Kind(el);
        V_CHECK(c, !sd.frames_in_obu.Empty() && !sd.frames_to_encode.Empty(), "frames-missing", what);
        auto& f = sd.frames_in_obu.Front(); auto& e = sd.frames_to_encode.Front();
        V_CHECK(c, f.size() == names[i].size() && e.size() == names[i].size(), "frame-channels", what);
        for (size_t q = 0; q < names[i].size(); ++q) {
          V_CHECK(c, f[q].size() == N && e[q].size() == N, "frame-size", what + ": " + std::to_string(f[q].size()) + "/" + std::to_string(e[q].size()) + " instead of " + std::to_string(N));
          double gain = linear(el, i, q);
          for (size_t t = 0; t < N; ++t) {
            double v = want[i][q][k * N + t], y = v / gain * 2147483648.0, tol = 1.0 + 1e-9 * std::fabs(y);
            V_CHECK(c, std::fabs(f[q][t] - v) <= 1e-9 * (1 + std::fabs(v)), "downmix-value", names[i][q] + " tick " + std::to_string(t) + " " + what + ": " + std::to_string(f[q][t]) + " instead of " + std::to_string(v));
            V_CHECK(c, e[q][t] >= ClampI32(y - tol) && e[q][t] <= ClampI32(y + tol), "downmix-encoded", names[i][q] + " tick " + std::to_string(t) + " " + what + ": " + std::to_string(e[q][t]) + " instead of " + std::to_string(y));
          }
        }
        sd.frames_in_obu.PopFront(); sd.frames_to_encode.PopFront();
      }
      V_CHECK(c, sd.frames_in_obu.Empty() && sd.frames_to_encode.Empty(), "frames-left", Kind(el));
    }
    c.Count(el.scalable ? "downmixed-scalable" : "downmixed-plain");
    data = blank();
    LabelSamplesMap map; for (auto& l : in) map[ref::LabelOf(l)] = Samples(r, N);
    uint32_t other = 1; while (d->audio_elements.contains(other)) ++other;
    V_CHECK(c, !mgr->DownMixSamplesToSubstreams(other, ToDm(GenParams(r)), map, data).ok(), "unknown-element", "");
    data.erase(el.e.subs[r.Below(el.e.subs.size())]);
    V_CHECK(c, !mgr->DownMixSamplesToSubstreams(el.e.id, ToDm(GenParams(r)), map, data).ok(), "unknown-substream", "");
  }
  // Reconstruction.
  auto dx = DemixingManager::Create(DemixingManager::CreateIdToReconstructionConfig(d->audio_elements));
  V_CHECK(c, dx.ok(), "demixers", dx.status().ToString());
  struct Sub { size_t el, sub; std::vector<std::vector<double>> enc, dec; };
  std::list<Sub> store;
  std::list<AudioFrameWithData> frames;
  std::map<uint32_t, ref::DemixParams> params;
  std::map<uint32_t, ReconGainInfoParameterData> recon;
  uint32_t te = static_cast<uint32_t>(r.Below(N + 1)), ts = static_cast<uint32_t>(r.Below(N + 1));
  int64_t start = static_cast<int64_t>(r.Below(5000));
  std::vector<std::pair<size_t, size_t>> order;
  for (size_t i = 0; i < st.elems.size(); ++i) for (size_t s = 0; s < st.elems[i].subs.size(); ++s) order.push_back({i, s});
  r.Shuffle(order);
  bool with_data = r.Chance(4, 5);
  for (auto& el : st.elems) {
    params[el.e.id] = GenParams(r);
    for (size_t l = 0; l < el.e.layers.size(); ++l) { ReconGainElement e; e.recon_gain_flag = static_cast<uint32_t>(r.Below(4096)); for (auto& v : e.recon_gain) v = r.U8(); std::optional<ReconGainElement> o; if (r.Chance(3, 4)) o = e; recon[el.e.id].recon_gain_elements.push_back(o); }
  }
  // A parameter that cannot be divided by.
  ref::Elem* zero_el = nullptr; bool must_fail = false;
  if (r.Chance(1, 10)) { zero_el = &st.elems[r.Below(st.elems.size())]; auto& p = params[zero_el->e.id]; double v = r.Pick(std::vector<double>{0, 1e-6, -1e-6});
    int s0 = 0, s1 = 0, l, h0 = 0, h1 = 0; if (zero_el->scalable) { ref::LayoutNumbers(zero_el->e.layers[0].layout, s0, l, h0); ref::LayoutNumbers(zero_el->e.layers.back().layout, s1, l, h1); }
    bool two = false; if (zero_el->scalable) for (auto& y : zero_el->e.layers) { int a, b, h; ref::LayoutNumbers(y.layout, a, b, h); two |= h == 2; }
    switch (r.Below(3)) { case 0: p.b = v; must_fail = zero_el->scalable && s0 <= 5 && s1 >= 7; break; case 1: p.d = v; must_fail = zero_el->scalable && s0 <= 3 && s1 >= 5; break; default: p.g = v; must_fail = zero_el->scalable && h1 == 4 && two; } }
  for (auto& [i, s] : order) {
    auto& el = st.elems[i];
    store.push_back({i, s, {}, {}});
    auto& k = store.back();
    for (size_t q = 0; q < el.subs[s].size(); ++q) { k.enc.push_back(Samples(r, N)); k.dec.push_back(Samples(r, N)); }
    ObuHeader h; h.num_samples_to_trim_at_end = te; h.num_samples_to_trim_at_start = ts;
    frames.push_back(AudioFrameWithData{AudioFrameObu(h, el.e.subs[s], {}), start, start + static_cast<int64_t>(N), k.enc, absl::MakeConstSpan(k.dec), ToDm(params[el.e.id]), recon[el.e.id], with_data ? &d->audio_elements.at(el.e.id) : nullptr});
  }
  if (r.Chance(1, 4)) {  // a frame of nobody
    uint32_t id = 1; for (bool again = true; again; ) { again = false; for (auto& el : st.elems) for (auto x : el.e.subs) if (x == id) { ++id; again = true; } }
    auto f = frames.front(); frames.insert(std::next(frames.begin(), static_cast<int64_t>(r.Below(frames.size() + 1))), AudioFrameWithData{AudioFrameObu(ObuHeader{}, id, {}), start, start + static_cast<int64_t>(N), std::nullopt, {}, DownMixingParams{}, {}, nullptr});
    c.Count("foreign-frames");
  }
  // Sometimes something is wrong with one frame.
  int harm = 0; bool harm_dec = false, harm_enc = false;
  std::vector<std::vector<double>> bad;
  if (!must_fail && r.Chance(1, 6)) {
    harm = 1 + static_cast<int>(r.Below(5));
    auto it = std::next(frames.begin(), static_cast<int64_t>(r.Below(frames.size())));
    bool owned = false; for (auto& el : st.elems) for (auto x : el.e.subs) owned |= x == it->obu.GetSubstreamId();
    if (!owned) harm = 0;
    // The element's other frames, to tell a lone frame from a mismatched one.
    size_t mates = 0; for (auto& el : st.elems) for (auto x : el.e.subs) if (x == it->obu.GetSubstreamId()) mates = el.e.subs.size();
    switch (harm) {
      case 1: if (store.size() < 2) { harm = 0; break; } it->start_timestamp += r.Pick(std::vector<int>{1, -1, 8}); harm_dec = harm_enc = true; break;
      case 2: it->decoded_samples = {}; harm_dec = true; break;
      case 3: it->encoded_samples.reset(); harm_enc = true; break;
      case 4: { bad.assign(it->decoded_samples.begin(), it->decoded_samples.end()); if (mates < 2 && bad.size() < 2) { harm = 0; break; } bad[0].resize(N + 1); it->decoded_samples = absl::MakeConstSpan(bad); it->encoded_samples = bad; harm_dec = harm_enc = true; break; }
      case 5: { bad.assign(it->decoded_samples.begin(), it->decoded_samples.end()); if (bad.size() == 2) bad.pop_back(); else bad.push_back(bad[0]); it->decoded_samples = absl::MakeConstSpan(bad); it->encoded_samples = bad; harm_dec = harm_enc = true; break; }
    }
    // Everything misaligned but aligned with each other cannot be told from a moved first frame.
  }
  for (int decoded = 0; decoded < 2; ++decoded) {
    auto got = decoded ? dx->DemixDecodedAudioSamples(frames) : dx->DemixOriginalAudioSamples(frames);
    c.Eval();
    std::string what = decoded ? "decoded" : "original";
    if (must_fail || (decoded ? harm_dec : harm_enc)) { V_CHECK(c, !got.ok(), "demix-accepted", what + " harm " + std::to_string(harm)); c.Count("demix-refused"); continue; }
    V_CHECK(c, got.ok(), "demix-refused", got.status().ToString() + " " + what);
    V_CHECK(c, got->size() == st.elems.size(), "demix-elements", what);
    for (size_t i = 0; i < st.elems.size(); ++i) {
      auto& el = st.elems[i];
      auto& f = got->at(el.e.id);
      std::string w = what + " " + Kind(el);
      V_CHECK(c, f.samples_to_trim_at_end == te && f.samples_to_trim_at_start == ts, "demix-trims", w);
      auto p = ToDm(params[el.e.id]);
      V_CHECK(c, f.demixing_params == p, "demix-params", w);
      auto labels = ref::SubstreamLabels(el);
      ByLabel want; ref::Labels x;
      for (auto& k : store) if (k.el == i) for (size_t q = 0; q < labels[k.sub].size(); ++q) {
        auto v = decoded ? k.dec[q] : k.enc[q];
        if (decoded) { double gn = linear(el, k.sub, q); for (auto& y : v) y *= gn; }
        want[labels[k.sub][q]] = v; x[el.subs[k.sub][q]] = v;
      }
      if (el.scalable) {
        auto sent = x; ref::Demix(x, el, params[el.e.id]);
        for (auto& [n, v] : x) if (!sent.count(n)) want[ref::LabelOf("D:" + n)] = v;
      }
      V_CHECK(c, f.label_to_samples.size() == want.size(), "demix-labels", std::to_string(f.label_to_samples.size()) + " labels instead of " + std::to_string(want.size()) + " " + w);
      for (auto& [l, v] : want) {
        auto it = f.label_to_samples.find(l);
        V_CHECK(c, it != f.label_to_samples.end() && it->second.size() == v.size(), "demix-labels", "label " + std::to_string(l) + " " + w);
        for (size_t t = 0; t < v.size(); ++t) V_CHECK(c, std::fabs(it->second[t] - v[t]) <= 1e-9 * (1 + std::fabs(v[t])) * 100, "demix-value", "label " + std::to_string(l) + " tick " + std::to_string(t) + ": " + std::to_string(it->second[t]) + " instead of " + std::to_string(v[t]) + " " + w);
      }
      if (decoded && with_data && el.e.type == 0) {
        V_CHECK(c, f.loudspeaker_layout_per_layer.size() == el.e.layers.size(), "demix-layers", w);
        for (size_t l = 0; l < el.e.layers.size(); ++l) V_CHECK(c, static_cast<int>(f.loudspeaker_layout_per_layer[l]) == el.e.layers[l].layout, "demix-layers", w);
        auto& rg = recon[el.e.id].recon_gain_elements;
        V_CHECK(c, f.recon_gain_info_parameter_data.recon_gain_elements.size() == rg.size(), "demix-recon", w);
        for (size_t l = 0; l < rg.size(); ++l) { auto& a = f.recon_gain_info_parameter_data.recon_gain_elements[l]; V_CHECK(c, a.has_value() == rg[l].has_value() && (!a || (a->recon_gain_flag == rg[l]->recon_gain_flag && a->recon_gain == rg[l]->recon_gain)), "demix-recon", w); }
      }
      c.Count(std::string(decoded ? "reconstructed" : "original") + (el.scalable ? "-scalable" : "-plain"));
    }
    if (c.WantSample()) c.Sample(what + ": " + Kind(st.elems[0]) + ", " + std::to_string(got->at(st.elems[0].e.id).label_to_samples.size()) + " labels");
  }
  auto none = dx->DemixDecodedAudioSamples({});
  V_CHECK(c, none.ok() && none->empty(), "demix-nothing", "");
  c.Distinct(HashVec(st.descriptors));
}

void Decode(Ctx& c) {
  Rng& r = c.rng;
  ref::GenOpt g; g.output_gains = r.Chance(2, 3); g.scalable_only = r.Chance(3, 4); g.max_elems = 2; g.enhanced = r.Bool(); g.recon = r.Bool();
  auto st = ref::GenStream(r, g);
  // Demixing blocks, one per unit, for some definitions.
  bool blocks = false;
  for (auto& el : st.elems) for (auto& p : el.e.params) if (p.type == 1 && r.Chance(1, 3)) {
    int w = 0; bool first = true;
    for (auto& u : st.tus) {
      ref::PBlock b; b.def = p; b.s = p.s; ref::PData d; d.dmode = static_cast<uint8_t>(kModes[r.Below(6)]); b.data = {d};
      w = first ? 0 : std::clamp(w + Offset(d.dmode), 0, 10); first = false;
      u.demix[el.e.id] = ref::DemixByMode(d.dmode, w);
      u.blocks.push_back(b); blocks = true;
    }
  }
  if (blocks) ref::EncodeStream(r, st, Lp{r.Chance(1, 3) ? -1 : 0, &r});
  Cfg cfg = GenCfg(r, st);
  auto sel = ref::Select(st, cfg.q);
  auto text = [&] { std::string s = Describe(st, cfg, sel); for (auto& el : st.elems) s += " {" + Kind(el) + "}"; return s + " descriptors=" + Hex(st.descriptors, 300); };
  c.Eval();
  if (!ref::Renderable(st, sel)) { c.Count("unrenderable"); return; }
  auto d = F::CreateFromDescriptors(Settings(cfg), st.descriptors.data(), st.descriptors.size());
  V_CHECK(c, d != nullptr, "refused-valid", text());
  uint64_t h = HashVec(st.descriptors);
  for (size_t t = 0; t < st.tus.size(); ++t) {
    auto s = d->Decode(st.tu_bytes[t].data(), st.tu_bytes[t].size());
    V_CHECK(c, s.ok(), "decode-failed", "unit " + std::to_string(t) + ": " + s.error_message + " " + text());
    V_CHECK(c, d->IsTemporalUnitAvailable(), "unit-missing", text());
    auto out = Take(*d, MaxBytes(st, sel));
    V_CHECK(c, out.ok, "output-failed", out.err + " " + text());
    auto w = WantTu(st, cfg, sel, t);
    std::string diff = Compare(w, out.data, cfg.bits16);
    auto& u = st.tus[t];
    if (!diff.empty() && !u.demix.empty() && Compare(WantTu(st, cfg, sel, t, false), out.data, cfg.bits16).empty()) {
      c.Count("blocks-ignored");
      c.Fail("demix-block-ignored", "unit " + std::to_string(t) + ": the output is that of the default demixing parameters: " + diff + " " + text());
      continue;
    }
    V_CHECK(c, diff.empty(), "pcm", "unit " + std::to_string(t) + " blocks " + std::to_string(u.blocks.size()) + ": " + diff + " " + text());
    c.Count("units"); if (!u.demix.empty()) c.Count("units-with-demix-blocks");
    bool og = false; for (auto& me : st.mixes[sel.mix].sm[0].el) for (auto& l : st.ById(me.id).e.layers) og |= l.og && l.gain != 0;
    if (og) c.Count("units-with-gains");
    h ^= Mix(HashVec(out.data) + t);
  }
  if (!st.tus.empty()) c.Distinct(h);
}
}  // namespace
V_MAIN({{"modes", 312, 312, Modes}, {"params", 6000, 60000, Params}, {"paths", 6000, 60000, Paths}, {"decode", 3000, 30000, Decode}})
