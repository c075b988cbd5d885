// C13: timestamps of audio frames and parameter blocks tile time; parameter
// state follows the blocks; temporal units are consistent or refused; parameter
// blocks are cut at frame boundaries without a gap, an overlap or a change of value.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "vlib.h"
#include "ref/bits.h"
#include "ref/obus.h"
#include "absl/container/flat_hash_map.h"
#include "absl/types/span.h"
#include "iamf/cli/audio_element_with_data.h"
#include "iamf/cli/audio_frame_with_data.h"
#include "iamf/cli/global_timing_module.h"
#include "iamf/cli/parameter_block_partitioner.h"
#include "iamf/cli/parameter_block_with_data.h"
#include "iamf/cli/parameters_manager.h"
#include "iamf/cli/proto/parameter_block.pb.h"
#include "iamf/cli/proto/parameter_data.pb.h"
#include "iamf/cli/temporal_unit_view.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/obu/arbitrary_obu.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/audio_frame.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/demixing_info_parameter_data.h"
#include "iamf/obu/param_definitions/demixing_param_definition.h"
#include "iamf/obu/param_definitions/mix_gain_param_definition.h"
#include "iamf/obu/param_definitions/recon_gain_param_definition.h"
#include "iamf/obu/param_definitions/subblock_schedule.h"
#include "iamf/obu/parameter_block.h"
#include "iamf/obu/recon_gain_info_parameter_data.h"
using namespace iamf_tools;
using namespace vlib;
using ref::Lp;
using Bytes = std::vector<uint8_t>;
namespace pb = iamf_tools_cli_proto;
namespace {

template <class T> std::optional<T> Parse(const Bytes& payload) {
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(payload));
  auto o = T::CreateFromBuffer(ObuHeader{}, static_cast<int64_t>(payload.size()), *rb);
  if (!o.ok()) return std::nullopt;
  return std::optional<T>(*std::move(o));
}
CodecConfigObu MakeCodec(uint32_t id, uint32_t n, uint32_t rate = 48000) {
  ref::Codec k; k.id = id; k.nsamples = n; k.lpcm.rate = rate;
  auto o = Parse<CodecConfigObu>(ref::EncodeCodec(k, Lp{}));
  if (!o) HarnessBug("codec");
  return *o;
}
// An element of `subs` substreams with demixing / recon gain definitions.
AudioElementObu MakeElement(uint32_t id, uint32_t codec, const std::vector<uint32_t>& subs, const std::vector<ref::Pd>& params) {
  ref::Element e;
  e.id = id; e.codec = codec; e.type = 1; e.amb_mode = 0;
  // Ambisonics of order 1 with as many distinct substreams as asked (at most 4).
  e.C = 4; e.N = static_cast<uint8_t>(subs.size());
  for (int i = 0; i < 4; ++i) e.mapping.push_back(static_cast<uint8_t>(i % std::max<size_t>(1, subs.size())));
  e.subs = subs; e.params = params;
  auto o = Parse<AudioElementObu>(ref::EncodeElement(e, Lp{}));
  if (!o) HarnessBug("element");
  return *o;
}

// ---- the global clock ----
void Clock(Ctx& c) {
  Rng& r = c.rng;
  std::map<uint32_t, CodecConfigObu> codecs;
  for (uint32_t i = 0; i < 2; ++i) codecs.emplace(i, MakeCodec(i, 8, r.Pick(ref::LpcmRates())));
  DescriptorObus::AudioElementsById els;
  std::map<uint32_t, int64_t> subs;  // id -> next
  bool dup = false;
  int ne = static_cast<int>(r.Chance(1, 10) ? 0 : r.Range(1, 4));
  for (int e = 0; e < ne; ++e) {
    std::vector<uint32_t> mine;
    std::set<uint32_t> own;
    int n = static_cast<int>(r.Range(1, 4));
    while (static_cast<int>(mine.size()) < n) { uint32_t id = r.Chance(1, 4) ? r.Edge32() : static_cast<uint32_t>(r.Below(r.Chance(1, 8) ? 6 : 4000)); if (own.insert(id).second) mine.push_back(id); }
    for (uint32_t id : mine) if (!subs.emplace(id, 0).second) dup = true;
    els.emplace(e, AudioElementWithData{.obu = MakeElement(e, e % 2, mine, {}), .codec_config = &codecs.at(e % 2)});
  }
  absl::flat_hash_map<DecodedUleb128, ParamDefinitionVariant> defs;
  std::map<uint32_t, int64_t> params;
  bool zero = false;
  int np = static_cast<int>(r.Below(5));
  for (int i = 0; i < np; ++i) {
    uint32_t id = r.Chance(1, 4) ? r.Edge32() : static_cast<uint32_t>(r.Below(4000));
    if (params.count(id)) continue;
    uint32_t rate = r.Chance(1, 25) ? 0 : r.Pick<uint32_t>({1, 16000, 48000, 0xffffffffu});
    if (rate == 0) zero = true;
    params[id] = 0;
    ParamDefinition::BaseArgs a{.parameter_id = id, .parameter_rate = rate, .schedule = std::nullopt};
    if (r.Bool()) defs.emplace(id, MixGainParamDefinition(a));
    else {
      auto s = SubblockSchedule::CreateWithConstantSubblockDuration(8, 8);
      a.schedule = *s;
      if (r.Bool()) defs.emplace(id, DemixingParamDefinition(a));
      else defs.emplace(id, ReconGainParamDefinition(a, {}));
    }
  }
  c.Eval();
  auto text = [&] { std::ostringstream o; o << ne << " elements, substreams"; for (auto& [k, v] : subs) o << ' ' << k; o << " params"; for (auto& [k, v] : params) o << ' ' << k; o << (dup ? " duplicate" : "") << (zero ? " zero-rate" : ""); return o.str(); };
  auto m = GlobalTimingModule::Create(els, defs);
  V_CHECK(c, (m != nullptr) == !(dup || zero), "clock-create", text());
  if (!m) { c.Count("clock-refused"); return; }
  std::ostringstream hist;
  auto pick = [&](std::map<uint32_t, int64_t>& t) -> uint32_t {
    if (t.empty() || r.Chance(1, 12)) { uint32_t id; do id = r.Chance(1, 2) ? r.Edge32() : static_cast<uint32_t>(r.Below(5000)); while (t.count(id)); return id; }
    auto it = t.begin(); std::advance(it, r.Below(t.size())); return it->first;
  };
  int steps = static_cast<int>(r.Range(1, c.thorough ? 200 : 60));
  uint32_t usual = r.Chance(1, 4) ? r.Edge32() : static_cast<uint32_t>(r.Range(1, 2000));
  bool round = r.Bool();
  uint64_t seen = 0;
  auto step_sub = [&](uint32_t id, uint32_t dur) {
    int64_t s = -7, e = -7;
    auto st = m->GetNextAudioFrameTimestamps(id, dur, s, e);
    auto it = subs.find(id);
    hist << " f" << id << "+" << dur;
    if (it == subs.end()) { V_CHECK_R(c, !st.ok(), "clock-unknown-substream", text() << hist.str(), false); c.Count("clock-unknown"); return true; }
    V_CHECK_R(c, st.ok() && s == it->second && e == s + dur, "clock-audio-tiles", "got " << st.ToString() << " [" << s << "," << e << ") want start " << it->second << " " << text() << hist.str(), false);
    it->second = e; c.Count("clock-frames");
    return true;
  };
  for (int i = 0; i < steps; ++i) {
    c.Eval();
    if (r.Chance(1, 3)) {
      std::optional<int64_t> g = -5, want;
      auto st = m->GetGlobalAudioFrameTimestamp(g);
      if (subs.empty()) { V_CHECK(c, !st.ok(), "clock-global-none", text()); }
      else {
        want = subs.begin()->second;
        for (auto& [k, v] : subs) if (v != *want) { want.reset(); break; }
        V_CHECK(c, st.ok() && g == want, "clock-global", "got " << (g ? *g : -1) << " want " << (want ? *want : -1) << " " << text() << hist.str());
        c.Count(want ? "clock-global-common" : "clock-global-apart");
      }
    }
    if (r.Bool()) {
      if (round) { for (auto& [id, t] : subs) { (void)t; if (!step_sub(id, usual)) return; } }
      else { uint32_t id = pick(subs); if (!step_sub(id, r.Chance(1, 5) ? r.Edge32() : usual)) return; }
    } else {
      uint32_t id = pick(params);
      auto it = params.find(id);
      int64_t s = -7, e = -7, said = it == params.end() ? 0 : it->second;
      bool wrong = r.Chance(1, 8);
      if (wrong) said += r.Pick<int64_t>({1, -1, 1000, -1000, 1ll << 32, usual});
      uint32_t dur = r.Chance(1, 5) ? r.Edge32() : usual;
      auto st = m->GetNextParameterBlockTimestamps(id, said, dur, s, e);
      hist << " p" << id << "@" << said << "+" << dur;
      if (it == params.end()) { V_CHECK(c, !st.ok(), "clock-unknown-parameter", text() << hist.str()); c.Count("clock-unknown"); }
      else if (said != it->second) {
        V_CHECK(c, !st.ok(), "clock-parameter-gap", "accepted a block at " << said << " while the parameter is at " << it->second << " " << text() << hist.str());
        c.Count("clock-gaps");
        return;  // an inconsistent stream: reported, nothing more is promised
      } else {
        V_CHECK(c, st.ok() && s == it->second && e == s + dur, "clock-parameter-tiles", "got " << st.ToString() << " [" << s << "," << e << ") want start " << it->second << " " << text() << hist.str());
        it->second = e; c.Count("clock-blocks");
      }
    }
    seen = Mix(seen ^ HashStr(hist.str()));
  }
  c.Distinct(seen);
  if (c.WantSample()) c.Sample("clock " + text() + hist.str().substr(0, 200));
}

// ---- parameter state of the audio elements ----
struct DefM { bool has = false; uint32_t id = 0; uint8_t mode = 0, w = 0; };
struct StateM { int prev = 0, w = 0; bool first = true; int64_t next = 0; const ParameterBlockWithData* block = nullptr; };
struct Want { double a, b, g, d, w; int widx; bool in; };
bool Table(int mode, Want& o, int& off) {
  static const double t[3][4] = {{1, 1, 0.707, 0.707}, {0.707, 0.707, 0.707, 0.707}, {1, 0.866, 0.866, 0.866}};
  if (mode == 3 || mode > 6 || mode < 0) return false;
  const double* x = t[mode & 3];
  o.a = x[0]; o.b = x[1]; o.g = x[2]; o.d = x[3]; o.in = true; off = mode < 3 ? -1 : 1;
  return true;
}
double W(int i) { static const double t[11] = {0, 0.0179, 0.0391, 0.0658, 0.1038, 0.25, 0.3962, 0.4342, 0.4609, 0.4821, 0.5}; return t[i]; }
bool Same(const DownMixingParams& p, const Want& w) { return p.alpha == w.a && p.beta == w.b && p.gamma == w.g && p.delta == w.d && p.w == w.w && p.w_idx_used == w.widx && p.in_bitstream == w.in; }
std::string Show(const DownMixingParams& p) { std::ostringstream o; o << "{" << p.alpha << "," << p.beta << "," << p.gamma << "," << p.delta << " w[" << p.w_idx_used << "]=" << p.w << " in=" << p.in_bitstream << "}"; return o.str(); }
std::string Show(const Want& p) { std::ostringstream o; o << "{" << p.a << "," << p.b << "," << p.g << "," << p.d << " w[" << p.widx << "]=" << p.w << " in=" << p.in << "}"; return o.str(); }

void Params(Ctx& c) {
  Rng& r = c.rng;
  CodecConfigObu codec = MakeCodec(0, 8);
  uint32_t dur = r.Pick<uint32_t>({1, 8, 960, 1024, 100000});
  int ne = static_cast<int>(r.Range(1, 4));
  struct El { uint32_t id; DefM dm, rg; StateM d, g; };
  std::vector<El> es;
  bool several = false;
  DescriptorObus::AudioElementsById els;
  uint32_t sub = 0;
  std::map<uint32_t, DefM> shared;  // definitions by parameter ID
  for (int i = 0; i < ne; ++i) {
    El e{static_cast<uint32_t>(r.Below(1000) * 4 + i), {}, {}, {}, {}};
    std::vector<ref::Pd> ps;
    auto def = [&](int type, DefM& m) {
      m.has = true;
      m.id = static_cast<uint32_t>(type * 100 + (r.Chance(2, 5) ? 0 : 1 + i));
      if (shared.count(m.id)) { auto k = shared[m.id]; m = k; }
      else { m.mode = static_cast<uint8_t>(r.Below(3) + 4 * r.Below(2)); m.w = static_cast<uint8_t>(r.Chance(1, 10) ? r.Range(11, 15) : r.Below(11)); shared[m.id] = m; }
      ref::Pd p; p.type = static_cast<uint32_t>(type); p.id = m.id; p.s.dur = p.s.csd = dur; p.dmode = m.mode; p.dw = m.w;
      ps.push_back(p);
    };
    if (r.Chance(4, 5)) def(1, e.dm);
    if (r.Chance(3, 5)) def(2, e.rg);
    r.Shuffle(ps);
    auto obu = MakeElement(e.id, 0, {sub, sub + 1}, ps); sub += 2;
    if (r.Chance(1, 60) && !obu.audio_element_params_.empty()) { obu.audio_element_params_.push_back(obu.audio_element_params_[0]); several = true; }
    els.emplace(e.id, AudioElementWithData{.obu = obu, .codec_config = &codec});
    es.push_back(e);
  }
  c.Eval();
  auto text = [&] { std::ostringstream o; o << "dur " << dur; for (auto& e : es) { o << " el" << e.id; if (e.dm.has) o << " demix" << e.dm.id << "(mode " << int(e.dm.mode) << " w " << int(e.dm.w) << ")"; if (e.rg.has) o << " recon" << e.rg.id; } return o.str(); };
  auto m = ParametersManager::Create(els);
  V_CHECK(c, m.ok() == !several, "params-create", m.status().ToString() << " " << text());
  if (!m.ok()) { c.Count("params-refused"); return; }
  // The definitions by ID, and the blocks we keep alive.
  std::list<ParameterBlockWithData> store;
  std::ostringstream hist;
  auto find_def = [&](uint32_t id) -> const ParamDefinition* {
    for (auto& [k, v] : els) for (auto& p : v.obu.audio_element_params_) {
      auto* d = std::visit([](const auto& x) -> const ParamDefinition* { return &x; }, p.param_definition);
      if (d->GetParameterId() == id) return d;
    }
    return nullptr;
  };
  int frames = static_cast<int>(r.Range(1, c.thorough ? 60 : 25));
  // From some frame on a parameter may have no blocks; every ID starts with or without.
  std::map<uint32_t, int> until;
  for (auto& [id, d] : shared) until[id] = r.Chance(1, 4) ? 0 : r.Chance(1, 3) ? static_cast<int>(r.Below(frames)) : frames;
  int break_at = r.Chance(1, 5) ? static_cast<int>(r.Below(frames)) : -1;
  uint64_t seen = HashStr(text());
  for (int f = 0; f < frames; ++f) {
    int64_t start = int64_t{f} * dur, end = start + dur;
    int64_t shift = f == break_at ? r.Pick<int64_t>({1, -1, int64_t{dur}, 1000}) : 0;
    for (auto& [id, d] : shared) {
      if (f >= until[id]) continue;
      auto* def = find_def(id);
      if (!def) HarnessBug("def");
      auto obu = ParameterBlockObu::CreateMode0(ObuHeader{}, *def);
      if (!obu || obu->subblocks_.size() != 1) HarnessBug("block");
      bool demix = id < 200;
      if (demix) {
        obu->subblocks_[0] = std::make_unique<DemixingInfoParameterData>(static_cast<DemixingInfoParameterData::DMixPMode>(r.Below(3) + 4 * r.Below(2)), 0);
      } else {
        auto x = std::make_unique<ReconGainInfoParameterData>();
        int n = static_cast<int>(r.Range(0, 5));
        for (int k = 0; k < n; ++k) {
          if (r.Bool()) x->recon_gain_elements.push_back(std::nullopt);
          else { ReconGainElement q; q.recon_gain_flag = static_cast<uint32_t>(r.Below(4096)); for (auto& v : q.recon_gain) v = r.U8(); x->recon_gain_elements.push_back(q); }
        }
        obu->subblocks_[0] = std::move(x);
      }
      store.push_back(ParameterBlockWithData{std::move(obu), start + shift, end + shift});
      auto* p = &store.back();
      if (demix) (*m)->AddDemixingParameterBlock(p); else (*m)->AddReconGainParameterBlock(p);
      for (auto& e : es) { if (demix && e.dm.has && e.dm.id == id) e.d.block = p; if (!demix && e.rg.has && e.rg.id == id) e.g.block = p; }
      c.Count(demix ? "params-demix-blocks" : "params-recon-blocks");
    }
    std::vector<size_t> order; for (size_t i = 0; i < es.size(); ++i) order.push_back(i);
    r.Shuffle(order);
    for (size_t i : order) {
      El& e = es[i];
      int times = r.Chance(1, 4) ? 2 : 1;
      for (int k = 0; k < times; ++k) {
        c.Eval();
        V_CHECK(c, (*m)->DemixingParamDefinitionAvailable(e.id) == e.dm.has, "params-available", e.id << " " << text());
        DownMixingParams p{9, 9, 9, 9, 9, 9, 9, false};
        auto st = (*m)->GetDownMixingParameters(e.id, p);
        Want w{0.707, 0.707, 0.707, 0.707, 0, 0, false};
        bool ok = true; int off = 0;
        if (e.dm.has) {
          int mode = e.dm.mode;
          if (e.d.block) {
            mode = static_cast<DemixingInfoParameterData*>(e.d.block->obu->subblocks_[0].get())->dmixp_mode;
            ok = e.d.block->start_timestamp == e.d.next;
            Table(mode, w, off);
            w.widx = e.d.first ? 0 : std::clamp(e.d.prev + off, 0, 10);
            w.w = W(w.widx);
            if (ok) e.d.w = w.widx;
          } else { Table(mode, w, off); w.widx = e.dm.w; ok = e.dm.w <= 10; if (ok) w.w = W(w.widx); }
        }
        hist << " e" << e.id << "@" << f << "=" << (ok ? Show(w) : "error");
        V_CHECK(c, st.ok() == ok, "params-demix-status", "got " << st.ToString() << " want " << ok << " " << text() << hist.str().substr(0, 1500));
        if (!ok && e.d.block) { c.Count("params-inconsistent"); return; }
        if (ok) { V_CHECK(c, Same(p, w), "params-demix", "got " << Show(p) << " want " << Show(w) << " element " << e.id << " frame " << f << " " << text() << hist.str().substr(0, 1500)); c.Count(e.d.block ? "params-demix-read" : e.dm.has ? "params-demix-default" : "params-demix-none"); seen = Mix(seen ^ static_cast<uint64_t>(w.widx * 64 + static_cast<int>(w.b * 1000))); }
        else c.Count("params-bad-default-w");
        int layers = static_cast<int>(r.Range(0, 5));
        ReconGainInfoParameterData got;
        const ReconGainInfoParameterData* data = e.g.block ? static_cast<ReconGainInfoParameterData*>(e.g.block->obu->subblocks_[0].get()) : nullptr;
        if (data && r.Chance(4, 5)) layers = static_cast<int>(data->recon_gain_elements.size());
        auto sr = (*m)->GetReconGainInfoParameterData(e.id, layers, got);
        bool rok = true;
        if (data) rok = e.g.block->start_timestamp == e.g.next && (layers == 0 || static_cast<size_t>(layers) == data->recon_gain_elements.size());
        V_CHECK(c, sr.ok() == rok, "params-recon-status", "got " << sr.ToString() << " want " << rok << " layers " << layers << " " << text() << hist.str().substr(0, 800));
        if (!rok && e.g.block->start_timestamp != e.g.next) { c.Count("params-inconsistent"); return; }
        if (rok) {
          bool same;
          if (data) {
            same = got.recon_gain_elements.size() == data->recon_gain_elements.size();
            for (size_t q = 0; same && q < got.recon_gain_elements.size(); ++q) {
              const auto &x = got.recon_gain_elements[q]; const auto &y = data->recon_gain_elements[q];
              same = x.has_value() == y.has_value() && (!x || (x->recon_gain_flag == y->recon_gain_flag && x->recon_gain == y->recon_gain));
            }
          } else {
            same = got.recon_gain_elements.size() == static_cast<size_t>(layers);
            for (auto& x : got.recon_gain_elements) if (!x || x->recon_gain_flag != 0 || std::any_of(x->recon_gain.begin(), x->recon_gain.end(), [](uint8_t v) { return v != 255; })) same = false;
          }
          V_CHECK(c, same, "params-recon", "element " << e.id << " frame " << f << " layers " << layers << " " << text());
          c.Count(data ? "params-recon-read" : "params-recon-default");
        }
      }
    }
    for (size_t i : order) {
      El& e = es[i];
      auto upd = [&](StateM& s, bool has, bool demix) -> int {
        c.Eval();
        int64_t said = end;
        bool wrong = r.Chance(1, 60);
        if (wrong) said += r.Pick<int64_t>({1, -1, dur});
        auto st = demix ? (*m)->UpdateDemixingState(e.id, said) : (*m)->UpdateReconGainState(e.id, said);
        bool ok = !has || !s.block || s.block->end_timestamp == said;
        if (st.ok() != ok) return -1;
        if (!ok) return 1;
        if (has && s.block) { s.next = s.block->end_timestamp; s.block = nullptr; if (demix) { s.prev = s.w; s.first = false; } c.Count("params-updates"); }
        return 0;
      };
      int a = upd(e.d, e.dm.has, true);
      V_CHECK(c, a >= 0, "params-update-demix", "element " << e.id << " frame " << f << " " << text() << hist.str().substr(0, 800));
      if (a) { c.Count("params-inconsistent"); return; }
      a = upd(e.g, e.rg.has, false);
      V_CHECK(c, a >= 0, "params-update-recon", "element " << e.id << " frame " << f << " " << text());
      if (a) { c.Count("params-inconsistent"); return; }
    }
  }
  c.Count("params-histories");
  c.Distinct(seen);
  if (c.WantSample()) c.Sample(text() + hist.str().substr(0, 300));
}

const std::vector<uint8_t> kArb{1, 2};
// ---- temporal units ----
void Units(Ctx& c) {
  Rng& r = c.rng;
  uint32_t N = r.Pick<uint32_t>({1, 8, 960, 1024});
  std::map<uint32_t, CodecConfigObu> codecs;
  codecs.emplace(0, MakeCodec(0, N));
  std::map<uint32_t, AudioElementWithData> els;
  uint32_t sub = static_cast<uint32_t>(r.Below(30));
  int ne = static_cast<int>(r.Range(1, 4));
  struct S { uint32_t el, id; };
  std::vector<S> subs;
  for (int i = 0; i < ne; ++i) {
    uint32_t id = static_cast<uint32_t>(r.Below(50) * 4 + i);
    std::vector<uint32_t> mine; int n = static_cast<int>(r.Range(1, 4));
    for (int k = 0; k < n; ++k) { mine.push_back((sub * 7919) % 1009); ++sub; subs.push_back({id, mine.back()}); }
    els.emplace(id, AudioElementWithData{.obu = MakeElement(id, 0, mine, {}), .codec_config = &codecs.at(0)});
  }
  std::vector<MixGainParamDefinition> defs;
  int np = static_cast<int>(r.Below(5));
  for (int i = 0; i < np; ++i) defs.emplace_back(ParamDefinition::BaseArgs{.parameter_id = static_cast<uint32_t>((r.Chance(1, 5) ? r.Edge32() >> 3 : r.Below(50)) * 5 + i), .parameter_rate = 48000, .schedule = std::nullopt});
  int64_t start = r.Chance(1, 4) ? static_cast<int64_t>(r.Edge32()) * 3 : static_cast<int64_t>(r.Below(100)) * N;
  int64_t end = start + N;
  uint32_t ts = 0, te = 0;
  int kind = static_cast<int>(r.Below(7));
  if (kind == 1) ts = static_cast<uint32_t>(r.Below(N + 1));
  if (kind == 2) te = static_cast<uint32_t>(r.Below(N + 1));
  if (kind == 3) { ts = static_cast<uint32_t>(r.Below(N + 1)); te = static_cast<uint32_t>(r.Below(N - ts + 1)); }
  if (kind == 4) { ts = r.Edge32(); te = r.Edge32(); }
  if (kind == 5 && r.Bool()) { te = static_cast<uint32_t>(r.Range(1, 0xffffffffll)); ts = static_cast<uint32_t>(0u - te + r.Below(N + 2)); }  // the sum of the two wraps
  bool ok = true; std::string why;
  auto bad = [&](const char* w) { ok = false; why += std::string(w) + " "; };
  if (uint64_t{ts} + te > N) bad("trim");
  std::vector<AudioFrameWithData> frames;
  bool no_frames = r.Chance(1, 6);
  if (!no_frames) {
    auto use = subs; r.Shuffle(use);
    size_t n = static_cast<size_t>(r.Range(1, static_cast<int64_t>(use.size())));
    for (size_t i = 0; i < n; ++i) {
      ObuHeader h; h.num_samples_to_trim_at_end = te; h.num_samples_to_trim_at_start = ts;
      frames.push_back(AudioFrameWithData{.obu = AudioFrameObu(h, use[i].id, r.Bytes(r.Below(4))), .start_timestamp = start, .end_timestamp = end, .audio_element_with_data = &els.at(use[i].el)});
    }
  } else { ts = te = 0; ok = true; why.clear(); end = start; }
  std::list<ParameterBlockWithData> blocks;
  std::vector<size_t> pi; for (size_t i = 0; i < defs.size(); ++i) pi.push_back(i);
  r.Shuffle(pi);
  if (!no_frames || r.Chance(1, 5)) for (size_t i : pi) {
    auto s = SubblockSchedule::CreateWithConstantSubblockDuration(N, N);
    auto b = ParameterBlockObu::CreateMode1(ObuHeader{}, defs[i], *s);
    blocks.push_back({std::move(b), start, end});
  }
  std::list<ArbitraryObu> arbs;
  int na = static_cast<int>(r.Chance(1, 2) ? 0 : r.Range(1, 3));
  bool any_invalid = false, miss = false, off = false;
  for (int i = 0; i < na; ++i) {
    std::optional<int64_t> tick = start;
    if (r.Chance(1, 15)) { tick.reset(); miss = true; }
    else if (r.Chance(1, 15) && !(no_frames && i == 0)) { tick = start + r.Pick<int64_t>({1, -1, N}); off = true; }
    bool inv = no_frames ? r.Chance(3, 5) : r.Chance(1, 4);
    any_invalid |= inv;
    arbs.emplace_back(kObuIaReserved25, ObuHeader{}, absl::MakeConstSpan(kArb), ArbitraryObu::kInsertionHookAfterAudioFramesAtTick, tick, inv);
  }
  if (miss) bad("arbitrary-without-tick");
  if (off) bad("arbitrary-elsewhere");
  if (no_frames && na == 0) bad("empty");
  if (no_frames && na && !any_invalid) bad("no-frame");
  // One inconsistency, somewhere.
  if (ok && r.Chance(2, 5)) {
    switch (r.Below(8)) {
      case 0: if (frames.size() > 1) { frames[r.Below(frames.size())].obu.header_.num_samples_to_trim_at_end ^= 1u; bad("trim-end-differs"); } break;
      case 1: if (frames.size() > 1) { frames[r.Below(frames.size())].obu.header_.num_samples_to_trim_at_start ^= 1u; bad("trim-start-differs"); } break;
      case 2: if (frames.size() > 1) { frames[r.Below(frames.size())].start_timestamp += r.Pick<int64_t>({1, -1, 1ll << 32}); bad("start-differs"); } break;
      case 3: if (frames.size() > 1) { frames[r.Below(frames.size())].end_timestamp += r.Pick<int64_t>({1, -1, 1ll << 32}); bad("end-differs"); } break;
      case 4: if (!frames.empty()) { auto f = frames[r.Below(frames.size())]; frames.insert(frames.begin() + static_cast<long>(r.Below(frames.size() + 1)), f); bad("substream-twice"); } break;
      case 5: if (!blocks.empty()) { auto it = blocks.begin(); std::advance(it, r.Below(blocks.size())); it->start_timestamp += r.Pick<int64_t>({1, -1, 1ll << 32}); bad("block-start"); } break;
      case 6: if (!blocks.empty()) { auto it = blocks.begin(); std::advance(it, r.Below(blocks.size())); it->end_timestamp += r.Pick<int64_t>({1, -1, 1ll << 32}); bad("block-end"); } break;
      default: if (!blocks.empty()) { auto it = blocks.begin(); std::advance(it, r.Below(blocks.size())); size_t d = 0; for (; d < defs.size(); ++d) if (defs[d].GetParameterId() == it->obu->parameter_id_) break;
          auto s = SubblockSchedule::CreateWithConstantSubblockDuration(N, N); blocks.push_back({ParameterBlockObu::CreateMode1(ObuHeader{}, defs[d], *s), start, end}); bad("parameter-twice"); } break;
    }
  }
  auto text = [&] { std::ostringstream o; o << "N " << N << " trims " << ts << "/" << te << " [" << start << "," << end << ") frames"; for (auto& f : frames) o << ' ' << f.audio_element_with_data->obu.GetAudioElementId() << ":" << f.obu.GetSubstreamId(); o << " blocks"; for (auto& b : blocks) o << ' ' << b.obu->parameter_id_; o << " arbitrary " << na << " model: " << (ok ? "fine" : why); return o.str(); };
  c.Eval();
  auto v = TemporalUnitView::Create(blocks, frames, arbs);
  V_CHECK(c, v.ok() == ok, "unit-status", v.status().ToString() << " " << text());
  c.Distinct(HashStr(text()));
  if (!ok) { c.Count("unit-refused"); std::istringstream ws(why); std::string t; while (ws >> t) c.Count("unit-" + t); return; }
  c.Count(no_frames ? "unit-arbitrary-only" : "unit-accepted");
  V_CHECK(c, v->start_timestamp_ == start && v->end_timestamp_ == end, "unit-times", v->start_timestamp_ << ".." << v->end_timestamp_ << " " << text());
  V_CHECK(c, v->num_samples_to_trim_at_start_ == ts && v->num_untrimmed_samples_ == (no_frames ? 0 : N - ts - te), "unit-samples", v->num_samples_to_trim_at_start_ << " " << v->num_untrimmed_samples_ << " " << text());
  std::vector<const AudioFrameWithData*> wf; for (auto& f : frames) wf.push_back(&f);
  std::sort(wf.begin(), wf.end(), [](auto* a, auto* b) { return std::make_pair(a->audio_element_with_data->obu.GetAudioElementId(), a->obu.GetSubstreamId()) < std::make_pair(b->audio_element_with_data->obu.GetAudioElementId(), b->obu.GetSubstreamId()); });
  std::vector<const ParameterBlockWithData*> wb; for (auto& b : blocks) wb.push_back(&b);
  std::sort(wb.begin(), wb.end(), [](auto* a, auto* b) { return a->obu->parameter_id_ < b->obu->parameter_id_; });
  std::vector<const ArbitraryObu*> wa; for (auto& a : arbs) wa.push_back(&a);
  V_CHECK(c, v->audio_frames_ == wf, "unit-frames", text());
  V_CHECK(c, v->parameter_blocks_ == wb, "unit-blocks", text());
  V_CHECK(c, v->arbitrary_obus_ == wa, "unit-arbitrary", text());
  if (c.WantSample()) c.Sample("unit " + text());
}

// ---- cutting parameter blocks at frame boundaries ----
void Cuts(Ctx& c) {
  Rng& r = c.rng;
  pb::ParameterBlockObuMetadata full;
  ref::Sched s = r.Chance(1, 6) ? ref::GenSched(r, 8) : ref::Sched{};
  uint32_t frame = static_cast<uint32_t>(r.Range(1, 40));
  bool demix = r.Chance(1, 5), recon = !demix && r.Chance(1, 6);
  if (s.dur == 0) {
    if (r.Bool()) { int n = static_cast<int>(r.Range(1, 6)); s.csd = static_cast<uint32_t>(r.Range(1, 60)); s.dur = s.csd * (n - 1) + static_cast<uint32_t>(r.Range(1, s.csd)); if (s.dur < s.csd) s.dur = s.csd; }
    else { int n = static_cast<int>(r.Range(1, 6)); for (int i = 0; i < n; ++i) { s.subs.push_back(static_cast<uint32_t>(r.Range(1, 60))); s.dur += s.subs.back(); } }
  }
  if (s.dur > 4000) { s = {}; s.dur = s.csd = 64; }
  if ((demix || recon) && r.Chance(4, 5)) { s = {}; s.dur = s.csd = static_cast<uint32_t>(r.Range(1, 200)); }
  // Mostly, whole frames.
  if (r.Chance(2, 3)) { if (s.csd) { frame = s.dur; for (uint32_t k = static_cast<uint32_t>(r.Range(1, 8)); k > 1; --k) if (s.dur % k == 0) { frame = s.dur / k; break; } } else { uint32_t k = static_cast<uint32_t>(r.Range(1, 6)); uint32_t rem = (k - s.dur % k) % k; s.subs.back() += rem; s.dur += rem; frame = s.dur / k; } }
  int64_t start = r.Chance(1, 3) ? 0 : static_cast<int64_t>(r.Chance(1, 3) ? (1ull << 33) + r.Below(1000) : r.Below(5000));
  full.set_parameter_id(ref::GenId(r)); full.set_duration(s.dur); full.set_constant_subblock_duration(s.csd); full.set_start_timestamp(start);
  full.mutable_obu_header()->set_obu_redundant_copy(r.Bool());
  struct Sub { int64_t a, b; int kind; int s, e; bool wide = false; };
  std::vector<Sub> subs;
  int64_t t = start;
  for (uint32_t i = 0; i < s.Count(); ++i) {
    auto* x = full.add_subblocks();
    if (!s.csd) x->set_subblock_duration(s.At(i));
    Sub q{t, t + s.At(i), 0, 0, 0}; t = q.b;
    if (demix) { x->mutable_demixing_info_parameter_data()->set_dmixp_mode(static_cast<pb::DMixPMode>(1 + r.Below(3))); q.kind = 3; q.s = x->demixing_info_parameter_data().dmixp_mode(); }
    else if (recon) { (*x->mutable_recon_gain_info_parameter_data()->add_recon_gains_for_layer()->mutable_recon_gain())[static_cast<uint32_t>(r.Below(12))] = r.U8(); q.kind = 4; }
    else {
      auto* pd = x->mutable_mix_gain_parameter_data()->mutable_param_data();
      auto g = [&] { return static_cast<int>(r.Chance(1, 5) ? r.Pick<int>({-32768, 32000, 0, 1, -1, 255, 256}) : r.Range(-20000, 20000)); };
      q.kind = static_cast<int>(r.Chance(1, 10) ? 2 : r.Below(2)); q.s = g(); q.e = g();
      if (q.kind < 2 && r.Chance(1, 40)) { (q.kind == 1 && r.Bool() ? q.e : q.s) = r.Pick<int>({32768, -32769, 65536, 70000, 0x7fffffff, -0x7fffffff}); q.wide = true; }
      if (q.kind == 0) pd->mutable_step()->set_start_point_value(q.s);
      if (q.kind == 1) { pd->mutable_linear()->set_start_point_value(q.s); pd->mutable_linear()->set_end_point_value(q.e); }
      if (q.kind == 2) { auto* b = pd->mutable_bezier(); b->set_start_point_value(q.s); b->set_end_point_value(q.e); b->set_control_point_value(g()); b->set_control_point_relative_time(r.U8()); }
    }
    subs.push_back(q);
  }
  bool broken = false;
  if (r.Chance(1, 25)) { full.set_duration(full.duration() + 1); broken = s.csd == 0 || s.dur % s.csd == 0; if (!broken) { subs.back().b += 1; } }
  else if (r.Chance(1, 25)) { auto* x = full.add_subblocks(); *x = full.subblocks(0); broken = true; }
  int64_t whole = start + static_cast<int64_t>(full.duration());
  auto text = [&] { std::ostringstream o; o << "block [" << start << "," << whole << ") csd " << s.csd << (broken ? " inconsistent" : "") << " subs"; for (auto& q : subs) o << " [" << q.a - start << "," << q.b - start << ")" << "slbdr"[q.kind] << q.s << ":" << q.e; o << " frame " << frame; return o.str(); };
  // What one piece has to be; nullopt when it cannot be cut.
  auto want = [&](int64_t a, int64_t b) -> std::optional<std::vector<size_t>> {
    if (broken || a >= b || a < start || b > whole) return std::nullopt;
    std::vector<size_t> v;
    for (size_t i = 0; i < subs.size(); ++i) if (subs[i].b > a && subs[i].a < b) v.push_back(i);
    if ((demix || recon) && v.size() > 1) return std::nullopt;
    for (size_t i : v) if (subs[i].wide || (subs[i].kind == 2 && (subs[i].a < a || subs[i].b > b))) return std::nullopt;
    return v;
  };
  auto check = [&](const pb::ParameterBlockObuMetadata& p, int64_t a, int64_t b, const std::vector<size_t>& v) -> bool {
    std::ostringstream o; o << "piece [" << a - start << "," << b - start << ") of " << text() << " is {" << p.ShortDebugString() << "}";
    std::string at = o.str();
    V_CHECK_R(c, p.parameter_id() == full.parameter_id() && p.start_timestamp() == a && p.duration() == b - a && p.obu_header().obu_redundant_copy() == full.obu_header().obu_redundant_copy(), "cut-block", at, false);
    V_CHECK_R(c, p.subblocks_size() == static_cast<int>(v.size()), "cut-subblocks", at, false);
    std::vector<uint32_t> durs;
    for (size_t k = 0; k < v.size(); ++k) {
      auto& q = subs[v[k]]; auto& x = p.subblocks(static_cast<int>(k));
      int64_t pa = std::max(a, q.a), pe = std::min(b, q.b);
      durs.push_back(static_cast<uint32_t>(pe - pa));
      V_CHECK_R(c, x.subblock_duration() == durs.back(), "cut-duration", at, false);
      auto near = [&](int64_t when, int got) {
        double exact = q.s + static_cast<double>(q.e - q.s) * static_cast<double>(when - q.a) / static_cast<double>(q.b - q.a);
        // The ends are exact; in between the value is held in Q7.8.
        if (when == q.a) return got == q.s;
        if (when == q.b) return got == q.e;
        return std::fabs(exact - got) <= 1.02;
      };
      auto& src = full.subblocks(static_cast<int>(v[k]));
      bool ok = false;
      switch (q.kind) {
        case 0: ok = x.mix_gain_parameter_data().param_data().has_step() && x.mix_gain_parameter_data().param_data().step().start_point_value() == q.s; break;
        case 1: { auto& l = x.mix_gain_parameter_data().param_data().linear(); ok = x.mix_gain_parameter_data().param_data().has_linear() && near(pa, l.start_point_value()) && near(pe, l.end_point_value()); break; }
        case 2: ok = x.mix_gain_parameter_data().param_data().SerializeAsString() == src.mix_gain_parameter_data().param_data().SerializeAsString(); break;
        case 3: ok = x.demixing_info_parameter_data().SerializeAsString() == src.demixing_info_parameter_data().SerializeAsString() && x.has_demixing_info_parameter_data(); break;
        default: ok = x.recon_gain_info_parameter_data().SerializeAsString() == src.recon_gain_info_parameter_data().SerializeAsString() && x.has_recon_gain_info_parameter_data(); break;
      }
      V_CHECK_R(c, ok, "cut-value", "subblock " << k << " " << at, false);
      c.Count("cut-subblocks");
    }
    // The schedule the piece describes must be the one its subblocks have.
    uint32_t csd = p.constant_subblock_duration();
    bool fits = true;
    if (csd) for (size_t k = 0; k < durs.size(); ++k) fits &= k + 1 < durs.size() ? durs[k] == csd : durs[k] <= csd;
    V_CHECK_R(c, fits, "cut-schedule", at, false);
    return true;
  };
  c.Eval();
  // Any piece.
  for (int k = 0; k < 3; ++k) {
    int64_t a = start + r.Range(-2, static_cast<int64_t>(full.duration())), b = r.Chance(1, 12) ? a - r.Range(0, 3) : std::min<int64_t>(a + r.Range(1, 80), whole + (r.Chance(1, 12) ? 2 : 0));
    auto w = want(a, b);
    pb::ParameterBlockObuMetadata p;
    auto st = ParameterBlockPartitioner::PartitionParameterBlock(full, a, b, p);
    V_CHECK(c, st.ok() == w.has_value(), "cut-status", st.ToString() << " piece [" << a - start << "," << b - start << ") of " << text());
    if (w && !check(p, a, b, *w)) return;
    c.Count(w ? "cut-pieces" : "cut-refused");
  }
  // All frames.
  std::list<pb::ParameterBlockObuMetadata> parts;
  auto st = ParameterBlockPartitioner::PartitionFrameAligned(frame, full, parts);
  bool ok = true;
  std::vector<std::pair<int64_t, std::vector<size_t>>> ws;
  for (int64_t a = start; a < whole && ok; a += frame) { auto w = want(a, a + frame); if (!w) ok = false; else ws.push_back({a, *w}); }
  V_CHECK(c, st.ok() == ok, "cut-frames-status", st.ToString() << " want " << ok << " " << text());
  if (!ok) { c.Count("cut-frames-refused"); return; }
  V_CHECK(c, parts.size() == ws.size(), "cut-frames", parts.size() << " pieces " << text());
  size_t i = 0;
  for (auto& p : parts) { if (!check(p, ws[i].first, ws[i].first + frame, ws[i].second)) return; ++i; }
  c.Count("cut-frames-whole");
  c.Distinct(HashStr(text()));
  if (c.WantSample()) c.Sample(text() + " -> " + std::to_string(parts.size()));
}

// ---- schedules ----
void Schedules(Ctx& c) {
  Rng& r = c.rng;
  ref::Sched s = r.Bool() ? ref::GenSched(r) : ref::Sched{};
  if (s.dur == 0) {
    if (r.Bool()) { s.dur = r.Edge32(); s.csd = r.Edge32(); }
    else { int n = static_cast<int>(r.Below(6)); for (int i = 0; i < n; ++i) s.subs.push_back(r.Chance(1, 3) ? r.Edge32() : static_cast<uint32_t>(r.Below(100))); s.csd = 0; }
  }
  c.Eval();
  bool constant = s.csd != 0 || (s.subs.empty() && r.Bool());
  bool ok = true; uint64_t total = 0, n = 0;
  std::vector<uint32_t> durs;
  if (constant) { ok = s.dur && s.csd && s.csd <= s.dur; if (ok) { n = (uint64_t{s.dur} + s.csd - 1) / s.csd; ok = n <= 192000; } total = s.dur; }
  else { n = s.subs.size(); ok = n > 0; for (uint32_t d : s.subs) { total += d; if (!d) ok = false; } ok = ok && total <= 0xffffffffull; }
  auto q = constant ? SubblockSchedule::CreateWithConstantSubblockDuration(s.dur, s.csd) : SubblockSchedule::CreateWithVariableSubblockDuration(s.subs);
  auto text = [&] { std::ostringstream o; o << (constant ? "constant " : "variable ") << s.dur << "/" << s.csd; for (uint32_t d : s.subs) o << ' ' << d; return o.str(); };
  V_CHECK(c, q.ok() == ok, "schedule-status", q.status().ToString() << " " << text());
  c.Distinct(HashStr(text()));
  if (!ok) { c.Count("schedule-refused"); return; }
  V_CHECK(c, q->GetDuration() == total && q->GetNumSubblocks() == n && q->GetConstantSubblockDuration() == (constant ? s.csd : 0), "schedule-fields", text());
  uint64_t sum = 0;
  for (uint64_t i = 0; i < n; ++i) {
    if (n > 5000 && i > 3 && i + 3 < n) { sum += s.csd; continue; }
    auto d = q->GetSubblockDuration(static_cast<int>(i));
    uint64_t w = constant ? std::min<uint64_t>(s.csd, s.dur - i * s.csd) : s.subs[i];
    V_CHECK(c, d.ok() && *d == w, "schedule-subblock", i << " of " << text());
    sum += *d;
  }
  V_CHECK(c, sum == total, "schedule-tiles", text());
  V_CHECK(c, !q->GetSubblockDuration(-1).ok() && !q->GetSubblockDuration(static_cast<int>(n)).ok(), "schedule-outside", text());
  c.Count(constant ? "schedule-constant" : "schedule-variable");
  if (c.WantSample()) c.Sample("schedule " + text());
}

}  // namespace

V_MAIN({{"clock", 12000, 60000, Clock}, {"params", 12000, 60000, Params}, {"units", 24000, 150000, Units}, {"cuts", 32000, 200000, Cuts}, {"schedules", 24000, 150000, Schedules}})
