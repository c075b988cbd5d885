// C18: the profiles reported for an element or mix against a table of the limits.
#include <algorithm>
#include <set>
#include "harness/decwork.h"
#include "iamf/cli/audio_element_with_data.h"
#include "iamf/cli/descriptor_obus.h"
#include "iamf/cli/profile_filter.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/ia_sequence_header.h"
#include "iamf/obu/mix_presentation.h"
using namespace iamf_tools;
using namespace decwork;
using ref::Lp;
using Bytes = std::vector<uint8_t>;
namespace {
using Mask = unsigned;  // bit p: profile p
constexpr Mask kAll = 63, kSimple = 1, kBase = 2, kEnhanced = 4, kV1 = 7;
using Set = absl::flat_hash_set<ProfileVersion>;
Set ToSet(Mask m) { Set s; for (int p = 0; p < 6; ++p) if (m >> p & 1) s.insert(static_cast<ProfileVersion>(p)); return s; }
Mask ToMask(const Set& s, bool* odd) { Mask m = 0; for (auto p : s) { int i = static_cast<int>(p); if (i < 6) m |= 1u << i; else *odd = true; } return m; }
template <class O> std::optional<O> Parse(const Bytes& payload) {
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(payload));
  auto o = O::CreateFromBuffer(ObuHeader{}, static_cast<int64_t>(payload.size()), *rb);
  if (!o.ok()) return std::nullopt;
  return std::optional<O>(*std::move(o));
}

// ---- the model ----
struct ElSpec { uint8_t type = 0; int layout = 1, expanded = -1; int wrong = 0; };  // wrong: 1 no layer, 2 other config, 3 expanded absent
Mask Allowed(const ElSpec& e) {
  switch (e.type) {
    case 0:
      if (e.wrong == 1 || e.wrong == 2) return 0;
      if (e.layout <= 9) return kAll;
      if (e.layout < 15) return 0;
      if (e.wrong == 3) return 0;
      if (e.expanded <= 12) return kAll & ~(kSimple | kBase);
      if (e.expanded <= 19) return kAll & ~kV1;
      return 0;
    case 1: return e.wrong == 2 ? 0 : kAll;
    case 2: return kAll & ~kV1;
    default: return 0;
  }
}
std::string Text(const ElSpec& e) { std::ostringstream o; o << "type " << int(e.type) << " layout " << e.layout << "/" << e.expanded << " wrong " << e.wrong; return o.str(); }

AudioElementObu Build(Rng& r, const ElSpec& s, uint32_t id, uint32_t codec, int more_layers) {
  ref::Element e;
  e.id = id; e.codec = codec; e.type = s.type; e.res = r.U8() & 31;
  if (s.type == 0) {
    for (int i = 0; i <= more_layers; ++i) { ref::Layer l; l.layout = i ? static_cast<uint8_t>(r.Below(9)) : static_cast<uint8_t>(s.layout); l.expanded = s.expanded < 0 ? 0 : s.expanded; l.sub = 1; l.coupled = r.Below(2); e.layers.push_back(l); e.subs.push_back(10 * id + i); }
    if (more_layers && s.layout == 9) { e.layers.resize(1); e.subs.resize(1); }
  } else if (s.type == 1) { ref::GenAmbisonics(r, e); for (int i = 0; i < e.N; ++i) e.subs.push_back(i); }
  else { e.subs = {10 * id}; e.ext = r.Bytes(r.Below(5)); e.num_objects = static_cast<uint8_t>(r.Range(1, 2)); }
  auto o = Parse<AudioElementObu>(ref::EncodeElement(e, Lp{}));
  if (!o) HarnessBug("element " + Text(s));
  if (s.wrong == 1) std::get<ScalableChannelLayoutConfig>(o->config_).channel_audio_layer_configs.clear();
  if (s.wrong == 2) o->config_ = ExtensionConfig{};
  if (s.wrong == 3) std::get<ScalableChannelLayoutConfig>(o->config_).channel_audio_layer_configs[0].expanded_loudspeaker_layout.reset();
  return *o;
}
ElSpec GenSpec(Rng& r, bool tame) {
  ElSpec s;
  s.type = static_cast<uint8_t>(r.Chance(1, tame ? 60 : 8) ? r.Range(3, 7) : r.Chance(1, tame ? 20 : 6) ? 2 : r.Below(2));
  s.layout = static_cast<int>(r.Chance(1, tame ? 8 : 3) ? 15 : r.Below(tame ? 10 : 16));
  s.expanded = static_cast<int>(r.Chance(1, 12) ? r.Below(256) : r.Below(tame && r.Chance(3, 4) ? 13 : 21));
  if (r.Chance(1, tame ? 80 : 12)) {
    s.wrong = static_cast<int>(r.Range(1, 3));
    if (s.type > 1 || (s.type == 1 && s.wrong != 2) || (s.wrong == 3 && s.layout != 15)) s.wrong = 0;
  }
  return s;
}
void CheckElement(Ctx& c, const ElSpec& s, const AudioElementObu& o, Mask in) {
  Set set = ToSet(in);
  c.Eval();
  auto st = ProfileFilter::FilterProfilesForAudioElement("x", o, set);
  bool odd = false;
  Mask got = ToMask(set, &odd), want = in & Allowed(s);
  V_CHECK(c, !odd && got == want, "element-profiles", Text(s) << " of " << in << " keeps " << got << " instead of " << want);
  V_CHECK(c, st.ok() == (want != 0), "element-status", Text(s) << " of " << in << ": " << st.ToString());
  c.Count(want ? "elements-kept" : "elements-dropped");
  c.Distinct(HashStr(Text(s)) ^ Mix(in));
}
void Elements(Ctx& c) {
  // Every layout and expanded layout, every subset of profiles; then random ones.
  uint64_t i = c.index;
  ElSpec s;
  if (i < 16) s.layout = static_cast<int>(i);
  else if (i < 16 + 256) { s.layout = 15; s.expanded = static_cast<int>(i - 16); }
  else if (i < 16 + 256 + 8) s.type = static_cast<uint8_t>(i - 272);
  else s = GenSpec(c.rng, false);
  if (s.layout == 15 && s.expanded < 0) s.expanded = 0;
  auto o = Build(c.rng, s, 1 + static_cast<uint32_t>(c.rng.Below(5)), 7, c.rng.Chance(1, 3) ? static_cast<int>(c.rng.Below(5)) : 0);
  for (Mask m = 0; m < 64; ++m) CheckElement(c, s, o, m);
}

// ---- mixes ----
struct Cc { uint32_t id, fourcc, n, rate; };
struct El { ElSpec s; uint32_t id, codec; int channels; bool present = true, coded = true; };
struct World { std::vector<Cc> codecs; std::vector<El> els; };
struct Ref { uint32_t el; int mode = 0; };
struct MixSpec { std::vector<std::vector<Ref>> sm; };
const El* FindEl(const World& w, uint32_t id) { for (auto& e : w.els) if (e.id == id && e.present) return &e; return nullptr; }
const Cc& FindCc(const World& w, uint32_t id) { for (auto& x : w.codecs) if (x.id == id) return x; HarnessBug("cc"); }
Mask Allowed(const World& w, const MixSpec& m, std::string* why) {
  Mask k = kAll;
  auto drop = [&](Mask d, const char* t) { if (k & d) *why += std::string(t) + " "; k &= ~d; };
  if (m.sm.size() > 1) drop(kV1, "sub-mixes");
  if (m.sm.size() > 2) drop(kAll, "3-sub-mixes");
  std::set<uint32_t> used; bool lpcm = false; size_t n = 0; int ch = 0;
  for (size_t i = 0; i < m.sm.size(); ++i) {
    for (auto& r : m.sm[i]) {
      if (r.mode == 2) drop(kV1, "head-locked");
      if (r.mode == 3) drop(kAll, "mode-3");
      ++n;
      const El* e = FindEl(w, r.el);
      if (!e || !e->coded) { drop(kAll, "unresolved"); continue; }
      drop(kAll & ~Allowed(e->s), "element");
      ch += e->channels;
      used.insert(e->codec); lpcm |= FindCc(w, e->codec).fourcc == ref::kLpcm;
    }
    if (i == 0 && used.size() > 1) drop(kAll, "codecs-in-first");
  }
  if (used.empty()) drop(kAll, "nothing");
  if (used.size() > 1) { drop(kV1, "2-codecs"); if (!lpcm) drop(kAll, "no-lpcm"); }
  if (used.size() > 2) drop(kAll, "3-codecs");
  uint32_t fn = 0, fr = 0; bool have = false;
  for (auto id : used) { auto& x = FindCc(w, id); if (have && (x.n != fn || x.rate != fr)) drop(kAll, "frames-differ"); have = true; fn = x.n; fr = x.rate; }
  static const size_t me[] = {1, 2, 28, 18, 18, 28}; static const int mc[] = {16, 18, 28, 18, 18, 28};
  for (int p = 0; p < 6; ++p) { if (n > me[p]) drop(1u << p, "elements"); if (ch > mc[p]) drop(1u << p, "channels"); }
  return k;
}
std::string Text(const World& w, const MixSpec& m) {
  std::ostringstream o;
  for (auto& x : w.codecs) o << "cc" << x.id << "(" << std::hex << x.fourcc << std::dec << " n" << x.n << " r" << x.rate << ") ";
  for (auto& e : w.els) o << "el" << e.id << "(" << Text(e.s) << " cc" << e.codec << " ch" << e.channels << (e.present ? "" : " absent") << (e.coded ? "" : " uncoded") << ") ";
  for (auto& s : m.sm) { o << "["; for (auto& r : s) o << r.el << "/m" << r.mode << " "; o << "]"; }
  return o.str();
}
World GenWorld(Rng& r, bool big) {
  World w;
  int nc = static_cast<int>(r.Chance(1, 3) ? r.Range(1, 4) : 1);
  uint32_t n = r.Pick<uint32_t>({960, 1024, 480}), rate = r.Pick<uint32_t>({48000, 48000, 16000});
  for (int i = 0; i < nc; ++i) {
    Cc x; x.id = 100 + static_cast<uint32_t>(i); x.fourcc = r.Pick<uint32_t>({ref::kLpcm, ref::kLpcm, ref::kFlac, ref::kOpus, ref::kAac});
    x.n = r.Chance(1, 10) ? n + 1 : n; x.rate = r.Chance(1, 10) ? (rate == 48000 ? 16000 : 48000) : rate;
    if (x.fourcc == ref::kOpus) x.rate = 48000;
    if (x.fourcc == ref::kFlac && x.n < 16) x.n = 16;
    w.codecs.push_back(x);
  }
  int ne = static_cast<int>(big ? r.Range(1, 30) : r.Range(1, 4));
  for (int i = 0; i < ne; ++i) {
    El e; e.s = GenSpec(r, true); e.id = static_cast<uint32_t>(i + 1); e.codec = r.Chance(2, 3) ? w.codecs[0].id : r.Pick(w.codecs).id;
    e.channels = static_cast<int>(big ? r.Range(0, 2) : r.Chance(1, 3) ? r.Range(13, 30) : r.Range(1, 12));
    if (r.Chance(1, 60)) e.present = false;
    if (r.Chance(1, 60)) e.coded = false;
    w.els.push_back(e);
  }
  return w;
}
Bytes EncodeMixSpec(Rng& r, const MixSpec& m) {
  ref::Mix x; x.id = 42;
  for (auto& s : m.sm) {
    ref::SubMix q;
    for (auto& e : s) { ref::MixElement me; me.id = e.el; me.rc.mode = e.mode; me.gain.mode1 = true; if (r.Chance(1, 4)) { me.rc.go = ref::GainOffset{}; me.rc.go->v = ref::GenS16(r); } q.el.push_back(me); }
    q.out.mode1 = true;
    ref::MixLayout l; q.layouts.push_back(l);
    x.sm.push_back(q);
  }
  return ref::EncodeMix(x, Lp{});
}
void Mixes(Ctx& c) {
  Rng& r = c.rng;
  bool big = r.Chance(1, 3);
  World w = GenWorld(r, big);
  DescriptorObus::CodecConfigsById ccs;
  for (auto& x : w.codecs) {
    ref::Codec k = ref::GenCodec(r, x.fourcc);
    k.id = x.id; k.nsamples = x.n; k.lpcm.rate = x.rate; k.flac.info.rate = x.rate; k.flac.info.min = k.flac.info.max = x.n; k.flac.rest.clear();
    k.aac.freq = x.rate == 48000 ? 3 : 8; k.aac.dsi_ext.clear();
    if (x.fourcc == ref::kOpus) k.roll = ref::OpusRoll(x.n);
    auto o = Parse<CodecConfigObu>(ref::EncodeCodec(k, Lp{}));
    if (!o) HarnessBug("codec " + std::to_string(x.fourcc));
    ccs.emplace(x.id, *o);
  }
  DescriptorObus::AudioElementsById els;
  for (auto& e : w.els) {
    if (!e.present) continue;
    AudioElementWithData d{.obu = Build(r, e.s, e.id, e.codec, 0), .codec_config = e.coded ? &ccs.at(e.codec) : nullptr};
    int left = e.channels; uint32_t sub = 0;
    while (left > 0) { int k = left > 1 && r.Bool() ? 2 : 1; auto& v = d.substream_id_to_labels[1000 * e.id + sub++]; for (int q = 0; q < k; ++q) v.push_back(static_cast<ChannelLabel::Label>(static_cast<int>(r.Below(30)))); left -= k; }
    els.emplace(e.id, d);
  }
  for (int round = 0; round < 4; ++round) {
    MixSpec m;
    int ns = static_cast<int>(r.Chance(1, 3) ? r.Range(1, 4) : r.Chance(1, 40) ? 0 : 1);
    std::vector<uint32_t> ids; for (auto& e : w.els) ids.push_back(e.id);
    if (r.Chance(1, 40)) ids.push_back(777);
    if (!big) r.Shuffle(ids);
    size_t at = 0;
    // Often: the first sub-mix in one codec, the second in others.
    size_t split = 0;
    if (w.codecs.size() > 1 && r.Bool()) {
      auto first = [&](uint32_t id) { const El* e = FindEl(w, id); return e && e->codec == w.codecs[0].id; };
      std::stable_partition(ids.begin(), ids.end(), first);
      while (split < ids.size() && first(ids[split])) ++split;
      ns = static_cast<int>(r.Chance(1, 8) ? 3 : 2);
      if (!big && split > 2) { ids.erase(ids.begin() + 2, ids.begin() + split); split = 2; }
      if (!big && ids.size() > split + 2) ids.resize(split + 2);
    }
    for (int i = 0; i < ns; ++i) {
      std::vector<Ref> s;
      size_t take = i + 1 == ns && r.Chance(2, 3) ? ids.size() - at : static_cast<size_t>(r.Below(ids.size() - at + 1));
      if (!big && take > 2 && r.Bool()) take = 2;
      if (split && i == 0) take = split;
      if (split && i == 1 && ns == 2) take = ids.size() - at;
      for (size_t k = 0; k < take; ++k) { Ref x; x.el = ids[at++]; x.mode = static_cast<int>(r.Chance(1, 40) ? r.Below(4) : r.Below(2)); s.push_back(x); }
      m.sm.push_back(s);
    }
    // The reader refuses empty mixes; take those apart after reading.
    MixSpec filled = m;
    for (auto& s : filled.sm) if (s.empty()) s.push_back({555555u + static_cast<uint32_t>(&s - &filled.sm[0])});
    if (filled.sm.empty()) filled.sm.push_back({{5555}});
    auto o = Parse<MixPresentationObu>(EncodeMixSpec(r, filled));
    if (!o) HarnessBug("mix " + Text(w, filled));
    o->sub_mixes_.resize(m.sm.size());
    for (size_t i = 0; i < m.sm.size(); ++i) if (m.sm[i].empty()) o->sub_mixes_[i].audio_elements.clear();
    std::string why;
    Mask allowed = Allowed(w, m, &why);
    auto text = [&] { return Text(w, m) + " (model: " + why + ")"; };
    auto check = [&](Mask in) {
      Set set = ToSet(in);
      c.Eval();
      auto st = ProfileFilter::FilterProfilesForMixPresentation(els, *o, set);
      bool odd = false;
      Mask got = ToMask(set, &odd), want = in & allowed;
      V_CHECK(c, !odd && got == want, "mix-profiles", "of " << in << " keeps " << got << " instead of " << want << " " << text());
      V_CHECK(c, st.ok() == (want != 0), "mix-status", "of " << in << " want " << want << ": " << st.ToString() << " " << text());
      c.Count(want ? "mixes-kept" : "mixes-dropped");
    };
    check(kAll);
    for (int p = 0; p < 6; ++p) check(1u << p);
    for (int k = 0; k < 4; ++k) check(static_cast<Mask>(r.Below(64)));
    std::istringstream ws(why); std::string t; while (ws >> t) c.Count("limit-" + t);
    c.Distinct(HashStr(text()));
    if (c.WantSample() && allowed && allowed != kAll) c.Sample(text() + " keeps " + std::to_string(allowed));
  }
}

// ---- through the decoder: mixes outside the requested profiles are not offered ----
void Decoder(Ctx& c) {
  Rng& r = c.rng;
  ref::GenOpt g; g.max_tus = 1; g.expanded_all = true; g.max_elems = 3;
  auto st = ref::GenStream(r, g);
  Cfg cfg = GenCfg(r, st);
  auto settings = Settings(cfg);
  Mask ask = static_cast<Mask>(r.Range(1, 7));
  settings.requested_profile_versions.clear();
  for (int p = 0; p < 3; ++p) if (ask >> p & 1) settings.requested_profile_versions.insert(static_cast<api::ProfileVersion>(p));
  // The mixes the request leaves.
  auto left = st;
  left.mixes.clear();
  for (auto& m : st.mixes) {
    World w; MixSpec ms; ms.sm.emplace_back();
    w.codecs.push_back({st.codec.id, st.codec.fourcc, st.codec.nsamples, st.codec.lpcm.rate});
    for (auto& e : m.sm[0].el) {
      auto& el = st.ById(e.id);
      El x; x.id = e.id; x.codec = st.codec.id; x.channels = el.Channels(); x.s.type = el.e.type;
      if (el.Ambisonics() && el.e.amb_mode == 0) x.channels = el.e.N;
      if (el.e.type == 0) { x.s.layout = el.e.layers[0].layout; x.s.expanded = el.e.layers[0].layout == 15 ? el.e.layers[0].expanded : -1; }
      w.els.push_back(x);
      ms.sm[0].push_back({e.id, e.rc.mode});
    }
    std::string why;
    if (Allowed(w, ms, &why) & ask) left.mixes.push_back(m);
  }
  auto text = [&] { return "profiles " + std::to_string(ask) + " " + Describe(st, cfg, ref::Selected{}) + " left " + std::to_string(left.mixes.size()); };
  c.Eval();
  auto d = F::CreateFromDescriptors(settings, st.descriptors.data(), st.descriptors.size());
  if (left.mixes.empty()) {
    c.Count("decoder-none");
    api::SelectedMix got{};
    V_CHECK(c, d == nullptr || !d->GetOutputMix(got).ok(), "decoder-outside-profiles", text());
    return;
  }
  auto sel = ref::Select(left, cfg.q);
  if (!ref::Renderable(left, sel)) { c.Count("decoder-unrenderable"); return; }
  V_CHECK_R(c, d != nullptr, "decoder-refused", text(), );
  api::SelectedMix got{};
  V_CHECK_R(c, d->GetOutputMix(got).ok(), "decoder-no-mix", text(), );
  V_CHECK(c, got.mix_presentation_id == left.mixes[sel.mix].id, "decoder-mix", "selected " << got.mix_presentation_id << " instead of " << left.mixes[sel.mix].id << " " << text());
  c.Count(left.mixes.size() == st.mixes.size() ? "decoder-all" : "decoder-narrowed");
  c.Distinct(HashVec(st.descriptors) ^ ask);
}
}  // namespace
V_MAIN({{"elements", 1200, 20000, Elements}, {"mixes", 24000, 600000, Mixes}, {"decoder", 6000, 60000, Decoder}})
