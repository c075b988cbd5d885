// Shared pieces of the decoder monitors: settings, running the real decoder and
// comparing its output with the reference rendering.
#ifndef VERIF_DECWORK_H_
#define VERIF_DECWORK_H_
#include <memory>
#include "harness/ref/stream.h"
#include "harness/vlib.h"
#include "iamf/include/iamf_tools/iamf_decoder_factory.h"
#include "iamf/include/iamf_tools/iamf_decoder_interface.h"
#include "iamf/include/iamf_tools/iamf_tools_api_types.h"
namespace decwork {
using namespace vlib;
namespace api = iamf_tools::api;
typedef api::IamfDecoderFactory F;
typedef api::IamfDecoderInterface D;

struct Cfg {
  ref::Request q;
  bool android = false, bits16 = false, ts = true, te = true;
};
inline Cfg GenCfg(Rng& r, const ref::Stream& st, bool trims_off = true) {
  Cfg c;
  if (r.Chance(1, 2)) c.q.mix = r.Chance(3, 4) ? r.Pick(st.mixes).id : r.Edge32();
  if (r.Chance(2, 3)) {
    if (r.Chance(1, 2)) { auto& m = r.Pick(st.mixes); int s = ref::LayoutSsOf(r.Pick(m.sm[0].layouts)); c.q.layout = s < 0 ? ref::kBinaural : s; }
    else c.q.layout = static_cast<int>(r.Below(15));
    if (*c.q.layout > 14) c.q.layout.reset();
  }
  c.android = r.Chance(1, 3); c.bits16 = r.Chance(1, 3);
  if (trims_off) { c.ts = !r.Chance(1, 4); c.te = !r.Chance(1, 4); }
  return c;
}
inline api::RequestedMix ApiRequest(const ref::Request& q) {
  api::RequestedMix m;
  if (q.mix) m.mix_presentation_id = *q.mix;
  if (q.layout) m.output_layout = static_cast<api::OutputLayout>(*q.layout);
  return m;
}
inline F::Settings Settings(const Cfg& c) {
  F::Settings s;
  s.requested_mix = ApiRequest(c.q);
  s.channel_ordering = c.android ? api::ChannelOrdering::kOrderingForAndroid : api::ChannelOrdering::kIamfOrdering;
  s.requested_output_sample_type = c.bits16 ? api::OutputSampleType::kInt16LittleEndian : api::OutputSampleType::kInt32LittleEndian;
  s.trimming_settings.trim_beginning = c.ts; s.trimming_settings.trim_end = c.te;
  return s;
}
inline int OutChannels(const ref::Selected& s) { return s.ss < 0 ? 2 : ref::SsChannels(s.ss); }
inline std::string Describe(const ref::Stream& st, const Cfg& c, const ref::Selected& s) {
  std::ostringstream o;
  o << "codec n=" << st.codec.nsamples << " bits=" << int(st.codec.lpcm.size) << " rate=" << st.codec.lpcm.rate << " elems=";
  for (auto& e : st.elems) {
    o << "{" << e.e.id << ":";
    if (e.Ambisonics()) o << "amb" << e.e.amb_mode << " C" << int(e.e.C) << " N" << int(e.e.N) << " M" << int(e.e.M);
    else for (auto& l : e.e.layers) o << " " << int(l.layout) << (l.layout == 15 ? "/" + std::to_string(l.expanded) : "");
    o << "}";
  }
  o << " mixes=";
  for (auto& m : st.mixes) { o << "{" << m.id << ": el"; for (auto& e : m.sm[0].el) o << " " << e.id; o << " layouts"; for (auto& l : m.sm[0].layouts) o << " " << ref::LayoutSsOf(l); o << "}"; }
  o << " tus=" << st.tus.size() << " request mix=" << (c.q.mix ? std::to_string(*c.q.mix) : "-") << " layout=" << (c.q.layout ? std::to_string(*c.q.layout) : "-")
    << " android=" << c.android << " 16bit=" << c.bits16 << " trim=" << c.ts << c.te << " selected mix=" << st.mixes[s.mix].id << " system=" << s.ss;
  return o.str();
}
// The expected output range of one temporal unit, interleaved.
struct Want { std::vector<std::pair<int64_t, int64_t>> v; size_t ticks = 0; bool exact = false; };
inline int64_t ClampI32(double x) { return x >= 2147483647.0 ? 2147483647 : x <= -2147483648.0 ? -2147483648LL : static_cast<int64_t>(x); }
inline Want WantTu(const ref::Stream& st, const Cfg& c, const ref::Selected& s, size_t t, bool demix_blocks = true) {
  Want w;
  ref::Mat err;
  auto m = ref::RenderTu(st, s, t, c.ts, c.te, &w.exact, &err, demix_blocks);
  w.ticks = m[0].size();
  auto order = c.android ? ref::AndroidOrder(s.ss) : std::vector<int>();
  for (size_t i = 0; i < w.ticks; ++i) for (size_t ch = 0; ch < m.size(); ++ch) {
    size_t src = c.android ? order[ch] : ch;
    double v = m[src][i] * 2147483648.0, tol = w.exact ? 0 : 2.0 + err[src][i] * 2147483648.0;
    int64_t lo = ClampI32(v - tol), hi = ClampI32(v + tol);
    if (c.bits16) { lo >>= 16; hi >>= 16; }
    w.v.push_back({lo, hi});
  }
  return w;
}
// Empty when `out` is what `w` demands, else what differs.
inline std::string Compare(const Want& w, const std::vector<uint8_t>& out, bool bits16) {
  size_t b = bits16 ? 2 : 4;
  if (out.size() != w.v.size() * b) return "size " + std::to_string(out.size()) + " instead of " + std::to_string(w.v.size() * b);
  for (size_t i = 0; i < w.v.size(); ++i) {
    int64_t x = bits16 ? static_cast<int16_t>(out[2 * i] | out[2 * i + 1] << 8) : static_cast<int32_t>(out[4 * i] | out[4 * i + 1] << 8 | out[4 * i + 2] << 16 | static_cast<uint32_t>(out[4 * i + 3]) << 24);
    if (x < w.v[i].first || x > w.v[i].second)
      return "sample " + std::to_string(i) + " is " + std::to_string(x) + " instead of " + std::to_string(w.v[i].first) + ".." + std::to_string(w.v[i].second);
  }
  return "";
}
inline size_t MaxBytes(const ref::Stream& st, const ref::Selected& s) { return static_cast<size_t>(st.codec.nsamples) * OutChannels(s) * 4; }
struct Out { bool ok = true; std::string err; std::vector<uint8_t> data; };
inline Out Take(D& d, size_t cap) {
  Out o; o.data.assign(cap + 8, 0xa5);
  size_t n = 777;
  auto s = d.GetOutputTemporalUnit(o.data.data(), cap, n);
  o.ok = s.ok(); o.err = s.error_message;
  for (size_t i = cap; i < cap + 8; ++i) if (o.data[i] != 0xa5) { o.ok = false; o.err = "wrote behind the buffer"; }
  if (n > cap) { o.ok = false; o.err += " bytes_written " + std::to_string(n); n = 0; }
  o.data.resize(n);
  return o;
}
// Adds an element coded with another codec, and a mix of just that element.
inline void AddForeign(Rng& r, ref::Stream& st) {
  st.codec.lpcm.rate = 48000;
  for (auto& e : st.elems) for (auto& p : e.e.params) p.rate = 48000;
  for (auto& m : st.mixes) { for (auto& e : m.sm[0].el) e.gain.rate = 48000; m.sm[0].out.rate = 48000; }
  for (auto& u : st.tus) for (auto& b : u.blocks) b.def.rate = 48000;
  ref::Codec k; k.id = st.codec.id ^ 1; k.fourcc = ref::kOpus; k.nsamples = st.codec.nsamples; k.roll = ref::OpusRoll(k.nsamples);
  st.more_codecs = {k};
  ref::Elem el; el.e.type = 0; el.e.codec = k.id;
  auto unused = [](auto&& used) { uint32_t v = 70; while (used(v)) ++v; return v; };
  el.e.id = unused([&](uint32_t v) { for (auto& e : st.elems) if (e.e.id == v) return true; return false; });
  uint32_t sub = unused([&](uint32_t v) { for (auto& e : st.elems) for (auto x : e.e.subs) if (x == v) return true; return false; });
  ref::Layer l; l.layout = 1; l.sub = 1; l.coupled = 1; el.e.layers = {l}; el.e.subs = {sub}; el.subs = ref::LayoutSubs(1);
  st.elems.push_back(el);
  ref::Mix m = st.mixes[0];
  m.id = unused([&](uint32_t v) { for (auto& x : st.mixes) if (x.id == v) return true; return false; });
  ref::MixElement me; me.id = el.e.id; me.gain = m.sm[0].el[0].gain;
  m.sm[0].el = {me};
  st.mixes.push_back(m);
  for (auto& u : st.tus) { u.payload.push_back(r.Bytes(r.Below(20))); u.pcm.push_back({}); }
  ref::EncodeStream(r, st, ref::Lp{0, &r});
}
}  // namespace decwork
#endif
