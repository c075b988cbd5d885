// C26: what the encoder emits for audio, trims and parameter blocks, against the reference model; and the
// decoder's view of it.
#include "harness/decwork.h"
#include "harness/encwork.h"
using namespace vlib;
using ref::Bytes;
namespace {
std::string Text(const enc::Job& j) {
  std::ostringstream o;
  o << "codec " << std::string{char(j.st.codec.fourcc >> 24), char(j.st.codec.fourcc >> 16), char(j.st.codec.fourcc >> 8), char(j.st.codec.fourcc)} << " n=" << j.N() << " bits=" << enc::BitDepth(j.st.codec) << " flags=" << int(j.st.codec.lpcm.flags)
    << " rate=" << j.st.codec.lpcm.rate << " S=" << j.S << " trim start=" << j.ts << (j.ts_incl ? "(incl)" : "") << " end=" << j.te << (j.te_incl ? "(incl)" : "") << " leb=" << j.leb_mode << " profiles=" << int(j.st.primary) << "/" << int(j.st.additional) << " elems=";
  for (auto& e : j.st.elems) {
    o << "{" << e.e.id << ":";
    if (e.Ambisonics()) o << "amb" << e.e.amb_mode << " C" << int(e.e.C) << " N" << int(e.e.N) << " M" << int(e.e.M);
    else for (auto& l : e.e.layers) { o << " " << int(l.layout) << (l.layout == 15 ? "/" + std::to_string(l.expanded) : ""); if (l.og) o << "g" << int(l.og_flags) << "@" << l.gain; }
    for (auto& p : e.e.params) o << " p" << p.type << "#" << p.id << " mode " << int(p.dmode) << " w " << int(p.dw);
    o << "}";
  }
  o << " mixes=" << j.st.mixes.size() << " blocks/frame=";
  for (auto& b : j.blocks) { o << b.size(); for (auto& x : b) if (x.def.type == 1) o << "d" << int(x.data[0].dmode); o << ","; }
  return o.str();
}
std::string Join(const std::vector<Bytes>& v) { std::string s; for (auto& b : v) s += Hex(b, 60) + " | "; return s; }
bool Same(Ctx& c, const char* key, const std::vector<Bytes>& want, const std::vector<Bytes>& got, const std::string& text) {
  if (want == got) return true;
  std::string d;
  if (want.size() != got.size()) d = "count " + std::to_string(got.size()) + " instead of " + std::to_string(want.size());
  else for (size_t i = 0; i < want.size(); ++i) if (want[i] != got[i]) { d = "#" + std::to_string(i) + " is " + Hex(got[i], 400) + " instead of " + Hex(want[i], 400); break; }
  c.Fail(key, d + " " + text);
  return false;
}
bool CheckDescriptors(Ctx& c, const enc::Job& j, const Bytes& bytes, const std::string& text) {
  std::vector<enc::Cut> cuts;
  V_CHECK_R(c, enc::Split(bytes, cuts), "descriptor-syntax", Hex(bytes, 600) + " " + text, false);
  auto w = enc::ExpectDescriptors(j, c.rng);
  std::vector<Bytes> ia, cc, el, mx; int last = -1; bool order = true;
  for (auto& x : cuts) {
    int rank = x.type == 31 ? 0 : x.type == 0 ? 1 : x.type == 1 ? 2 : x.type == 2 ? 3 : 99;
    if (rank < last) order = false;
    last = rank;
    (rank == 0 ? ia : rank == 1 ? cc : rank == 2 ? el : mx).push_back(x.whole);
  }
  V_CHECK_R(c, order, "descriptor-order", Hex(bytes, 600) + " " + text, false);
  std::sort(cc.begin(), cc.end()); std::sort(w.codecs.begin(), w.codecs.end());
  return Same(c, "header", {w.ia}, ia, text) && Same(c, "codec-config", w.codecs, cc, text) && Same(c, "audio-element", w.elems, el, text) && Same(c, "mix-presentation", w.mixes, mx, text);
}
// Checks one unit; fills the coded samples per substream id.
bool CheckUnit(Ctx& c, const enc::Job& j, const enc::Want& w, size_t k, const Bytes& bytes, std::map<uint32_t, std::vector<std::vector<int64_t>>>& coded, std::map<uint32_t, Bytes>& payloads, const std::string& text) {
  std::vector<enc::Cut> cuts;
  auto at = [&] { return "unit " + std::to_string(k) + " " + text + " bytes=" + Hex(bytes, 300); };
  V_CHECK_R(c, enc::Split(bytes, cuts), "unit-syntax", at(), false);
  size_t i = 0;
  if (j.delimiters) { V_CHECK_R(c, !cuts.empty() && cuts[0].type == 4 && cuts[0].payload.empty() && !cuts[0].flag && !cuts[0].redundant, "delimiter", at(), false); ++i; }
  // Parameter blocks, in any order.
  ref::Lp lp{j.leb_mode, &c.rng};
  std::vector<Bytes> want, got;
  for (size_t q = 0; q < j.blocks[k].size(); ++q) {
    ref::Hdr h; h.type = 3;
    auto& e = j.ext_block.empty() ? std::optional<Bytes>() : j.ext_block[(k + q) % j.ext_block.size()];
    if (e) { h.ext = true; h.ext_bytes = *e; }
    want.push_back(ref::EncodeObu(h, ref::EncodePBlock(j.blocks[k][q], lp), lp));
  }
  for (; i < cuts.size() && cuts[i].type == 3; ++i) got.push_back(cuts[i].whole);
  std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
  if (!Same(c, "parameter-blocks", want, got, at())) return false;
  // Frames, each substream once.
  std::map<uint32_t, enc::WantFrame> left;
  for (auto& f : w.f[k]) left.emplace(f.id, f);
  for (; i < cuts.size(); ++i) {
    auto& x = cuts[i];
    V_CHECK_R(c, x.type >= 5 && x.type <= 23 && !x.redundant && !x.ext, "frame-obu", "type " + std::to_string(x.type) + " " + at(), false);
    Bytes p = x.payload; uint32_t id;
    if (x.type == 5) { ref::BitsIn in(p); id = in.GetLeb(); V_CHECK_R(c, !in.bad, "frame-id", at(), false); p.erase(p.begin(), p.begin() + in.pos / 8); V_CHECK_R(c, id > 17, "frame-id-form", at(), false); }
    else id = static_cast<uint32_t>(x.type - 6);
    auto it = left.find(id);
    V_CHECK_R(c, it != left.end(), "frame-substream", "substream " + std::to_string(id) + " " + at(), false);
    auto& f = it->second;
    V_CHECK_R(c, x.ts == w.trims[k].first && x.te == w.trims[k].second, "trim", "trims " + std::to_string(x.ts) + "/" + std::to_string(x.te) + " instead of " + std::to_string(w.trims[k].first) + "/" + std::to_string(w.trims[k].second) + " " + at(), false);
    V_CHECK_R(c, x.flag == (x.ts || x.te), "trim-flag", at(), false);
    const ref::Codec* codec = nullptr;
    for (auto& el : j.st.elems) for (auto s : el.e.subs) if (s == id) codec = &enc::CodecOf(j, el);
    std::vector<std::vector<int64_t>> pcm;
    V_CHECK_R(c, enc::ParsePayload(*codec, static_cast<int>(f.pcm.size()), j.N(), p, pcm), "frame-payload", "substream " + std::to_string(id) + " payload " + Hex(p, 100) + " " + at(), false);
    for (size_t ch = 0; ch < pcm.size(); ++ch) for (uint32_t t = 0; t < j.N(); ++t) {
      double x32 = f.pcm[ch][t] * 2147483648.0;
      x32 = std::clamp(x32, -2147483648.0, 2147483647.0);
      // One unit of the 32-bit grid for a value that is not on it, then the top bits; lossy codecs may round.
      double tol = f.exact_ok && x32 == std::floor(x32) ? 0 : 2 + std::fabs(x32) * 1e-12;
      int sh = 32 - f.bits;
      int64_t lo = static_cast<int64_t>(std::max(-2147483648.0, std::floor(x32 - tol))) >> sh, hi = static_cast<int64_t>(std::min(2147483647.0, std::ceil(x32 + tol))) >> sh;
      if (f.fourcc == ref::kOpus) { lo -= 1; hi += 1; }
      V_CHECK_R(c, pcm[ch][t] >= lo && pcm[ch][t] <= hi, f.exact_ok ? "pcm-exact" : "pcm", "substream " + std::to_string(id) + " channel " + std::to_string(ch) + " tick " + std::to_string(t) + " is " + std::to_string(pcm[ch][t]) + " instead of " + std::to_string(lo) + ".." + std::to_string(hi) + " " + at(), false);
    }
    c.Count(f.exact_ok ? "samples-exact" : "samples-mixed", pcm.size() * j.N());
    coded[id] = pcm; payloads[id] = p;
    left.erase(it);
  }
  V_CHECK_R(c, left.empty(), "frame-missing", at(), false);
  return true;
}
// Whether the plain reference renderer covers what the job asks for.
bool Decodable(const enc::Job& j) {
  if (j.st.primary > 2 || !j.st.more_codecs.empty()) return false;
  for (auto& el : j.st.elems) { for (auto& l : el.e.layers) if (l.rg) return false; if (el.e.type == 2) return false; }
  for (auto& b : j.blocks) for (auto& x : b) if (x.def.type != 0) return false;
  return true;
}
void DecodeBack(Ctx& c, const enc::Job& j, const enc::Want& w, const enc::Encoded& e, const std::vector<std::map<uint32_t, std::vector<std::vector<int64_t>>>>& coded, const std::string& text) {
  using namespace decwork;
  ref::Stream st = j.st;
  for (uint32_t k = 0; k < w.frames; ++k) {
    ref::Tu u; u.ticks = j.N(); u.trim_start = w.trims[k].first; u.trim_end = w.trims[k].second;
    for (auto& el : st.elems) for (auto s : el.e.subs) {
      std::vector<std::vector<int32_t>> p;
      for (auto& ch : coded[k].at(s)) p.emplace_back(ch.begin(), ch.end());
      u.pcm.push_back(p); u.payload.push_back({});
    }
    u.blocks = j.blocks[k];
    // The curve of a frame cut at its start is left out.
    if (u.trim_start && !u.blocks.empty()) return;
    st.tus.push_back(u);
  }
  Cfg cfg = GenCfg(c.rng, st);
  auto sel = ref::Select(st, cfg.q);
  if (!ref::Renderable(st, sel)) return;
  auto full = [&] { return Describe(st, cfg, sel) + " " + text; };
  std::unique_ptr<D> d;
  bool standalone = c.rng.Bool();
  d = standalone ? F::Create(Settings(cfg)) : F::CreateFromDescriptors(Settings(cfg), e.descriptors.data(), e.descriptors.size());
  V_CHECK_R(c, d != nullptr, "decoder-refused", full(), );
  std::vector<std::vector<uint8_t>> outs;
  auto drain = [&]() -> bool {
    while (d->IsTemporalUnitAvailable()) { auto o = Take(*d, MaxBytes(st, sel)); V_CHECK_R(c, o.ok, "decoder-output", o.err + " " + full(), false); outs.push_back(o.data); }
    return true;
  };
  auto give = [&](const Bytes& b) -> bool { auto s = d->Decode(b.data(), b.size()); V_CHECK_R(c, s.ok(), "decoder-failed", s.error_message + " " + full(), false); return drain(); };
  if (standalone && !give(e.descriptors)) return;
  for (auto& t : e.tus) if (!give(t)) return;
  auto s = d->SignalEndOfDecoding();
  V_CHECK_R(c, s.ok(), "decoder-end", s.error_message + " " + full(), );
  if (!drain()) return;
  V_CHECK_R(c, outs.size() == st.tus.size(), "decoded-units", std::to_string(outs.size()) + " instead of " + std::to_string(st.tus.size()) + " " + full(), );
  size_t ticks = 0;
  for (size_t t = 0; t < outs.size(); ++t) {
    auto wt = WantTu(st, cfg, sel, t);
    auto diff = Compare(wt, outs[t], cfg.bits16);
    V_CHECK_R(c, diff.empty(), "decoded-pcm", "unit " + std::to_string(t) + ": " + diff + " " + full(), );
    ticks += wt.ticks;
  }
  if (cfg.ts && cfg.te) {
    uint64_t us = j.ts_incl ? j.ts - w.delay : j.ts, pad = uint64_t{w.frames} * j.N() - w.delay - j.S, ue = j.te_incl ? j.te - pad : j.te;
    V_CHECK_R(c, ticks == j.S - us - ue, "decoded-length", std::to_string(ticks) + " instead of " + std::to_string(j.S) + "-" + std::to_string(us) + "-" + std::to_string(ue) + " " + full(), );
    c.Count("decoded-whole");
  }
  c.Count("decoded");
}
// What the encoder tells about its descriptors without encoding them.
bool CheckGetters(Ctx& c, const enc::Job& j, enc::Enc& e, bool final_want, const std::string& text) {
  bool fin = !final_want;
  auto& m = e.GetMixPresentationObus(fin);
  V_CHECK_R(c, fin == final_want, "getter-final", std::to_string(fin) + " " + text, false);
  V_CHECK_R(c, e.GeneratingTemporalUnits() == !final_want, "getter-generating", text, false);
  std::vector<uint32_t> a, b;
  for (auto& x : m) a.push_back(x.GetMixPresentationId());
  for (auto& x : j.st.mixes) b.push_back(x.id);
  V_CHECK_R(c, a == b, "getter-mixes", text, false);
  auto& el = e.GetAudioElements();
  V_CHECK_R(c, el.size() == j.st.elems.size(), "getter-elements", text, false);
  for (auto& x : j.st.elems) {
    auto it = el.find(x.e.id);
    V_CHECK_R(c, it != el.end() && it->second.obu.GetAudioElementId() == x.e.id && it->second.codec_config && it->second.codec_config->GetCodecConfigId() == x.e.codec && std::vector<uint32_t>(it->second.obu.audio_substream_ids_.begin(), it->second.obu.audio_substream_ids_.end()) == x.e.subs, "getter-element", std::to_string(x.e.id) + " " + text, false);
  }
  V_CHECK_R(c, e.GetDescriptorArbitraryObus().empty(), "getter-arbitrary", text, false);
  c.Count("getters");
  return true;
}
// A sequence of descriptors alone: no element has audio.
void Trivial(Ctx& c) {
  enc::JobOpt o; o.bad_trims = false; o.multi_codec = c.rng.Bool(); o.presets = c.rng.Bool(); o.objects = c.rng.Bool(); o.ext_params = true;
  auto j = enc::GenJob(c.rng, o);
  auto text = "descriptors alone " + Text(j);
  auto u = enc::Metadata(j);
  u.clear_audio_frame_metadata();
  c.Eval();
  auto e = enc::MakeEncoder(u);
  V_CHECK(c, e.ok(), "refused", std::string(e.status().message()) + " " + text);
  auto& x = **e;
  Bytes d{1, 2, 3}; bool fin = true;
  auto s = x.GetDescriptorObus(false, d, fin);
  V_CHECK(c, s.ok(), "failed", std::string(s.message()) + " " + text);
  V_CHECK(c, !fin, "finalized-early", text);
  if (!CheckDescriptors(c, j, d, "(before) " + text)) return;
  s = x.FinalizeEncode();
  V_CHECK(c, s.ok(), "failed", std::string(s.message()) + " " + text);
  if (!CheckGetters(c, j, x, true, text)) return;
  for (int q = 0; q < 2; ++q) {
    d = {9}; fin = false;
    s = x.GetDescriptorObus(false, d, fin);
    V_CHECK(c, s.ok() && fin, "finalized", text);
    if (!CheckDescriptors(c, j, d, text)) return;
    s = x.FinalizeEncode();
    V_CHECK(c, s.ok(), "finalize-again", std::string(s.message()) + " " + text);
  }
  c.Distinct(HashVec(d)); c.Count("descriptors-alone");
}
void Encode(Ctx& c, const enc::JobOpt& o) {
  auto j = enc::GenJob(c.rng, o);
  auto w = enc::Expect(j);
  auto text = Text(j);
  c.Eval();
  auto u = enc::Metadata(j);
  auto e = enc::MakeEncoder(u);
  if (!w.ok) {
    c.Count("refusals");
    if (!e.ok()) return;
    auto r = enc::Run(**e, j, w.frames);
    V_CHECK_R(c, !r.status.ok(), "accepted-bad", w.why + " " + text, );
    return;
  }
  V_CHECK_R(c, e.ok(), "refused", std::string(e.status().message()) + " " + text, );
  if (!CheckGetters(c, j, **e, false, text)) return;
  auto r = enc::Run(**e, j, w.frames);
  V_CHECK_R(c, r.status.ok(), "failed", r.where + ": " + std::string(r.status.message()) + " " + text, );
  V_CHECK_R(c, r.delay == w.delay, "delay", std::to_string(r.delay) + " instead of " + std::to_string(w.delay) + " " + text, );
  V_CHECK_R(c, !r.final_before && r.final_after, "finalized", text, );
  if (!CheckGetters(c, j, **e, true, text)) return;
  if (!CheckDescriptors(c, j, r.first_descriptors, "(before) " + text) || !CheckDescriptors(c, j, r.descriptors, text)) return;
  V_CHECK_R(c, r.tus.size() == w.frames, "unit-count", std::to_string(r.tus.size()) + " instead of " + std::to_string(w.frames) + " " + text, );
  std::vector<std::map<uint32_t, std::vector<std::vector<int64_t>>>> coded(w.frames);
  std::vector<std::map<uint32_t, Bytes>> payloads(w.frames);
  uint64_t h = HashVec(r.descriptors);
  for (uint32_t k = 0; k < w.frames; ++k) { if (!CheckUnit(c, j, w, k, r.tus[k], coded[k], payloads[k], text)) return; h = Mix(h ^ HashVec(r.tus[k])); }
  c.Distinct(h);
  c.Count("sequences"); c.Count("units", w.frames);
  switch (j.st.codec.fourcc) { case ref::kLpcm: c.Count("lpcm"); break; case ref::kFlac: c.Count("flac"); break; case ref::kOpus: c.Count("opus"); break; case ref::kAac: c.Count("aac"); break; }
  bool sc = false, ga = false, dm = false; for (auto& el : j.st.elems) { sc |= el.scalable; for (auto& l : el.e.layers) ga |= l.og; }
  for (auto& b : j.blocks) for (auto& x : b) { dm |= x.def.type == 1; if (x.def.type == 2) c.Count("recon-blocks"); }
  if (sc) c.Count("scalable"); if (ga) c.Count("output-gain"); if (dm) c.Count("demixing-blocks"); if (j.st.elems.size() > 1) c.Count("several-elements");
  if (!j.preset.empty()) c.Count("presets");
  for (auto& [id, order] : j.preset) if (order == 3) for (auto& el : j.st.elems) if (el.e.id == id && el.e.amb_mode == 1) c.Count("presets-projected");
  for (auto& el : j.st.elems) { if (el.e.type == 2) c.Count("objects"); for (auto& p : el.e.params) if (p.type == 0xffffffffu) c.Count("extension-parameters"); }
  if (!j.st.more_codecs.empty()) c.Count("several-codecs");
  if (c.WantSample()) c.Sample(text + " -> " + std::to_string(w.frames) + " units");
  if (Decodable(j)) DecodeBack(c, j, w, r, coded, text);
}
void Plain(Ctx& c) { Encode(c, {}); }
void Scalable(Ctx& c) { enc::JobOpt o; o.lossy = false; o.scalable_only = true; Encode(c, o); }
void LossyScalable(Ctx& c) { enc::JobOpt o; o.lossy_scalable = true; Encode(c, o); }
void Simple(Ctx& c) { enc::JobOpt o; o.rich = false; o.bad_trims = false; o.max_frame = 100; Encode(c, o); }
}  // namespace
void Mixed(Ctx& c) {
  enc::JobOpt o; o.bad_trims = c.rng.Chance(1, 4);
  o.multi_codec = c.rng.Chance(1, 2); o.presets = c.rng.Bool(); o.objects = c.rng.Chance(1, 2); o.ext_params = c.rng.Bool();
  Encode(c, o);
}
void Projected(Ctx& c) { enc::JobOpt o; o.bad_trims = false; o.projected = true; Encode(c, o); }
V_MAIN({{"plain", 4000, 20000, Plain}, {"scalable", 2000, 8000, Scalable}, {"lossyscalable", 600, 4000, LossyScalable}, {"mixed", 2000, 10000, Mixed}, {"projected", 200, 1000, Projected}, {"trivial", 800, 4000, Trivial}, {"simple", 2400, 12000, Simple}})
