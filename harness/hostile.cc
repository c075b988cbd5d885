// C01: hostile bytes through every entry of the decoder, watched by ASan/UBSan, an allocation and a progress monitor.
#include <ctime>
#include "harness/alloc.h"
#include "harness/decwork.h"
#include "iamf/cli/descriptor_obu_parser.h"
#include "iamf/cli/obu_processor.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/obu/arbitrary_obu.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/audio_frame.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/ia_sequence_header.h"
#include "iamf/obu/metadata_obu.h"
#include "iamf/obu/mix_presentation.h"
#include "iamf/obu/obu_header.h"
#include "iamf/obu/temporal_delimiter.h"
using namespace decwork;
namespace {
using ref::Bytes;
namespace it = iamf_tools;
// Values at the limits of what fields of the syntax hold.
uint32_t Wild(Rng& r) { return r.Chance(1, 3) ? r.Edge32() : r.Chance(1, 2) ? static_cast<uint32_t>(r.Below(8)) : r.Pick<uint32_t>({0, 1, 127, 128, 255, 256, 2048, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu}); }
template <class T> void Tweak(Rng& r, T& v) { switch (r.Below(4)) { case 0: v = static_cast<T>(v + 1); break; case 1: v = static_cast<T>(v - 1); break; default: v = static_cast<T>(Wild(r)); } }
template <class V> void TweakList(Rng& r, V& v) {
  switch (r.Below(4)) {
    case 0: if (!v.empty()) v.erase(v.begin() + r.Below(v.size())); break;
    case 1: if (!v.empty()) { auto x = v[r.Below(v.size())]; v.insert(v.begin() + r.Below(v.size() + 1), x); } break;
    case 2: if (v.size() > 1) std::swap(v[r.Below(v.size())], v[r.Below(v.size())]); break;
    default: if (!v.empty()) { int n = static_cast<int>(r.Range(1, 40)); auto x = v[0]; for (int i = 0; i < n; ++i) v.push_back(x); }
  }
}
void TweakPd(Rng& r, ref::Pd& p) {
  switch (r.Below(9)) {
    case 0: Tweak(r, p.id); break;
    case 1: Tweak(r, p.rate); break;
    case 2: p.mode1 = !p.mode1; break;
    case 3: Tweak(r, p.s.dur); break;
    case 4: Tweak(r, p.s.csd); break;
    case 5: TweakList(r, p.s.subs); break;
    case 6: if (!p.s.subs.empty()) Tweak(r, p.s.subs[r.Below(p.s.subs.size())]); break;
    case 7: p.s.num = Wild(r); break;
    default: p.type = static_cast<uint32_t>(r.Below(12)); Tweak(r, p.dmode); p.dmode &= 7; p.dw = r.Below(16);
  }
}
// Changes one field of the model of a sequence, legal or not.
void TweakStream(Rng& r, ref::Stream& st) {
  switch (r.Below(16)) {
    case 0: switch (r.Below(6)) { case 0: Tweak(r, st.codec.nsamples); break; case 1: st.codec.lpcm.size = r.U8(); break; case 2: Tweak(r, st.codec.lpcm.rate); break; case 3: st.codec.lpcm.flags = r.U8(); break; case 4: Tweak(r, st.codec.roll); break; default: Tweak(r, st.codec.id); } break;
    case 1: { auto k = ref::GenCodec(r); k.id = st.codec.id; k.nsamples = r.Bool() ? st.codec.nsamples : k.nsamples; st.codec = k; break; }
    case 2: st.more_codecs.push_back(r.Bool() ? st.codec : ref::GenCodec(r)); if (r.Bool()) std::swap(st.more_codecs.back(), st.codec); break;
    case 3: case 4: {
      if (st.elems.empty()) break;
      auto& e = st.elems[r.Below(st.elems.size())].e;
      switch (r.Below(14)) {
        case 0: e.type = r.Below(8); break;
        case 1: Tweak(r, e.codec); break;
        case 2: TweakList(r, e.subs); break;
        case 3: if (!e.subs.empty()) Tweak(r, e.subs[r.Below(e.subs.size())]); break;
        case 4: { auto p = ref::GenPd(r, static_cast<uint32_t>(r.Range(0, 10))); p.s.dur = p.s.csd = r.Bool() ? st.codec.nsamples : Wild(r); e.params.push_back(p); break; }
        case 5: TweakList(r, e.params); break;
        case 6: if (!e.params.empty()) TweakPd(r, e.params[r.Below(e.params.size())]); break;
        case 7: e.num_params = Wild(r); break;
        case 8: TweakList(r, e.layers); if (e.layers.size() > 7) e.layers.resize(7); break;
        case 9: case 10: if (!e.layers.empty()) { auto& l = e.layers[r.Below(e.layers.size())]; switch (r.Below(6)) { case 0: l.layout = r.Below(16); break; case 1: l.sub = static_cast<uint8_t>(Wild(r)); break; case 2: l.coupled = static_cast<uint8_t>(Wild(r)); break; case 3: l.expanded = r.Bool() ? r.U8() : r.Below(20); break; case 4: l.rg = !l.rg; break; default: l.og = !l.og; l.og_flags = r.U8() & 63; l.gain = ref::GenS16(r); } } break;
        case 11: switch (r.Below(4)) { case 0: Tweak(r, e.C); break; case 1: Tweak(r, e.N); break; case 2: Tweak(r, e.M); break; default: Tweak(r, e.amb_mode); } break;
        case 12: if (r.Bool()) TweakList(r, e.mapping); else if (!e.mapping.empty()) Tweak(r, e.mapping[r.Below(e.mapping.size())]); break;
        default: if (r.Bool()) TweakList(r, e.matrix); else Tweak(r, e.id);
      }
      break;
    }
    case 5: { auto k = st.elems.empty() ? ref::Elem() : r.Pick(st.elems); if (st.elems.empty() || r.Bool()) { k = ref::Elem(); k.e = ref::GenElement(r); k.e.codec = st.codec.id; } if (r.Bool()) k.e.id = Wild(r); st.elems.insert(st.elems.begin() + r.Below(st.elems.size() + 1), k); break; }
    case 6: if (st.elems.size() > 1) st.elems.erase(st.elems.begin() + r.Below(st.elems.size())); break;
    case 7: { auto m = ref::GenMix(r, false); auto& old = r.Pick(st.mixes); if (r.Bool() && !old.sm.empty()) for (auto& s : m.sm) for (size_t i = 0; i < s.el.size() && i < old.sm[0].el.size(); ++i) s.el[i].id = old.sm[0].el[i].id; st.mixes.insert(st.mixes.begin() + r.Below(st.mixes.size() + 1), m); break; }
    case 8: case 9: {
      auto& m = st.mixes[r.Below(st.mixes.size())];
      if (m.sm.empty()) break;
      auto& s = m.sm[r.Below(m.sm.size())];
      switch (r.Below(10)) {
        case 0: if (!s.el.empty()) Tweak(r, s.el[r.Below(s.el.size())].id); break;
        case 1: TweakList(r, s.el); break;
        case 2: TweakList(r, s.layouts); break;
        case 3: if (!s.layouts.empty()) s.layouts[r.Below(s.layouts.size())] = ref::GenLayout(r); break;
        case 4: TweakPd(r, s.out); break;
        case 5: if (!s.el.empty()) TweakPd(r, s.el[r.Below(s.el.size())].gain); break;
        case 6: if (!s.el.empty()) s.el[r.Below(s.el.size())].rc = ref::GenRendering(r, false); break;
        case 7: TweakList(r, m.sm); if (m.sm.size() > 6) m.sm.resize(6); break;
        case 8: if (!s.layouts.empty()) { auto& l = s.layouts[r.Below(s.layouts.size())]; l.info = r.U8(); l.anchors.resize(r.Below(20)); l.ext = r.Bytes(r.Below(5)); } break;
        default: Tweak(r, m.id);
      }
      break;
    }
    case 10: st.primary = r.Bool() ? r.U8() : r.Below(8); st.additional = r.Bool() ? r.U8() : r.Below(8); break;
    default: {
      if (st.tus.empty()) break;
      auto& u = st.tus[r.Below(st.tus.size())];
      switch (r.Below(9)) {
        case 0: if (!u.payload.empty()) { auto& p = u.payload[r.Below(u.payload.size())]; if (r.Bool()) p.resize(r.Below(p.size() + 1)); else { auto x = r.Bytes(r.Below(100)); p.insert(p.end(), x.begin(), x.end()); } } break;
        case 1: u.trim_flag = true; Tweak(r, u.trim_start); break;
        case 2: u.trim_flag = true; Tweak(r, u.trim_end); break;
        case 3: TweakList(r, u.blocks); break;
        case 4: if (!u.blocks.empty()) { auto& b = u.blocks[r.Below(u.blocks.size())]; ref::Pd d; d.s = b.s; d.id = b.def.id; d.mode1 = b.def.mode1; TweakPd(r, d); b.s = d.s; if (r.Bool()) b.def.id = d.id; if (r.Chance(1, 3)) b.def.mode1 = d.mode1; } break;
        case 5: if (!u.blocks.empty()) { auto& b = u.blocks[r.Below(u.blocks.size())]; if (!b.data.empty()) b.data[r.Below(b.data.size())].anim = r.Below(6); } break;
        case 6: if (!u.blocks.empty()) { auto& b = u.blocks[r.Below(u.blocks.size())]; b.data.resize(r.Below(6)); } break;
        case 7: if (!u.payload.empty()) u.payload[r.Below(u.payload.size())] = r.Bytes(r.Below(60)); break;
        default: TweakList(r, st.tus);
      }
    }
  }
}
// EncodeStream needs one payload per substream and a subblock per duration.
void Fit(Rng& r, ref::Stream& st) {
  size_t n = 0;
  for (auto& e : st.elems) n += e.e.subs.size();
  for (auto& u : st.tus) {
    while (u.payload.size() < n) u.payload.push_back(u.payload.empty() || r.Chance(1, 4) ? r.Bytes(r.Below(60)) : u.payload[0]);
    u.payload.resize(n);
    for (auto& b : u.blocks) if (b.s.csd == 0) b.s.subs.resize(b.data.size(), 1);
    if (u.blocks.size() > 60) u.blocks.resize(60);
  }
  if (st.tus.size() > 40) st.tus.resize(40);
  for (auto& m : st.mixes) for (auto& s : m.sm) for (auto& l : s.layouts) if (l.anchors.size() > 255) l.anchors.resize(255);
}
struct Part { size_t at, size; };
std::vector<Part> Split(const Bytes& b) {
  std::vector<Part> v;
  size_t at = 0;
  while (at < b.size()) {
    ref::BitsIn in(b); in.pos = (at + 1) * 8;
    if (at + 1 >= b.size()) break;
    int len = 0; uint32_t n = in.GetLeb(&len);
    if (in.bad || at + 1 + len + static_cast<size_t>(n) > b.size()) break;
    v.push_back({at, 1 + len + static_cast<size_t>(n)});
    at += v.back().size;
  }
  return v;
}
// Damages bytes, or moves, repeats, drops and re-types whole OBUs.
Bytes Damage(Rng& r, Bytes b) {
  int n = static_cast<int>(r.Range(1, 4));
  for (int i = 0; i < n && !b.empty(); ++i) {
    size_t p = r.Below(b.size());
    auto parts = r.Bool() ? Split(b) : std::vector<Part>();
    if (parts.size() > 1) {
      auto a = parts[r.Below(parts.size())], z = parts[r.Below(parts.size())];
      Bytes x(b.begin() + a.at, b.begin() + a.at + a.size);
      switch (r.Below(6)) {
        case 0: b.insert(b.begin() + z.at, x.begin(), x.end()); break;
        case 1: b.erase(b.begin() + a.at, b.begin() + a.at + a.size); break;
        case 2: b.erase(b.begin() + a.at, b.begin() + a.at + a.size); b.insert(b.begin() + std::min(b.size(), z.at), x.begin(), x.end()); break;
        case 3: b[a.at] = static_cast<uint8_t>((b[a.at] & 7) | r.Below(32) << 3); break;
        case 4: b[a.at] ^= static_cast<uint8_t>(r.Range(1, 7)); break;
        default: { ref::Hdr h; h.type = static_cast<int>(r.Below(32)); h.redundant = r.Chance(1, 5); Bytes y = ref::EncodeObu(h, r.Bytes(r.Below(50)), ref::Lp{0, &r}); b.insert(b.begin() + z.at, y.begin(), y.end()); }
      }
      continue;
    }
    switch (r.Below(7)) {
      case 0: b[p] ^= static_cast<uint8_t>(1 << r.Below(8)); break;
      case 1: b[p] = r.Pick<uint8_t>({0, 1, 0x7f, 0x80, 0xff, 0xfe, 0x0f, 0xf0}); break;
      case 2: b[p] = r.U8(); break;
      case 3: b.resize(p); break;
      case 4: b.erase(b.begin() + p, b.begin() + std::min(b.size(), p + 1 + r.Below(8))); break;
      case 5: { auto x = r.Bytes(1 + r.Below(8)); b.insert(b.begin() + p, x.begin(), x.end()); break; }
      default: { ref::Bits l; l.PutLeb(Wild(r), static_cast<int>(r.Below(6))); auto x = l.Bytes(); for (size_t k = 0; k < x.size() && p + k < b.size(); ++k) b[p + k] = x[k]; }
    }
  }
  return b;
}
// The observers around one run of the code under test.
struct Watch {
  Ctx& c; size_t input; clock_t t0 = clock(); std::string what;
  Watch(Ctx& ctx, size_t n, std::string w) : c(ctx), input(n), what(std::move(w)) { AllocWatch::Reset(); }
  void Done(const Bytes& data) {
    size_t big = AllocWatch::Largest();
    double s = static_cast<double>(clock() - t0) / CLOCKS_PER_SEC;
    c.Eval();
    V_CHECK(c, big <= (size_t{32} << 20) + 512 * input, "allocation", std::to_string(big) + " bytes for an input of " + std::to_string(input) + " in " + what + " " + Hex(data, 1500));
    V_CHECK(c, s < 20, "slow", std::to_string(s) + " s for an input of " + std::to_string(input) + " in " + what + " " + Hex(data, 1500));
    c.Count(what);
  }
};
F::Settings WildSettings(Rng& r, const ref::Stream* st) {
  Cfg cfg;
  if (st && !st->mixes.empty() && r.Bool()) cfg.q.mix = r.Pick(st->mixes).id; else if (r.Chance(1, 3)) cfg.q.mix = Wild(r);
  if (r.Bool()) cfg.q.layout = static_cast<int>(r.Below(15));
  cfg.android = r.Bool(); cfg.bits16 = r.Bool(); cfg.ts = r.Bool(); cfg.te = r.Bool();
  auto s = Settings(cfg);
  if (r.Chance(1, 6)) { s.requested_profile_versions.clear(); for (auto p : {api::ProfileVersion::kIamfSimpleProfile, api::ProfileVersion::kIamfBaseProfile, api::ProfileVersion::kIamfBaseEnhancedProfile}) if (r.Bool()) s.requested_profile_versions.insert(p); }
  return s;
}
// Any order of API calls.
void Api(Ctx& c, const Bytes& desc, const Bytes& data, const ref::Stream* st) {
  Watch w(c, data.size() + desc.size(), "api-runs");
  Rng& r = c.rng;
  std::unique_ptr<D> d;
  if (!desc.empty()) d = F::CreateFromDescriptors(WildSettings(r, st), desc.data(), desc.size());
  else d = F::Create(WildSettings(r, st));
  if (d) {
    c.Count(desc.empty() ? "api-standalone" : "api-from-descriptors");
    size_t at = 0;
    int style = static_cast<int>(r.Below(4));
    int guard = 3000;
    bool stop_on_error = r.Bool(), dead = false;
    std::vector<uint8_t> out(r.Chance(1, 3) ? r.Below(4000) : 400000);
    while (guard-- > 0 && !dead) {
      if (at < data.size()) {
        size_t n = style == 0 ? data.size() - at : style == 1 ? 1 + r.Below(300) : 1 + r.Below(40);
        n = std::min(n, data.size() - at);
        Bytes piece(data.begin() + at, data.begin() + at + n);  // a block of its own: overreads show
        auto s = d->Decode(piece.data(), piece.size());
        at += n;
        if (!s.ok()) { c.Count("decode-errors"); dead = stop_on_error && r.Chance(1, 2); }
      } else if (r.Chance(1, 3)) { if (!d->SignalEndOfDecoding().ok()) c.Count("end-errors"); if (r.Bool()) break; }
      if (r.Chance(3, 4)) {
        int k = 8;
        while (k-- && d->IsTemporalUnitAvailable()) { size_t n = 0; auto s = d->GetOutputTemporalUnit(out.data(), out.size(), n); if (n > out.size()) c.Fail("bytes-written", std::to_string(n)); if (s.ok()) c.Count("units-out"); else c.Count("output-errors"); }
      }
      if (r.Chance(1, 12)) {
        int ch; uint32_t a, b; api::SelectedMix m;
        if (d->GetNumberOfOutputChannels(ch).ok()) c.Count("getters");
        (void)d->GetSampleRate(a); (void)d->GetFrameSize(b); (void)d->GetOutputMix(m);
      }
      if (r.Chance(1, 60)) { (void)d->Reset(); }
      if (r.Chance(1, 60)) { api::SelectedMix m; api::RequestedMix q; if (r.Bool()) q.mix_presentation_id = st && !st->mixes.empty() ? r.Pick(st->mixes).id : Wild(r); if (r.Bool()) q.output_layout = static_cast<api::OutputLayout>(r.Below(15)); (void)d->ResetWithNewMix(q, m); }
      if (at >= data.size() && r.Chance(1, 8)) break;
    }
    if (r.Bool()) { (void)d->SignalEndOfDecoding(); int k = 50; while (k-- && d->IsTemporalUnitAvailable()) { size_t n = 0; (void)d->GetOutputTemporalUnit(out.data(), out.size(), n); } }
  } else c.Count("not-created");
  w.Done(data);
}
// The parsers underneath: descriptors, then unit after unit without rendering.
void Parser(Ctx& c, const Bytes& data) {
  Rng& r = c.rng;
  Watch w(c, data.size(), "parser-runs");
  Bytes own = data;  // exact size
  auto make = [&]() -> std::unique_ptr<it::ReadBitBuffer> {
    if (r.Bool()) return it::MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(own));
    auto s = it::StreamBasedReadBitBuffer::Create(r.Pick<int64_t>({1, 2, 7, 64, 1024}));
    if (s) (void)s->PushBytes(absl::MakeConstSpan(own));
    return s;
  };
  {
    auto rb = make(); bool more = false;
    auto d = it::DescriptorObuParser::ProcessDescriptorObus(r.Bool(), *rb, more);
    c.Count(d.ok() ? "descriptors-accepted" : "descriptors-refused");
  }
  auto rb = make(); bool more = false;
  std::unique_ptr<it::ObuProcessor> p;
  bool render = r.Bool(), exhaustive = r.Chance(1, 5);
  if (render) {
    absl::flat_hash_set<it::ProfileVersion> prof;
    for (int i = 0; i < 6; ++i) if (r.Chance(3, 4)) prof.insert(static_cast<it::ProfileVersion>(i));
    std::optional<uint32_t> id; if (r.Chance(1, 4)) id = Wild(r);
    std::optional<it::Layout> lay;
    if (r.Bool()) { it::Layout l; l.layout_type = it::Layout::kLayoutTypeLoudspeakersSsConvention; l.specific_layout = it::LoudspeakersSsConventionLayout{.sound_system = static_cast<it::LoudspeakersSsConventionLayout::SoundSystem>(r.Below(16))}; lay = l; }
    p = it::ObuProcessor::CreateForRendering(prof, id, lay, exhaustive, rb.get(), {r.Bool(), r.Bool()}, more);
  } else p = it::ObuProcessor::Create(exhaustive, rb.get(), more);
  if (p) {
    c.Count("processors");
    bool go = true; int64_t last = rb->Tell(); int idle = 0;
    bool eos = r.Bool();
    for (size_t k = 0; go && k < data.size() + 10; ++k) {
      std::optional<it::ObuProcessor::OutputTemporalUnit> u;
      auto s = p->ProcessTemporalUnit(eos, u, go);
      if (!s.ok()) { c.Count("unit-errors"); if (r.Bool()) break; }
      if (u) {
        c.Count("units-parsed");
        if (render) { auto x = p->RenderTemporalUnitAndMeasureLoudness(u->output_timestamp, u->output_parameter_blocks, u->output_audio_frames); c.Count(x.ok() ? "units-rendered" : "render-errors"); }
      }
      int64_t now = rb->Tell();
      idle = now == last ? idle + 1 : 0;
      last = now;
      if (s.ok() && go) V_CHECK_R(c, idle < 4, "no-progress", Hex(data, 1500), );
      if (idle > 4) break;
    }
    (void)p->GetOutputSampleRate(); (void)p->GetOutputFrameSize(); (void)p->GetOutputLayout(); (void)p->GetOutputMixPresentationId();
  }
  w.Done(data);
}
void Run(Ctx& c, const Bytes& desc, const Bytes& rest, const ref::Stream* st) {
  Bytes all = desc; all.insert(all.end(), rest.begin(), rest.end());
  c.Distinct(HashVec(all));
  switch (c.rng.Below(3)) {
    case 0: Api(c, {}, all, st); break;
    case 1: Api(c, desc, rest, st); break;
    default: Parser(c, all);
  }
}
Bytes Units(const ref::Stream& st) { Bytes b; for (auto& t : st.tu_bytes) b.insert(b.end(), t.begin(), t.end()); return b; }
// A legal sequence with fields changed before coding, then maybe bytes.
void Fields(Ctx& c) {
  ref::GenOpt g; g.max_frame = 24; g.max_tus = 5; g.expanded_all = true; g.recon = true;
  auto st = ref::GenStream(c.rng, g);
  if (c.rng.Chance(1, 8)) AddForeign(c.rng, st);
  int n = static_cast<int>(c.rng.Range(1, 3));
  for (int i = 0; i < n; ++i) TweakStream(c.rng, st);
  Fit(c.rng, st);
  // One length or count of the coded form may be a lie.
  int lie = static_cast<int>(c.rng.Below(c.rng.Bool() ? 400 : 90));
  ref::Lp lp{c.rng.Chance(1, 3) ? -1 : 0, &c.rng};
  if (c.rng.Chance(1, 3)) lp.lie = &lie;
  ref::EncodeStream(c.rng, st, lp);
  Bytes d = st.descriptors, u = Units(st);
  if (c.rng.Chance(1, 5)) d = Damage(c.rng, d);
  if (c.rng.Chance(1, 5)) u = Damage(c.rng, u);
  Run(c, d, u, &st);
}
void Damaged(Ctx& c) {
  ref::GenOpt g; g.max_frame = 24; g.max_tus = 6; g.recon = true;
  auto st = ref::GenStream(c.rng, g);
  Bytes d = st.descriptors, u = Units(st);
  if (c.rng.Chance(2, 3)) d = Damage(c.rng, d);
  if (c.rng.Chance(2, 3)) u = Damage(c.rng, u);
  Run(c, d, u, &st);
}
// Any legal OBUs in any order, their references resolved only by chance.
void Soup(Ctx& c) {
  Rng& r = c.rng;
  Bytes b;
  ref::Lp lp{r.Chance(1, 3) ? -1 : 0, &r};
  int lie = static_cast<int>(r.Below(100));
  if (r.Chance(1, 3)) lp.lie = &lie;
  auto put = [&](int type, const Bytes& p, bool redundant = false) { ref::Hdr h = r.Chance(1, 4) ? ref::GenHdr(r, type) : ref::Hdr{type}; h.redundant |= redundant; auto x = ref::EncodeObu(h, p, lp); b.insert(b.end(), x.begin(), x.end()); };
  if (!r.Chance(1, 12)) put(31, {0x69, 0x61, 0x6d, 0x66, static_cast<uint8_t>(r.Below(4)), static_cast<uint8_t>(r.Below(4))});
  std::vector<uint32_t> codecs{0}, elems{0}, subs{0}; std::vector<ref::Pd> pds(1);
  int n = static_cast<int>(r.Range(1, 14));
  for (int i = 0; i < n; ++i) switch (r.Below(8)) {
    case 0: { auto k = ref::GenCodec(r); codecs.push_back(k.id); put(0, ref::EncodeCodec(k, lp)); break; }
    case 1: case 2: { auto e = ref::GenElement(r); e.codec = r.Pick(codecs); elems.push_back(e.id); for (auto s : e.subs) subs.push_back(s); for (auto& p : e.params) pds.push_back(p); put(1, ref::EncodeElement(e, lp)); break; }
    case 3: { auto m = ref::GenMix(r, false); for (auto& s : m.sm) { for (auto& e : s.el) { if (r.Chance(4, 5)) e.id = r.Pick(elems); pds.push_back(e.gain); } pds.push_back(s.out); } put(2, ref::EncodeMix(m, lp)); break; }
    case 4: { auto p = ref::GenPBlock(r, static_cast<uint32_t>(r.Below(4))); if (r.Chance(4, 5)) { p.def.id = r.Pick(pds).id; } put(3, ref::EncodePBlock(p, lp)); break; }
    case 5: case 6: { auto x = ref::FrameObu(r, r.Pick(subs), r.Bytes(r.Below(120)), r.Bool(), Wild(r), Wild(r), lp); b.insert(b.end(), x.begin(), x.end()); break; }
    default: put(static_cast<int>(r.Below(32)), r.Bytes(r.Below(40)));
  }
  Run(c, b, r.Bool() ? Damage(r, b) : Bytes(), nullptr);
}
// Each OBU reader alone, told a payload size that may be a lie.
void Readers(Ctx& c) {
  Rng& r = c.rng;
  ref::Lp lp{r.Chance(1, 3) ? -1 : 0, &r};
  int lie = static_cast<int>(r.Below(r.Bool() ? 60 : 12));
  if (r.Bool()) lp.lie = &lie;
  int kind = static_cast<int>(r.Below(8));
  Bytes p;
  switch (kind) {
    case 0: p = ref::EncodeCodec(ref::GenCodec(r), lp); break;
    case 1: p = ref::EncodeElement(ref::GenElement(r), lp); break;
    case 2: p = ref::EncodeMix(ref::GenMix(r, false), lp); break;
    case 3: p = {0x69, 0x61, 0x6d, 0x66, 0, 1}; break;
    case 4: p = {}; break;
    case 7: { auto b = ref::GenPBlock(r, static_cast<uint32_t>(r.Below(4))); ref::EncodePBlock(b, lp); ref::Element e = ref::GenElement(r, 3); p = ref::EncodeElement(e, lp); kind = 1; break; }
    default: p = r.Bytes(r.Below(60));
  }
  if (r.Chance(3, 4)) p = Damage(r, p);
  if (r.Chance(1, 8)) p = r.Bytes(r.Below(200));
  int64_t n = r.Chance(1, 2) ? static_cast<int64_t>(p.size()) : r.Chance(1, 3) ? r.Range(0, p.size() + 20) : r.Pick<int64_t>({0, 1, 1 << 21});
  ref::Hdr h; static const int types[] = {0, 1, 2, 31, 4, 29, 5}; h.type = types[kind];
  if (kind == 6) h.type = static_cast<int>(r.Range(5, 23));
  Watch w(c, p.size(), "reader-runs");
  Bytes own = p;
  std::unique_ptr<it::ReadBitBuffer> rb = it::MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(own));
  it::ObuHeader hd; hd.obu_type = static_cast<it::ObuType>(h.type);
  bool ok = false;
  switch (kind) {
    case 0: ok = it::CodecConfigObu::CreateFromBuffer(hd, n, *rb).ok(); break;
    case 1: ok = it::AudioElementObu::CreateFromBuffer(hd, n, *rb).ok(); break;
    case 2: ok = it::MixPresentationObu::CreateFromBuffer(hd, n, *rb).ok(); break;
    case 3: ok = it::IASequenceHeaderObu::CreateFromBuffer(hd, n, *rb).ok(); break;
    case 4: ok = it::TemporalDelimiterObu::CreateFromBuffer(hd, n, *rb).ok(); break;
    case 5: ok = it::MetadataObu::CreateFromBuffer(hd, n, *rb).ok(); break;
    default: ok = it::AudioFrameObu::CreateFromBuffer(hd, n, *rb).ok();
  }
  if (ok && n > static_cast<int64_t>(p.size())) c.Fail("read-past-end", "accepted a payload of " + std::to_string(n) + " bytes from " + Hex(p));
  if (ok && rb->Tell() != n * 8) c.Fail("consumed", std::to_string(rb->Tell()) + " bits of a payload of " + std::to_string(n) + " bytes from " + Hex(p));
  c.Count(ok ? "readers-accepted" : "readers-refused");
  lp.lie = nullptr;
  // Also with the header in front.
  Bytes o = ref::EncodeObu(h, p, lp);
  if (r.Bool()) o = Damage(r, o);
  rb = it::MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(o));
  (void)it::ObuHeader::PeekObuTypeAndTotalObuSize(*rb);
  it::ObuHeader rh; int64_t size = 0;
  if (rh.ReadAndValidate(*rb, size).ok()) {
    if (size < 0) c.Fail("negative-size", std::to_string(size) + " " + Hex(o));
    if (rh.obu_type == it::kObuIaMixPresentation) (void)it::MixPresentationObu::CreateFromBuffer(rh, size, *rb);
    if (rh.obu_type == it::kObuIaAudioElement) (void)it::AudioElementObu::CreateFromBuffer(rh, size, *rb);
  }
  c.Distinct(HashVec(p) ^ static_cast<uint64_t>(n));
  w.Done(p);
}
// The repository's own sequences, damaged.
void Vectors(Ctx& c) {
  static const std::vector<Bytes> files = [] {
    std::vector<Bytes> v;
    const char* dir = getenv("VERIF_TESTDATA");
    for (auto n : {"tones_256samp_5p1_pcm", "noise_1024samp_5p1_opus", "noise_3s_stereo_opus", "noise_1024samp_stereo_flac", "tones_100ms_3OA_stereo_opus"}) {
      FILE* f = dir ? fopen((std::string(dir) + "/iamf/" + n + ".iamf").c_str(), "rb") : nullptr;
      if (!f) continue;
      Bytes b(60000); b.resize(fread(b.data(), 1, b.size(), f)); fclose(f);
      v.push_back(b);
    }
    return v;
  }();
  if (files.empty()) { c.Count("no-vectors"); return; }
  Bytes b = c.rng.Pick(files);
  if (c.rng.Bool()) b.resize(std::min<size_t>(b.size(), 3000));
  if (c.rng.Bool() && b.size() > 400) { Bytes head(b.begin(), b.begin() + 400); head = Damage(c.rng, head); head.insert(head.end(), b.begin() + 400, b.end()); b = head; }
  else b = Damage(c.rng, b);
  c.Count("vectors");
  Run(c, {}, b, nullptr);
}
}  // namespace
V_MAIN({{"fields", 9000, 200000, Fields}, {"damaged", 6000, 120000, Damaged}, {"readers", 30000, 600000, Readers}, {"soup", 6000, 120000, Soup}, {"vectors", 500, 8000, Vectors}})
