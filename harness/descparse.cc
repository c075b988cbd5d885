// C19: the descriptors found, where parsing stops and what it refuses, at every
// truncation point, against a model that walks the OBUs it generated.
#include <memory>
#include "harness/decwork.h"
#include "harness/ref/labels.h"
#include "iamf/cli/audio_element_with_data.h"
#include "iamf/cli/descriptor_obu_parser.h"
#include "iamf/cli/descriptor_obus.h"
#include "iamf/common/leb_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/ia_sequence_header.h"
#include "iamf/obu/mix_presentation.h"
using namespace iamf_tools;
using namespace decwork;
using ref::Lp;
using Bytes = std::vector<uint8_t>;
namespace {
enum Kind { kHeader, kBadHeader, kCodec, kBadCodec, kElement, kBadElement, kMix, kBadMix, kOther, kTemporal };
struct Item {
  Kind kind; Bytes obu, minimal; bool redundant = false; size_t head = 0;
  uint32_t id = 0, codec = 0; ref::Elem el; std::vector<uint32_t> refs; uint8_t profiles[2] = {};
};
struct Plan { std::vector<Item> items; Bytes all; };

void Put(Rng& r, Plan& p, Item it, int type, const std::function<Bytes(const Lp&)>& payload, const Lp& lp, bool redundant = false) {
  ref::Hdr h; h.type = type; h.redundant = redundant;
  if (r.Chance(1, 10)) { h.ext = true; h.ext_bytes = r.Bytes(r.Below(5)); }
  it.redundant = redundant;
  it.minimal = ref::EncodeObu(h, payload(Lp{}), Lp{});
  it.obu = ref::EncodeObu(h, payload(lp), lp);
  it.head = 2; while (it.obu[it.head - 1] & 0x80) ++it.head;
  p.all.insert(p.all.end(), it.obu.begin(), it.obu.end());
  p.items.push_back(it);
}
Bytes HeaderBytes(uint8_t a, uint8_t b) { ref::Bits x; x.Put(0x69616d66, 32); x.Put(a, 8); x.Put(b, 8); return x.Bytes(); }

ref::Element AddGains(Rng& r, ref::Element e) {
  for (auto& l : e.layers) { l.og = r.Chance(1, 3); l.og_flags = r.U8() & 63; l.gain = ref::GenS16(r); l.rg = r.Chance(1, 4); l.res_a = r.U8() & 3; l.res_b = r.U8() & 3; }
  return e;
}
Plan GenPlan(Rng& r) {
  Plan p;
  ref::GenOpt g; g.expanded_all = true; g.max_tus = 1;
  auto st = ref::GenStream(r, g);
  Lp lp{r.Chance(1, 3) ? -1 : 0, &r};
  auto header = [&](bool redundant) { Item it{kHeader}; it.profiles[0] = static_cast<uint8_t>(r.Below(3)); it.profiles[1] = static_cast<uint8_t>(r.Below(3)); uint8_t a = it.profiles[0], b = it.profiles[1]; Put(r, p, it, 31, [a, b](const Lp&) { return HeaderBytes(a, b); }, lp, redundant); };
  auto codec = [&](ref::Codec c, bool redundant = false) { Item it{kCodec}; it.id = c.id; Put(r, p, it, 0, [c](const Lp& l) { return ref::EncodeCodec(c, l); }, lp, redundant); };
  auto element = [&](ref::Elem el, bool redundant = false) { Item it{kElement}; it.id = el.e.id; it.codec = el.e.codec; it.el = el; auto e = el.e; Put(r, p, it, 1, [e](const Lp& l) { return ref::EncodeElement(e, l); }, lp, redundant); };
  auto mix = [&](ref::Mix m, bool redundant = false) { Item it{kMix}; it.id = m.id; for (auto& s : m.sm) for (auto& e : s.el) it.refs.push_back(e.id); Put(r, p, it, 2, [m](const Lp& l) { return ref::EncodeMix(m, l); }, lp, redundant); };
  auto noise = [&] {
    if (!r.Chance(1, 7)) return;
    switch (r.Below(9)) {
      case 0: { Bytes b = r.Bytes(r.Below(12)); Put(r, p, Item{kOther}, static_cast<int>(r.Range(24, 30)), [b](const Lp&) { return b; }, lp, r.Bool()); break; }
      case 1: { Bytes b = r.Bytes(r.Below(8)); Put(r, p, Item{kOther}, 0, [b](const Lp&) { return b; }, lp, r.Bool()); break; }  // too small a codec config
      case 2: { auto c = ref::GenCodec(r); c.nsamples = 0; if (c.fourcc == ref::kOpus) c.roll = -1; c.id = st.codec.id; if (r.Bool()) c.id ^= 3; Put(r, p, Item{kBadCodec}, 0, [c](const Lp& l) { return ref::EncodeCodec(c, l); }, lp); break; }
      case 3: header(true); break;
      case 4: { auto e = r.Pick(st.elems); e.e = AddGains(r, e.e); if (r.Bool()) e.e.codec ^= 5; else if (r.Bool()) e.e.id += 1; element(e, r.Bool()); break; }
      case 5: {  // substreams that do not fit the layout
        auto e = r.Pick(st.elems); if (e.e.type != 0) break;
        e.e.id += 1000;
        auto& l = r.Pick(std::vector<size_t>{0, e.e.layers.size() - 1}) ? e.e.layers.back() : e.e.layers[0];
        if (r.Bool()) { l.sub++; uint32_t s = 0; for (auto x : e.e.subs) s = std::max(s, x % 100000); e.e.subs.push_back(s + 1); while (std::count(e.e.subs.begin(), e.e.subs.end(), e.e.subs.back()) > 1) e.e.subs.back()++; }
        else if (l.coupled > 0) l.coupled--; else l.coupled++;
        if (l.coupled > l.sub) break;
        auto q = e.e; Put(r, p, Item{kBadElement}, 1, [q](const Lp& lpp) { return ref::EncodeElement(q, lpp); }, lp); break; }
      case 6: { auto m = r.Pick(st.mixes); if (r.Bool()) m.sm[0].el.back().id ^= 0x40000; mix(m, r.Bool()); break; }
      case 7: { auto c = st.codec; c.lpcm.size = 32; c.lpcm.rate = 16000; codec(c, r.Bool()); break; }
      case 8: if (r.Chance(1, 3)) header(false); break;
    }
  };
  if (r.Chance(1, 25)) noise();
  if (r.Chance(1, 30)) { Bytes b = HeaderBytes(0, 0); b[r.Below(4)] ^= 1 << r.Below(8); Put(r, p, Item{kBadHeader}, 31, [b](const Lp&) { return b; }, lp); }
  if (!r.Chance(1, 40)) header(r.Chance(1, 10));
  noise();
  if (!r.Chance(1, 25)) codec(st.codec);
  noise();
  for (auto& e : st.elems) { e.e = AddGains(r, e.e); if (!r.Chance(1, 25)) element(e); noise(); }
  for (auto& m : st.mixes) { mix(m); noise(); }
  if (r.Chance(2, 3)) {
    int t = static_cast<int>(r.Pick({3, 4, 5, 6, 23}));
    Bytes b = t == 4 ? Bytes() : r.Bytes(r.Range(1, 12));
    Put(r, p, Item{kTemporal}, t, [b](const Lp&) { return b; }, lp);
    if (r.Chance(1, 3)) codec(st.codec);
    else { Bytes x = r.Bytes(r.Below(6)); p.all.insert(p.all.end(), x.begin(), x.end()); }
  }
  return p;
}

struct Found { std::map<uint32_t, const Item*> codecs, elements; std::vector<const Item*> mixes; const Item* header = nullptr; };
enum Verdict { kOk, kShort, kInvalid };
struct Expect { Verdict v; Found f; size_t pos = 0; bool rewound = false; };
Expect Model(const Plan& p, size_t len, bool exact) {
  Expect e{kOk};
  size_t pos = 0;
  auto stop = [&](Verdict v, bool rewound = false) { e.v = v; e.pos = pos; e.rewound = rewound; return e; };
  for (auto& it : p.items) {
    if (pos + it.head > len) return stop(kShort);
    if (it.kind == kTemporal) { if (exact) return stop(kInvalid, true); return stop(e.f.header ? kOk : kInvalid); }
    if (pos + it.obu.size() > len) return stop(kShort);
    switch (it.kind) {
      case kHeader:
        if (e.f.header && !it.redundant && !e.f.header->redundant) return stop(kOk);
        e.f.header = &it; break;
      case kBadHeader: if (e.f.header && !it.redundant && !e.f.header->redundant) return stop(kOk); return stop(kInvalid);
      case kCodec: e.f.codecs.emplace(it.id, &it); break;
      case kElement: if (e.f.codecs.count(it.codec)) e.f.elements.emplace(it.id, &it); break;
      case kMix: { bool ok = true; for (auto x : it.refs) ok &= e.f.elements.count(x) > 0; if (ok) e.f.mixes.push_back(&it); break; }
      default: break;
    }
    pos += it.obu.size();
    if (!e.f.header) return stop(kInvalid);
    if (exact && pos == len) return stop(kOk);
  }
  return stop(kShort);
}
template <class O> Bytes Rewrite(const O& o) {
  WriteBitBuffer wb(0, *LebGenerator::Create());
  if (!o.ValidateAndWriteObu(wb).ok()) return {};
  return wb.bit_buffer();
}
std::string Diff(const DescriptorObus& d, const Found& f) {
  if (static_cast<int>(d.ia_sequence_header.GetPrimaryProfile()) != f.header->profiles[0] || static_cast<int>(d.ia_sequence_header.GetAdditionalProfile()) != f.header->profiles[1]) return "header profiles";
  if (Rewrite(d.ia_sequence_header) != f.header->minimal) return "header bytes";
  if (d.codec_config_obus.size() != f.codecs.size()) return "number of codec configs " + std::to_string(d.codec_config_obus.size());
  for (auto& [id, it] : f.codecs) { auto x = d.codec_config_obus.find(id); if (x == d.codec_config_obus.end()) return "codec config missing"; if (x->second.GetCodecConfigId() != id) return "codec config id"; if (Rewrite(x->second) != it->minimal) return "codec config bytes"; }
  if (d.audio_elements.size() != f.elements.size()) return "number of elements " + std::to_string(d.audio_elements.size());
  for (auto& [id, it] : f.elements) {
    auto x = d.audio_elements.find(id);
    if (x == d.audio_elements.end()) return "element missing";
    auto& a = x->second;
    if (Rewrite(a.obu) != it->minimal) return "element bytes";
    auto cc = d.codec_config_obus.find(it->codec);
    if (cc == d.codec_config_obus.end() || a.codec_config != &cc->second) return "element's codec config";
    auto want = ref::SubstreamLabels(it->el);
    if (a.substream_id_to_labels.size() != want.size()) return "number of substreams";
    for (size_t i = 0; i < want.size(); ++i) { auto s = a.substream_id_to_labels.find(it->el.e.subs[i]); if (s == a.substream_id_to_labels.end() || !std::equal(want[i].begin(), want[i].end(), s->second.begin(), s->second.end())) return "labels of substream " + std::to_string(it->el.e.subs[i]); }
    if (it->el.e.type != 0) { if (!a.label_to_output_gain.empty() || !a.channel_numbers_for_layers.empty()) return "layers of a scene"; continue; }
    std::map<ref::CLabel, float> gains;
    size_t at = 0;
    static const std::map<std::string, int> bit{{"Mono", 5}, {"L2", 5}, {"L3", 5}, {"R2", 4}, {"R3", 4}, {"Ls5", 3}, {"Rs5", 2}, {"Ltf2", 1}, {"Ltf3", 1}, {"Rtf2", 0}, {"Rtf3", 0}};
    for (auto& l : it->el.e.layers) for (int k = 0; k < l.sub; ++k, ++at) if (l.og) for (auto& n : it->el.subs[at]) { auto b = bit.find(n); if (b != bit.end() && l.og_flags >> b->second & 1) gains[ref::LabelOf(n)] = static_cast<float>(l.gain) / 256.0f; }
    if (a.label_to_output_gain.size() != gains.size()) return "number of output gains";
    for (auto& [l, v] : gains) { auto s = a.label_to_output_gain.find(l); if (s == a.label_to_output_gain.end() || s->second != v) return "output gain"; }
    if (a.channel_numbers_for_layers.size() != it->el.e.layers.size()) return "number of layers";
    for (size_t i = 0; i < it->el.e.layers.size(); ++i) {
      auto& l = it->el.e.layers[i]; auto& c = a.channel_numbers_for_layers[i];
      int s, lfe, h, b = 0;
      if (l.layout == 15) { static const int X[20][4] = {{0, 1, 0, 0}, {2, 0, 0, 0}, {2, 0, 0, 0}, {2, 0, 0, 0}, {0, 0, 2, 0}, {0, 0, 2, 0}, {0, 0, 4, 0}, {3, 0, 0, 0}, {9, 1, 6, 0}, {2, 0, 0, 0}, {2, 0, 0, 0}, {0, 0, 2, 0}, {0, 0, 6, 0}, {10, 2, 9, 3}, {0, 2, 0, 0}, {0, 0, 0, 3}, {7, 1, 5, 4}, {0, 0, 0, 4}, {0, 0, 1, 0}, {0, 0, 5, 0}}; auto& q = X[l.expanded]; s = q[0]; lfe = q[1]; h = q[2]; b = q[3]; }
      else if (l.layout == 9) { s = 2; lfe = h = 0; }
      else ref::LayoutNumbers(l.layout, s, lfe, h);
      if (c.surround != s || c.lfe != lfe || c.height != h || c.bottom != b) return "channel numbers of layer " + std::to_string(i);
    }
  }
  if (d.mix_presentation_obus.size() != f.mixes.size()) return "number of mixes " + std::to_string(d.mix_presentation_obus.size());
  size_t i = 0;
  for (auto& m : d.mix_presentation_obus) { if (Rewrite(m) != f.mixes[i]->minimal) return "mix " + std::to_string(i); ++i; }
  return "";
}
std::string Text(const Plan& p) {
  static const char* n[] = {"header", "bad-header", "codec", "bad-codec", "element", "bad-element", "mix", "bad-mix", "other", "temporal"};
  std::ostringstream o;
  for (auto& i : p.items) o << n[i.kind] << (i.redundant ? "'" : "") << ":" << i.id << "(" << i.obu.size() << ") ";
  return o.str() + " all=" + Hex(p.all, 500);
}
bool Check(Ctx& c, const Plan& p, const Expect& e, const absl::StatusOr<DescriptorObus>& got, bool insufficient, int64_t from, int64_t tell, const std::string& how) {
  auto text = [&] { return how + " got " + got.status().ToString() + " " + Text(p); };
  V_CHECK_R(c, got.ok() == (e.v == kOk), e.v == kOk ? "refused-good" : e.v == kShort ? "accepted-short" : "accepted-bad", text(), false);
  V_CHECK_R(c, insufficient == (e.v == kShort), "insufficient-flag", "flag " + std::to_string(insufficient) + " " + text(), false);
  if (e.v == kShort) V_CHECK_R(c, got.status().code() == absl::StatusCode::kResourceExhausted && tell == from, "short-not-rewound", "at bit " + std::to_string(tell) + " from " + std::to_string(from) + " " + text(), false);
  if (e.v == kInvalid && e.rewound) V_CHECK_R(c, tell == from, "temporal-not-rewound", text(), false);
  if (e.v == kOk) {
    V_CHECK_R(c, tell == from + static_cast<int64_t>(e.pos) * 8, "stops-elsewhere", "at byte " + std::to_string((tell - from) / 8) + " instead of " + std::to_string(e.pos) + " " + text(), false);
    std::string diff = Diff(*got, e.f);
    V_CHECK_R(c, diff.empty(), "descriptors", diff + " " + text(), false);
    c.Count("mixes-found", e.f.mixes.size()); c.Count("elements-found", e.f.elements.size());
  }
  c.Count(e.v == kOk ? "parsed" : e.v == kShort ? "short" : "bad");
  return true;
}
// Every truncation, both modes, from a random starting offset.
void Truncate(Ctx& c) {
  Rng& r = c.rng;
  Plan p = GenPlan(r);
  std::vector<size_t> cuts;
  if (p.all.size() <= 160 || c.thorough) for (size_t i = 0; i <= p.all.size(); ++i) cuts.push_back(i);
  else {
    std::set<size_t> s{0, p.all.size()};
    size_t at = 0;
    for (auto& i : p.items) { for (size_t k = 0; k <= i.head; ++k) s.insert(std::min(at + k, p.all.size())); at += i.obu.size(); s.insert(at - 1); s.insert(at); }
    for (int k = 0; k < 20; ++k) s.insert(r.Below(p.all.size()));
    cuts.assign(s.begin(), s.end());
  }
  Bytes pre = r.Bytes(r.Below(4));
  for (size_t len : cuts) for (bool exact : {false, true}) {
    Bytes d = pre; d.insert(d.end(), p.all.begin(), p.all.begin() + static_cast<long>(len));
    d.shrink_to_fit();
    auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(d));
    if (!rb || !rb->Seek(static_cast<int64_t>(pre.size()) * 8).ok()) HarnessBug("seek");
    bool insufficient = r.Bool();
    c.Eval();
    auto got = DescriptorObuParser::ProcessDescriptorObus(exact, *rb, insufficient);
    if (!Check(c, p, Model(p, len, exact), got, insufficient, static_cast<int64_t>(pre.size()) * 8, rb->Tell(), "length " + std::to_string(len) + " of " + std::to_string(p.all.size()) + (exact ? " exact" : ""))) return;
  }
  c.Distinct(HashVec(p.all));
  if (c.WantSample()) c.Sample(Text(p).substr(0, 600));
}
// Data arrives in pieces; the parser is asked again after each.
void Arrive(Ctx& c) {
  Rng& r = c.rng;
  Plan p = GenPlan(r);
  auto rb = StreamBasedReadBitBuffer::Create(1 << 20);
  if (!rb) HarnessBug("stream");
  size_t have = 0;
  int tries = 0;
  while (have < p.all.size()) {
    size_t n = std::min<size_t>(p.all.size() - have, r.Chance(1, 3) ? 1 : r.Range(1, 40));
    if (!rb->PushBytes(absl::MakeConstSpan(p.all).subspan(have, n)).ok()) HarnessBug("push");
    have += n; ++tries;
    bool insufficient = r.Bool();
    c.Eval();
    auto e = Model(p, have, false);
    auto got = DescriptorObuParser::ProcessDescriptorObus(false, *rb, insufficient);
    if (!Check(c, p, e, got, insufficient, 0, rb->Tell(), "arrived " + std::to_string(have))) return;
    if (e.v != kShort) { c.Count(e.v == kOk ? "arrived" : "arrived-bad"); break; }
  }
  c.Distinct(HashVec(p.all) ^ static_cast<uint64_t>(tries));
}
// A descriptor among the temporal units: only redundant copies may be there. A sequence header starts another sequence.
void Late(Ctx& c) {
  Rng& r = c.rng;
  ref::GenOpt o; o.max_elems = 2; o.max_frame = 12; o.redundant = false;
  auto st = ref::GenStream(r, o);
  Cfg cfg = GenCfg(r, st);
  auto sel = ref::Select(st, cfg.q);
  if (st.tus.empty() || !ref::Renderable(st, sel)) { c.Count("late-skipped"); return; }
  std::vector<Bytes> obus;
  for (size_t p = 0; p < st.descriptors.size();) {
    size_t q = p + 1, n = 0; int sh = 0;
    do { n |= static_cast<size_t>(st.descriptors[q] & 127) << sh; sh += 7; } while (st.descriptors[q++] & 128);
    if (int ty = st.descriptors[p] >> 3; ty <= 2 || ty == 31) obus.emplace_back(st.descriptors.begin() + p, st.descriptors.begin() + q + n);
    p = q + n;
  }
  Bytes late = r.Pick(obus);
  const int type = late[0] >> 3;
  const bool redundant = r.Chance(1, 3);
  late[0] = static_cast<uint8_t>((late[0] & ~4) | (redundant ? 4 : 0));
  const size_t at = r.Below(st.tus.size() + 1);
  auto d = F::CreateFromDescriptors(Settings(cfg), st.descriptors.data(), st.descriptors.size());
  V_CHECK_R(c, d != nullptr, "late-refused-valid", Describe(st, cfg, sel), );
  auto text = [&] { return "type " + std::to_string(type) + " before unit " + std::to_string(at) + " of " + std::to_string(st.tus.size()) + " " + Describe(st, cfg, sel); };
  c.Eval();
  bool failed = false;
  size_t units = 0;
  for (size_t t = 0; t <= st.tus.size() && !failed; ++t) {
    Bytes b;
    if (t == at) b = late;
    if (t < st.tus.size()) b.insert(b.end(), st.tu_bytes[t].begin(), st.tu_bytes[t].end());
    auto s = d->Decode(b.data(), b.size());
    failed = !s.ok();
    while (!failed && d->IsTemporalUnitAvailable()) {
      auto out = Take(*d, MaxBytes(st, sel));
      failed = !out.ok;
      if (failed) break;
      V_CHECK_R(c, units < st.tus.size(), "late-extra-unit", text(), );
      auto diff = Compare(WantTu(st, cfg, sel, units), out.data, cfg.bits16);
      V_CHECK_R(c, diff.empty(), "late-unit", "unit " + std::to_string(units) + ": " + diff + " " + text(), );
      ++units;
    }
    if (t < at) V_CHECK_R(c, !failed && units == t + 1, "late-before", text(), );
  }
  if (redundant) { V_CHECK(c, !failed && units == st.tus.size(), "redundant-copy-not-skipped", units << " units, failed " << failed << " " << text()); c.Count("late-redundant"); }
  else if (type == 31) { V_CHECK(c, units == at, "next-sequence-decoded-with-old-descriptors", units << " units " << text()); c.Count("late-header"); }
  else { V_CHECK(c, failed && units == at, "late-descriptor-accepted", units << " units, failed " << failed << " " << text()); c.Count("late-descriptor"); }
  c.Distinct(Mix(HashVec(late) + at));
}
}  // namespace
V_MAIN({{"truncate", 1500, 20000, Truncate}, {"arrive", 3000, 60000, Arrive}, {"late", 2500, 40000, Late}})
