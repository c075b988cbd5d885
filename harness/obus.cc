// C04: reading and writing every OBU type against an independent model of the syntax.
#include <algorithm>
#include <memory>
#include "iamf/common/leb_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "iamf/obu/animated_parameter_data.h"
#include "iamf/obu/arbitrary_obu.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/audio_frame.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/demixing_info_parameter_data.h"
#include "iamf/obu/extension_parameter_data.h"
#include "iamf/obu/ia_sequence_header.h"
#include "iamf/obu/metadata_obu.h"
#include "iamf/obu/mix_gain_parameter_data.h"
#include "iamf/obu/mix_presentation.h"
#include "iamf/obu/obu_header.h"
#include "iamf/obu/param_definitions/extended_param_definition.h"
#include "iamf/obu/param_definitions/param_definition_variant.h"
#include "iamf/obu/parameter_block.h"
#include "iamf/obu/recon_gain_info_parameter_data.h"
#include "iamf/obu/temporal_delimiter.h"
#include "harness/ref/obus.h"
#include "harness/vlib.h"
using namespace iamf_tools;
using namespace vlib;
using ref::Lp;
using Bytes = std::vector<uint8_t>;
namespace {

struct Read { ObuHeader h; int64_t payload = 0; bool ok = false; std::string why; int64_t pos = 0; };

// Reads the header and then the payload with `fn(header, payload_size, rb) -> status`.
template <class F>
Read ReadObu(const Bytes& d, F fn) {
  Read o;
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(d));
  if (!rb) HarnessBug("rb");
  auto st = o.h.ReadAndValidate(*rb, o.payload);
  if (!st.ok()) { o.why = "header: " + st.ToString(); return o; }
  auto s2 = fn(o.h, o.payload, *rb);
  o.ok = s2.ok(); o.why = s2.ToString(); o.pos = rb->Tell();
  return o;
}
template <class O>
std::optional<Bytes> WriteObu(const O& o, std::string* why, int fixed = 0) {
  WriteBitBuffer wb(0, *LebGenerator::Create(fixed ? LebGenerator::GenerationMode::kFixedSize : LebGenerator::GenerationMode::kMinimum, static_cast<int8_t>(fixed)));
  auto st = o.ValidateAndWriteObu(wb);
  *why = st.ToString();
  if (!st.ok()) return std::nullopt;
  return wb.bit_buffer();
}
void CheckHeader(Ctx& c, const ObuHeader& h, const ref::Hdr& m) {
  V_CHECK(c, h.obu_type == m.type && h.obu_redundant_copy == m.redundant && h.type_specific_flag == m.flag && h.extension_header_bytes.has_value() == m.ext && (!m.ext || *h.extension_header_bytes == m.ext_bytes), "header-fields", "type " << m.type << " got " << int(h.obu_type));
  if (ref::IsFrame(m.type) && m.flag) V_CHECK(c, h.num_samples_to_trim_at_end == m.trim_end && h.num_samples_to_trim_at_start == m.trim_start, "trim-fields", m.trim_end << " " << m.trim_start);
}

// `encode(lp)` gives the whole OBU, `footer` bytes included; read(...) parses and
// checks fields when asked. Runs: read a padded form, compare, write shortest,
// compare to the canonical form, write with a fixed leb size, compare.
template <class O, class Enc, class Make, class Check>
void Round(Ctx& c, const char* what, const ref::Hdr& hm, Enc encode, const Bytes& footer, Make make, Check check) {
  Rng& r = c.rng;
  const Lp padded{r.Bool() ? -1 : 0, &r}, shortest{0, &r};
  auto whole = [&](const Lp& lp, bool canonical) { Bytes p = encode(lp, canonical); p.insert(p.end(), footer.begin(), footer.end()); return ref::EncodeObu(hm, p, lp); };
  const Bytes in = whole(padded, false);
  const Bytes canon = whole(shortest, true);
  if (in.size() > (2u << 20) - 64) return;
  std::unique_ptr<O> obu;
  Bytes with_more = in;
  for (uint64_t k = r.Below(3); k > 0; --k) with_more.push_back(r.U8());
  auto rd = ReadObu(with_more, [&](const ObuHeader& h, int64_t n, ReadBitBuffer& rb) -> absl::Status { return make(h, n, rb, obu); });
  c.Eval();
  c.Count(std::string("read-") + what);
  c.Distinct(HashVec(in));
  if (c.WantSample()) c.Sample(std::string(what) + " " + Hex(in, 120));
  V_CHECK(c, rd.ok, std::string(what) + "-refused", rd.why << " bytes " << Hex(in));
  if (!rd.ok || !obu) return;
  V_CHECK(c, rd.pos == static_cast<int64_t>(in.size()) * 8, std::string(what) + "-consumed", "position " << rd.pos << " of " << in.size() * 8);
  CheckHeader(c, rd.h, hm);
  CheckHeader(c, obu->header_, hm);
  V_CHECK(c, obu->footer_ == footer, std::string(what) + "-footer", Hex(obu->footer_) << " want " << Hex(footer));
  check(*obu);
  if (r.Chance(1, 4)) { obu->PrintObu(); c.Count("printed"); }  // Printing must not change or break anything.
  std::string why;
  auto w = WriteObu(*obu, &why);
  V_CHECK(c, w.has_value(), std::string(what) + "-write-refused", why << " bytes " << Hex(in));
  if (w) V_CHECK(c, *w == canon, std::string(what) + "-bytes", Hex(*w) << " want " << Hex(canon));
  const int fixed = static_cast<int>(r.Range(5, 8));
  auto wf = WriteObu(*obu, &why, fixed);
  V_CHECK(c, wf.has_value(), std::string(what) + "-write-fixed-refused", why);
  if (wf) { Bytes want = whole(Lp{fixed, &r}, true); V_CHECK(c, *wf == want, std::string(what) + "-fixed-bytes", Hex(*wf) << " want " << Hex(want)); }
  // Any strict prefix is refused: the size field covers the payload.
  Bytes cut(in.begin(), in.begin() + r.Below(in.size()));
  std::unique_ptr<O> o2;
  auto rc = ReadObu(cut, [&](const ObuHeader& h, int64_t n, ReadBitBuffer& rb) -> absl::Status { return make(h, n, rb, o2); });
  V_CHECK(c, !rc.ok, std::string(what) + "-truncated-accepted", Hex(cut) << " of " << Hex(in));
  c.Count("truncated");
}

// Mutated bytes: whatever is accepted must re-serialise to a fixed point.
template <class O, class Make>
void Mutated(Ctx& c, const char* what, Bytes d, Make make) {
  Rng& r = c.rng;
  for (int k = 0; k < 4; ++k) {
    Bytes m = d;
    for (uint64_t n = 1 + r.Below(3); n > 0 && !m.empty(); --n) {
      size_t p = r.Below(m.size());
      switch (r.Below(4)) {
        case 0: m[p] ^= 1 << r.Below(8); break;
        case 1: m[p] = r.U8(); break;
        case 2: m[p] = r.Pick<uint8_t>({0, 1, 0x7f, 0x80, 0xff}); break;
        default: if (r.Bool()) m.erase(m.begin() + p); else m.insert(m.begin() + p, r.U8());
      }
    }
    if (m.size() > 4 && r.Bool()) { m[1] = static_cast<uint8_t>(m.size() - 2); if (m.size() - 2 > 127) continue; }
    std::unique_ptr<O> a, b;
    auto ra = ReadObu(m, [&](const ObuHeader& h, int64_t n, ReadBitBuffer& rb) -> absl::Status { return make(h, n, rb, a); });
    c.Eval();
    if (!ra.ok || !a) { c.Count("mutated-refused"); continue; }
    // A reader is only handed OBUs of its own type.
    if (m.empty() || (ref::IsFrame(d[0] >> 3) ? !ref::IsFrame(m[0] >> 3) : (m[0] >> 3) != (d[0] >> 3))) { c.Count("mutated-type"); continue; }
    c.Count("mutated-accepted");
    c.Distinct(HashVec(m));
    V_CHECK(c, ra.pos <= static_cast<int64_t>(m.size()) * 8, std::string(what) + "-read-past-end", Hex(m));
    std::string why;
    if (r.Chance(1, 4)) { a->PrintObu(); c.Count("printed"); }
    auto w1 = WriteObu(*a, &why);
    if (!w1) { c.Count("mutated-not-writable"); continue; }
    auto rb2 = ReadObu(*w1, [&](const ObuHeader& h, int64_t n, ReadBitBuffer& rb) -> absl::Status { return make(h, n, rb, b); });
    V_CHECK(c, rb2.ok, std::string(what) + "-rewritten-refused", rb2.why << " in " << Hex(m) << " written " << Hex(*w1));
    if (!rb2.ok || !b) continue;
    auto w2 = WriteObu(*b, &why);
    V_CHECK(c, w2 && *w2 == *w1, std::string(what) + "-not-a-fixed-point", Hex(m) << " -> " << Hex(*w1) << " -> " << (w2 ? Hex(*w2) : why));
    if constexpr (!std::is_same_v<O, MetadataObu> && requires(const O& x, const O& y) { { x == y } -> std::convertible_to<bool>; })
      V_CHECK(c, *a == *b, std::string(what) + "-reread-differs", Hex(m) << " -> " << Hex(*w1));
    c.Count("mutated-round-trips");
  }
}

Bytes Footer(Rng& r) { return r.Chance(1, 4) ? r.Bytes(r.Range(1, 10)) : Bytes{}; }

template <class O>
auto Maker() {
  return [](const ObuHeader& h, int64_t n, ReadBitBuffer& rb, std::unique_ptr<O>& out) -> absl::Status {
    auto s = O::CreateFromBuffer(h, n, rb);
    if (!s.ok()) return s.status();
    out = std::make_unique<O>(*std::move(s));
    return absl::OkStatus();
  };
}

// ---------------------------------------------------------------- small OBUs
void Sequence(Ctx& c) {
  Rng& r = c.rng;
  auto h = ref::GenHdr(r, 31);
  const uint8_t p = r.Below(6), a = r.U8();
  auto enc = [&](const Lp&, bool) { ref::Bits b; b.Put(0x69616d66, 32); b.Put(p, 8); b.Put(a, 8); return b.Bytes(); };
  Round<IASequenceHeaderObu>(c, "sequence-header", h, enc, Footer(r), Maker<IASequenceHeaderObu>(), [&](const IASequenceHeaderObu& o) {
    V_CHECK(c, int(o.GetPrimaryProfile()) == p && int(o.GetAdditionalProfile()) == a, "sequence-header-fields", int(p) << " " << int(a));
    V_CHECK(c, o == IASequenceHeaderObu(o.header_, o.GetPrimaryProfile(), o.GetAdditionalProfile()) || !o.footer_.empty(), "sequence-header-equality", "");
  });
  // Wrong code or primary profile.
  ref::Bits b;
  uint32_t code = 0x69616d66; uint8_t prof = p;
  if (r.Bool()) code ^= 1u << r.Below(32); else prof = static_cast<uint8_t>(r.Range(6, 255));
  b.Put(code, 32); b.Put(prof, 8); b.Put(a, 8);
  std::unique_ptr<IASequenceHeaderObu> o;
  auto rd = ReadObu(ref::EncodeObu(h, b.Bytes(), Lp{}), [&](auto& hh, int64_t n, ReadBitBuffer& rb) -> absl::Status { return Maker<IASequenceHeaderObu>()(hh, n, rb, o); });
  V_CHECK(c, !rd.ok, "sequence-header-bad-accepted", std::hex << code << " profile " << int(prof));
  c.Count("limits-refused");
  Mutated<IASequenceHeaderObu>(c, "sequence-header", ref::EncodeObu(h, enc(Lp{}, true), Lp{}), Maker<IASequenceHeaderObu>());
}
void Frame(Ctx& c) {
  Rng& r = c.rng;
  const int type = static_cast<int>(r.Range(5, 23));
  auto h = ref::GenHdr(r, type);
  const uint32_t id = type == 5 ? ref::GenId(r) : type - 6;
  const Bytes data = r.Bytes(r.Chance(1, 50) ? r.Below(100000) : r.Below(200));
  // Explicit ids 0..17 are legal on the wire but a writer prefers the short form.
  auto enc = [&](const Lp& lp, bool) { ref::Bits b; if (type == 5) lp(b, id); b.PutBytes(data); return b.Bytes(); };
  if (!(type == 5 && id <= 17)) {
    Round<AudioFrameObu>(c, "audio-frame", h, enc, {}, Maker<AudioFrameObu>(), [&](const AudioFrameObu& o) {
      V_CHECK(c, o.GetSubstreamId() == id && o.audio_frame_ == data, "audio-frame-fields", id << " got " << o.GetSubstreamId());
    });
    // Held by the library, written, read back.
    ObuHeader oh;
    oh.obu_type = static_cast<ObuType>(type);
    AudioFrameObu made(oh, id, absl::MakeConstSpan(data));
    std::string why;
    auto w = WriteObu(made, &why);
    ref::Hdr hm;
    hm.type = id <= 17 ? 6 + id : 5;
    V_CHECK(c, w && *w == ref::EncodeObu(hm, enc(Lp{}, true), Lp{}), "audio-frame-made-bytes", id << " " << why);
  }
  Mutated<AudioFrameObu>(c, "audio-frame", ref::EncodeObu(h, enc(Lp{}, true), Lp{}), Maker<AudioFrameObu>());
}
void Delimiter(Ctx& c) {
  Rng& r = c.rng;
  auto h = ref::GenHdr(r, 4);
  auto enc = [&](const Lp&, bool) { return Bytes{}; };
  Round<TemporalDelimiterObu>(c, "temporal-delimiter", h, enc, Footer(r), Maker<TemporalDelimiterObu>(), [&](const TemporalDelimiterObu& o) {
    V_CHECK(c, o.header_.GetIsKeyFrame() == !h.flag, "key-frame-flag", h.flag);
  });
  Mutated<TemporalDelimiterObu>(c, "temporal-delimiter", ref::EncodeObu(h, r.Bytes(r.Below(4)), Lp{}), Maker<TemporalDelimiterObu>());
}
void Metadata(Ctx& c) {
  Rng& r = c.rng;
  auto h = ref::GenHdr(r, 24);
  const uint32_t type = r.Chance(1, 6) ? std::max<uint32_t>(3, r.Edge32()) : r.Chance(1, 20) ? 0 : static_cast<uint32_t>(r.Range(1, 2));
  const uint8_t cc = r.Chance(1, 3) ? 0xff : r.U8();
  const uint8_t cx = r.U8();
  const Bytes body = r.Bytes(r.Below(60));
  std::vector<std::pair<std::string, std::string>> tags;
  for (uint64_t k = r.Chance(1, 20) ? r.Below(256) : r.Below(5); k > 0; --k) tags.push_back({ref::GenStr(r), ref::GenStr(r)});
  auto enc = [&](const Lp& lp, bool) {
    ref::Bits b;
    lp(b, type);
    if (type == 1) { b.Put(cc, 8); if (cc == 0xff) b.Put(cx, 8); b.PutBytes(body); }
    if (type == 2) { b.Put(tags.size(), 8); for (auto& t : tags) { b.PutStr(t.first); b.PutStr(t.second); } }
    return b.Bytes();
  };
  Round<MetadataObu>(c, "metadata", h, enc, type == 1 ? Bytes{} : Footer(r), Maker<MetadataObu>(), [&](const MetadataObu& o) {
    V_CHECK(c, o.GetMetadataType() == type, "metadata-type", type);
    if (type == 1) {
      auto* t = std::get_if<MetadataITUTT35>(&o.GetMetadataVariant());
      V_CHECK(c, t && t->itu_t_t35_country_code == cc && t->itu_t_t35_country_code_extension_byte == (cc == 0xff ? std::optional<uint8_t>(cx) : std::nullopt) && t->itu_t_t35_payload_bytes == body, "t35-fields", int(cc) << " " << Hex(body));
    } else if (type == 2) {
      auto* t = std::get_if<MetadataIamfTags>(&o.GetMetadataVariant());
      bool same = t && t->tags.size() == tags.size();
      for (size_t i = 0; same && i < tags.size(); ++i) same = t->tags[i].tag_name == tags[i].first && t->tags[i].tag_value == tags[i].second;
      V_CHECK(c, same, "iamf-tags-fields", tags.size());
    }
  });
  Mutated<MetadataObu>(c, "metadata", ref::EncodeObu(h, enc(Lp{}, true), Lp{}), Maker<MetadataObu>());
  // The writer refuses more tags than the count field can hold.
  MetadataIamfTags many;
  many.tags.resize(r.Range(256, 300));
  auto o = MetadataObu::Create(ObuHeader(), many);
  std::string why;
  V_CHECK(c, !WriteObu(o, &why), "too-many-tags-written", many.tags.size());
  c.Count("limits-refused");
}
void Arbitrary(Ctx& c) {
  Rng& r = c.rng;
  const int type = static_cast<int>(r.Below(32));
  auto h = ref::GenHdr(r, type);
  ObuHeader oh;
  oh.obu_redundant_copy = h.redundant; oh.type_specific_flag = h.flag; oh.num_samples_to_trim_at_end = h.trim_end; oh.num_samples_to_trim_at_start = h.trim_start;
  if (h.ext) oh.extension_header_bytes = h.ext_bytes;
  const Bytes payload = r.Bytes(r.Below(100));
  ArbitraryObu o(static_cast<ObuType>(type), oh, absl::MakeConstSpan(payload), ArbitraryObu::kInsertionHookBeforeDescriptors);
  std::string why;
  auto w = WriteObu(o, &why);
  const Bytes want = ref::EncodeObu(h, payload, Lp{});
  c.Eval();
  V_CHECK(c, w && *w == want, "arbitrary-bytes", type << " " << why << " want " << Hex(want));
  // Only the OBUs of the asked hook are written, in order; one that invalidates the bitstream fails.
  std::list<ArbitraryObu> l;
  std::map<int, Bytes> by_hook;
  std::map<int, bool> bad;
  for (uint64_t k = r.Below(8); k > 0; --k) {
    auto hk = static_cast<ArbitraryObu::InsertionHook>(r.Below(9));
    const Bytes p = r.Bytes(r.Below(10));
    const bool inv = r.Chance(1, 12);
    l.emplace_back(kObuIaReserved25, ObuHeader(), absl::MakeConstSpan(p), hk, std::nullopt, inv);
    ref::Hdr m; m.type = 25;
    auto e = ref::EncodeObu(m, p, Lp{});
    by_hook[hk].insert(by_hook[hk].end(), e.begin(), e.end());
    bad[hk] |= inv;
  }
  for (int hk = 0; hk < 9; ++hk) {
    WriteBitBuffer wb(16);
    auto st = ArbitraryObu::WriteObusWithHook(static_cast<ArbitraryObu::InsertionHook>(hk), l, wb);
    V_CHECK(c, st.ok() == !bad[hk], "arbitrary-hook-status", hk << " " << st);
    if (st.ok()) V_CHECK(c, wb.bit_buffer() == by_hook[hk], "arbitrary-hook-bytes", hk << " " << Hex(wb.bit_buffer()) << " want " << Hex(by_hook[hk]));
  }
  c.Count("arbitrary");
}

// ---------------------------------------------------------------- descriptors
void CheckSched(Ctx& c, const std::optional<SubblockSchedule>& got, const ref::Sched& s) {
  V_CHECK(c, got.has_value(), "schedule-missing", "");
  if (!got) return;
  V_CHECK(c, got->GetDuration() == s.dur && got->GetConstantSubblockDuration() == s.csd && got->GetNumSubblocks() == s.Count(), "schedule-fields", s.dur << "/" << s.csd << "/" << s.Count() << " got " << got->GetDuration() << "/" << got->GetConstantSubblockDuration() << "/" << got->GetNumSubblocks());
  uint64_t total = 0;
  for (uint32_t i = 0; i < s.Count(); ++i) {
    auto d = got->GetSubblockDuration(i);
    V_CHECK(c, d.ok() && *d == s.At(i), "subblock-duration", i << " want " << s.At(i));
    total += d.ok() ? *d : 0;
  }
  V_CHECK(c, total == s.dur, "subblock-durations-sum", total << " want " << s.dur);
  V_CHECK(c, !got->GetSubblockDuration(static_cast<int>(s.Count())).ok() && !got->GetSubblockDuration(-1).ok(), "subblock-index-out-of-range", s.Count());
}
void CheckPd(Ctx& c, const ParamDefinition& g, const ref::Pd& p) {
  V_CHECK(c, g.GetType() == p.type, "param-type", p.type);
  if (p.type >= 9) return;
  V_CHECK(c, g.GetParameterId() == p.id && g.GetParameterRate() == p.rate && g.GetReserved() == p.res && int(g.GetParamDefinitionMode()) == int(p.mode1), "param-fields", "type " << p.type << " id " << p.id);
  if (p.mode1) V_CHECK(c, !g.GetSchedule(), "param-schedule-present", ""); else CheckSched(c, g.GetSchedule(), p.s);
  auto pos = [&](std::initializer_list<int> v) { int i = 0; for (int x : v) { V_CHECK(c, x == p.pos[i], "position-field", "type " << p.type << " index " << i << " got " << x << " want " << p.pos[i]); ++i; } };
  switch (p.type) {
    case 0: { auto& x = static_cast<const MixGainParamDefinition&>(g); V_CHECK(c, x.default_mix_gain_.GetQ7_8() == p.mix, "default-mix-gain", p.mix); break; }
    case 1: { auto& x = static_cast<const DemixingParamDefinition&>(g).default_demixing_info_parameter_data_; V_CHECK(c, x.dmixp_mode == p.dmode && x.reserved == p.dres && x.default_w == p.dw && x.reserved_for_future_use == p.dres2, "default-demixing", int(p.dmode)); break; }
    case 3: { auto& x = static_cast<const PolarParamDefinition&>(g); pos({x.default_azimuth_, x.default_elevation_, x.default_distance_}); break; }
    case 4: { auto& x = static_cast<const Cart8ParamDefinition&>(g); pos({x.default_x_, x.default_y_, x.default_z_}); break; }
    case 5: { auto& x = static_cast<const Cart16ParamDefinition&>(g); pos({x.default_x_, x.default_y_, x.default_z_}); break; }
    case 6: { auto& x = static_cast<const DualPolarParamDefinition&>(g); pos({x.default_first_azimuth_, x.default_first_elevation_, x.default_first_distance_, x.default_second_azimuth_, x.default_second_elevation_, x.default_second_distance_}); break; }
    case 7: { auto& x = static_cast<const DualCart8ParamDefinition&>(g); pos({x.default_first_x_, x.default_first_y_, x.default_first_z_, x.default_second_x_, x.default_second_y_, x.default_second_z_}); break; }
    case 8: { auto& x = static_cast<const DualCart16ParamDefinition&>(g); pos({x.default_first_x_, x.default_first_y_, x.default_first_z_, x.default_second_x_, x.default_second_y_, x.default_second_z_}); break; }
  }
}
void Element(Ctx& c) {
  Rng& r = c.rng;
  auto h = ref::GenHdr(r, 1);
  const ref::Element e = ref::GenElement(r);
  auto enc = [&](const Lp& lp, bool) { return ref::EncodeElement(e, lp); };
  Round<AudioElementObu>(c, "audio-element", h, enc, Footer(r), Maker<AudioElementObu>(), [&](const AudioElementObu& o) {
    V_CHECK(c, o.GetAudioElementId() == e.id && int(o.GetAudioElementType()) == e.type && o.GetCodecConfigId() == e.codec, "element-fields", e.id);
    V_CHECK(c, o.audio_substream_ids_ == e.subs && o.GetNumSubstreams() == e.subs.size(), "element-substreams", e.subs.size());
    V_CHECK(c, o.GetNumParameters() == e.params.size(), "element-params", e.params.size());
    for (size_t i = 0; i < e.params.size() && i < o.audio_element_params_.size(); ++i) {
      auto& g = o.audio_element_params_[i];
      V_CHECK(c, g.GetType() == e.params[i].type, "element-param-type", e.params[i].type);
      if (e.params[i].type >= 3) { auto* x = std::get_if<ExtendedParamDefinition>(&g.param_definition); V_CHECK(c, x && x->param_definition_bytes_ == e.params[i].ext, "element-param-extension", Hex(e.params[i].ext)); }
      else std::visit([&](const auto& x) { CheckPd(c, x, e.params[i]); }, g.param_definition);
      if (e.params[i].type == 2) { auto* x = std::get_if<ReconGainParamDefinition>(&g.param_definition); V_CHECK(c, x && x->audio_element_id_ == e.id, "recon-gain-element-id", e.id); }
    }
    if (e.type == 0) {
      auto* s = std::get_if<ScalableChannelLayoutConfig>(&o.config_);
      V_CHECK(c, s && s->reserved == e.ch_res && s->GetNumLayers() == e.layers.size(), "layers", e.layers.size());
      for (size_t i = 0; s && i < e.layers.size() && i < s->channel_audio_layer_configs.size(); ++i) {
        auto& g = s->channel_audio_layer_configs[i]; auto& l = e.layers[i];
        V_CHECK(c, g.loudspeaker_layout == l.layout && g.output_gain_is_present_flag == l.og && g.recon_gain_is_present_flag == l.rg && g.reserved_a == l.res_a && g.substream_count == l.sub && g.coupled_substream_count == l.coupled, "layer-fields", i);
        if (l.og) V_CHECK(c, g.output_gain_flag == l.og_flags && g.reserved_b == l.res_b && g.output_gain == l.gain, "layer-gain-fields", i);
        V_CHECK(c, g.expanded_loudspeaker_layout.has_value() == (l.layout == 15) && (l.layout != 15 || *g.expanded_loudspeaker_layout == l.expanded), "layer-expanded", int(l.expanded));
      }
    } else if (e.type == 1) {
      auto* a = std::get_if<AmbisonicsConfig>(&o.config_);
      V_CHECK(c, a && a->GetAmbisonicsMode() == e.amb_mode && a->GetOutputChannelCount() == e.C && a->GetNumSubstreams() == e.N, "ambisonics-fields", int(e.C));
    } else if (e.type == 2) {
      auto* x = std::get_if<ObjectsConfig>(&o.config_);
      V_CHECK(c, x && x->GetNumObjects() == e.num_objects && Bytes(x->GetObjectsConfigExtensionBytesView().begin(), x->GetObjectsConfigExtensionBytesView().end()) == e.obj_ext, "objects-fields", int(e.num_objects));
    } else {
      auto* x = std::get_if<ExtensionConfig>(&o.config_);
      V_CHECK(c, x && x->audio_element_config_bytes == e.ext, "element-extension", Hex(e.ext));
    }
  });
  Mutated<AudioElementObu>(c, "audio-element", ref::EncodeObu(h, enc(Lp{}, true), Lp{}), Maker<AudioElementObu>());
}
// One rule broken at a time.
void ElementLimits(Ctx& c) {
  Rng& r = c.rng;
  const int what = static_cast<int>(r.Below(12));
  ref::Element e = ref::GenElement(r, what <= 4 ? 0 : what <= 6 ? 2 : -1);
  const char* name = "";
  switch (what) {
    case 0: { ref::Layer l = e.layers.empty() ? ref::Layer{} : e.layers[0]; l.layout = 1; l.sub = 0; l.coupled = 0; while (e.layers.size() < 7) e.layers.push_back(l); name = "seven layers"; break; }
    case 1: e.layers.clear(); e.subs.clear(); name = "no layer"; break;
    case 2: e.subs.push_back(0xfffffff0u); name = "more substreams than layers declare"; break;
    case 3: if (e.subs.empty()) return; e.subs.pop_back(); name = "fewer substreams than layers declare"; break;
    case 4: { ref::Layer l; l.layout = 9; l.sub = l.coupled = 0; if (e.layers.size() >= 6) e.layers[0].layout = 9; else e.layers.insert(e.layers.begin() + r.Below(e.layers.size() + 1), l); name = "binaural in several layers"; break; }
    case 5: e.num_objects = r.Bool() ? 0 : static_cast<uint8_t>(r.Range(3, 255)); name = "object count"; break;
    case 6: return;  // the number of substreams of an object element is not limited by the reader
    case 7: if (e.subs.size() < 2) return; e.subs.back() = e.subs[0]; name = "duplicate substream"; break;
    case 8: { ref::Pd p = ref::GenPd(r, 0); p.ext = r.Bytes(4); e.params.push_back(p); name = "mix gain in element"; break; }
    case 9: { uint32_t t = e.params.empty() ? 1 : e.params[0].type; if (e.params.empty()) e.params.push_back(ref::GenPd(r, 1)); auto p = ref::GenPd(r, t); p.type = t; e.params.push_back(p); name = "duplicate parameter type"; break; }
    case 10: { auto p = ref::GenPd(r, static_cast<uint32_t>(r.Range(1, 2))); e.params.clear(); int k = static_cast<int>(r.Below(3)); if (k == 0) { p.s.dur = p.s.csd = 0; } else if (k == 1) { p.s.csd = p.s.dur; p.s.dur += 1 + r.Below(50); } else { p.rate = 0; } e.params.push_back(p); name = "demixing/recon schedule"; break; }
    case 11: { auto p = ref::GenPd(r, 1); p.dmode = r.Bool() ? 3 : 7; e.params.clear(); e.params.push_back(p); name = "reserved dmixp mode"; break; }
  }
  auto h = ref::GenHdr(r, 1);
  auto d = ref::EncodeObu(h, ref::EncodeElement(e, Lp{}), Lp{});
  std::unique_ptr<AudioElementObu> o;
  auto rd = ReadObu(d, [&](auto& hh, int64_t n, ReadBitBuffer& rb) -> absl::Status { return Maker<AudioElementObu>()(hh, n, rb, o); });
  c.Eval();
  V_CHECK(c, !rd.ok, "element-limit-accepted", name << " bytes " << Hex(d));
  c.Count("limits-refused");
  c.Count(std::string("element-limit: ") + name);
  c.Distinct(HashVec(d));
}
void CheckRendering(Ctx& c, const RenderingConfig& g, const ref::Rendering& m) {
  V_CHECK(c, int(g.headphones_rendering_mode) == m.mode && int(g.binaural_filter_profile) == m.profile && g.reserved == m.res, "rendering-fields", int(m.mode) << " " << int(m.profile));
  V_CHECK(c, g.rendering_config_param_definitions.size() == m.params.size(), "rendering-params", m.params.size());
  for (size_t i = 0; i < m.params.size() && i < g.rendering_config_param_definitions.size(); ++i) {
    V_CHECK(c, g.rendering_config_param_definitions[i].param_definition_type == m.params[i].type, "rendering-param-type", m.params[i].type);
    std::visit([&](const auto& x) { CheckPd(c, x, m.params[i]); }, g.rendering_config_param_definitions[i].param_definition);
  }
  V_CHECK(c, g.element_gain_offset_config.has_value() == m.go.has_value(), "gain-offset-presence", m.go.has_value());
  V_CHECK(c, g.rendering_config_extension_bytes == m.ext, "rendering-extension", Hex(g.rendering_config_extension_bytes) << " want " << Hex(m.ext));
}
void MixP(Ctx& c) {
  Rng& r = c.rng;
  ref::Mix m = ref::GenMix(r, r.Chance(3, 4));
  auto h = ref::GenHdr(r, 2);
  h.flag = m.opt;
  auto enc = [&](const Lp& lp, bool canonical) {
    ref::Mix x = m;
    if (canonical) for (auto& s : x.sm) for (auto& e : s.el) e.rc.force_empty_ext = e.rc.force_ext_size0_flag = false;
    return ref::EncodeMix(x, lp);
  };
  // Bytes after the tags would be tags themselves if there were none.
  const Bytes foot = m.tags ? Footer(r) : Bytes{};
  Round<MixPresentationObu>(c, "mix-presentation", h, enc, foot, Maker<MixPresentationObu>(), [&](const MixPresentationObu& o) {
    V_CHECK(c, o.GetMixPresentationId() == m.id && o.GetAnnotationsLanguage() == m.lang && o.GetLocalizedPresentationAnnotations() == m.note && o.GetNumSubMixes() == m.sm.size() && o.sub_mixes_.size() == m.sm.size(), "mix-fields", m.id);
    for (size_t i = 0; i < m.sm.size() && i < o.sub_mixes_.size(); ++i) {
      auto& g = o.sub_mixes_[i]; auto& s = m.sm[i];
      V_CHECK(c, g.audio_elements.size() == s.el.size() && g.layouts.size() == s.layouts.size(), "sub-mix-sizes", s.el.size() << " " << s.layouts.size() << " got " << g.layouts.size());
      CheckPd(c, g.output_mix_gain, s.out);
      for (size_t k = 0; k < s.el.size() && k < g.audio_elements.size(); ++k) {
        auto& a = g.audio_elements[k]; auto& e = s.el[k];
        V_CHECK(c, a.audio_element_id == e.id && a.localized_element_annotations == e.notes, "mix-element-fields", e.id);
        CheckRendering(c, a.rendering_config, e.rc);
        CheckPd(c, a.element_mix_gain, e.gain);
      }
      for (size_t k = 0; k < s.layouts.size() && k < g.layouts.size(); ++k) {
        auto& a = g.layouts[k]; auto& l = s.layouts[k];
        V_CHECK(c, int(a.loudness_layout.layout_type) == l.type, "layout-type", int(l.type));
        if (l.type == 2) { auto* x = std::get_if<LoudspeakersSsConventionLayout>(&a.loudness_layout.specific_layout); V_CHECK(c, x && int(x->sound_system) == l.ss && x->reserved == l.res, "sound-system", int(l.ss)); }
        else { auto* x = std::get_if<LoudspeakersReservedOrBinauralLayout>(&a.loudness_layout.specific_layout); V_CHECK(c, x && x->reserved == l.res, "layout-reserved", int(l.res)); }
        auto& u = a.loudness;
        V_CHECK(c, u.info_type == l.info && u.integrated_loudness == l.il && u.digital_peak == l.dp, "loudness-fields", l.il << " " << l.dp);
        if (l.info & 1) V_CHECK(c, u.true_peak == l.tp, "true-peak", l.tp);
        if (l.info & 2) {
          V_CHECK(c, u.anchored_loudness.anchor_elements.size() == l.anchors.size(), "anchors", l.anchors.size());
          for (size_t q = 0; q < l.anchors.size() && q < u.anchored_loudness.anchor_elements.size(); ++q) V_CHECK(c, int(u.anchored_loudness.anchor_elements[q].anchor_element) == l.anchors[q].what && u.anchored_loudness.anchor_elements[q].anchored_loudness == l.anchors[q].v, "anchor-fields", q);
        }
        if (l.info & 0xfc) V_CHECK(c, u.layout_extension.info_type_bytes == l.ext, "layout-extension", Hex(l.ext));
      }
    }
    V_CHECK(c, o.mix_presentation_tags_.has_value() == m.tags.has_value(), "tags-presence", m.tags.has_value());
    if (m.tags && o.mix_presentation_tags_) {
      auto& t = o.mix_presentation_tags_->tags;
      bool same = t.size() == m.tags->size();
      for (size_t i = 0; same && i < t.size(); ++i) same = t[i].tag_name == (*m.tags)[i].first && t[i].tag_value == (*m.tags)[i].second;
      V_CHECK(c, same, "tags", t.size());
    }
    V_CHECK(c, o.optional_fields_.has_value() == m.opt, "optional-fields-presence", m.opt);
    if (m.opt && o.optional_fields_) V_CHECK(c, int(o.optional_fields_->preferred_loudspeaker_renderer) == m.lr && int(o.optional_fields_->preferred_binaural_renderer) == m.br && o.optional_fields_->optional_fields_remaining_bytes == m.opt_rest, "optional-fields", int(m.lr));
  });
  Mutated<MixPresentationObu>(c, "mix-presentation", ref::EncodeObu(h, enc(Lp{}, true), Lp{}), Maker<MixPresentationObu>());
}
void MixLimits(Ctx& c) {
  Rng& r = c.rng;
  ref::Mix m = ref::GenMix(r);
  const char* name = "";
  auto& s = m.sm[r.Below(m.sm.size())];
  switch (r.Below(11)) {
    case 0: m.sm.clear(); name = "no sub-mix"; break;
    case 1: s.el.clear(); name = "no audio element"; break;
    case 2: { if (m.lang.size() < 2) return; m.lang[1] = m.lang[0]; name = "duplicate language"; break; }
    case 3: { auto e = m.sm[0].el[0]; m.sm.back().el.push_back(e); name = "duplicate element"; break; }
    case 4: s.el[0].gain.mode1 = false; s.el[0].gain.s = ref::GenSched(r); s.el[0].gain.rate = 0; name = "zero rate"; break;
    case 5: { s.out.mode1 = false; s.out.s = ref::GenSched(r); if (s.out.s.csd) { s.out.s.csd = s.out.s.dur + 1; } else s.out.s.dur += 1; name = "inconsistent schedule"; break; }
    case 6: { s.out.mode1 = false; s.out.s = ref::Sched{}; if (r.Bool()) { s.out.s.csd = 1 + r.Below(9); } else { s.out.s.dur = 5; s.out.s.subs = {5, 0}; } name = "zero duration"; break; }
    case 7: { auto& l = s.layouts[0]; l.info |= 2; l.anchors = {{1, 5}, {2, 6}, {1, 7}}; name = "duplicate anchor"; break; }
    case 8: { auto& rc = s.el[0].rc; rc = ref::Rendering{}; ref::GainOffset g; g.type = 1; g.lo = 5; g.hi = 4; g.def = 4; rc.go = g; name = "gain range"; return; }
    case 9: { ref::SubMix x = m.sm[0]; m.sm.clear(); for (uint32_t i = 0; i < 29; ++i) { auto y = x; y.el.resize(1); y.el[0].id = 1000 + i; m.sm.push_back(y); } name = "29 sub-mixes"; break; }
    case 10: { s.out.mode1 = false; s.out.s = ref::Sched{}; s.out.s.dur = 10; s.out.s.num = r.Bool() ? 0 : 11; if (*s.out.s.num) s.out.s.subs.assign(11, 1); name = "sub-block count"; break; }
  }
  auto h = ref::GenHdr(r, 2);
  h.flag = m.opt;
  auto d = ref::EncodeObu(h, ref::EncodeMix(m, Lp{}), Lp{});
  std::unique_ptr<MixPresentationObu> o;
  auto rd = ReadObu(d, [&](auto& hh, int64_t n, ReadBitBuffer& rb) -> absl::Status { return Maker<MixPresentationObu>()(hh, n, rb, o); });
  c.Eval();
  V_CHECK(c, !rd.ok, "mix-limit-accepted", name << " bytes " << Hex(d));
  c.Count("limits-refused");
  c.Count(std::string("mix-limit: ") + name);
  c.Distinct(HashVec(d));
}
void CodecC(Ctx& c) {
  Rng& r = c.rng;
  auto h = ref::GenHdr(r, 0);
  const ref::Codec m = ref::GenCodec(r);
  const int iso = r.Chance(1, 3) ? static_cast<int>(r.Range(1, 4)) : 1;
  auto enc = [&](const Lp& lp, bool canonical) { return ref::EncodeCodec(m, lp, canonical ? 1 : iso); };
  Round<CodecConfigObu>(c, "codec-config", h, enc, Footer(r), Maker<CodecConfigObu>(), [&](const CodecConfigObu& o) {
    V_CHECK(c, o.GetCodecConfigId() == m.id && o.GetCodecConfig().codec_id == m.fourcc && o.GetNumSamplesPerFrame() == m.nsamples && o.GetCodecConfig().audio_roll_distance == m.roll, "codec-fields", m.id);
  });
  Mutated<CodecConfigObu>(c, "codec-config", ref::EncodeObu(h, enc(Lp{}, true), Lp{}), Maker<CodecConfigObu>());
}

// ---------------------------------------------------------------- parameter blocks
std::unique_ptr<ParamDefinition> BuildDef(const ref::PBlock& p) {
  ParamDefinition::BaseArgs a{.parameter_id = p.def.id, .parameter_rate = p.def.rate, .reserved = p.def.res};
  if (!p.def.mode1) {
    auto s = p.def.s.csd ? SubblockSchedule::CreateWithConstantSubblockDuration(p.def.s.dur, p.def.s.csd) : SubblockSchedule::CreateWithVariableSubblockDuration(p.def.s.subs);
    if (!s.ok()) HarnessBug("schedule " + s.status().ToString());
    a.schedule = *s;
  }
  if (p.def.type == 0) return std::make_unique<MixGainParamDefinition>(a);
  if (p.def.type == 1) return std::make_unique<DemixingParamDefinition>(a);
  if (p.def.type == 2) {
    auto d = std::make_unique<ReconGainParamDefinition>(a, 7);
    for (bool f : p.recon_flags) { ReconGainParamDefinition::ReconGainAuxiliaryData x; x.recon_gain_is_present_flag = f; d->aux_data_.push_back(x); }
    return d;
  }
  return std::make_unique<ExtendedParamDefinition>(static_cast<ParamDefinition::ParameterDefinitionType>(p.def.type), a);
}
void CheckData(Ctx& c, const ParameterData* g, const ref::PBlock& p, const ref::PData& d) {
  V_CHECK(c, g != nullptr, "data-missing", "");
  if (!g) return;
  switch (p.def.type) {
    case 0: {
      auto* x = dynamic_cast<const MixGainParameterData*>(g);
      V_CHECK(c, x && x->GetAnimationType() == d.anim && x->param_data.index() == d.anim, "mix-gain-animation", d.anim);
      if (!x) return;
      if (d.anim == 0) V_CHECK(c, std::get<0>(x->param_data).start_point_value == d.a, "mix-gain-step", d.a);
      if (d.anim == 1) V_CHECK(c, std::get<1>(x->param_data).start_point_value == d.a && std::get<1>(x->param_data).end_point_value == d.b, "mix-gain-linear", d.a);
      if (d.anim == 2) { auto& z = std::get<2>(x->param_data); V_CHECK(c, z.start_point_value == d.a && z.end_point_value == d.b && z.control_point_value == d.c && z.control_point_relative_time == d.t, "mix-gain-bezier", d.a); }
      break;
    }
    case 1: { auto* x = dynamic_cast<const DemixingInfoParameterData*>(g); V_CHECK(c, x && x->dmixp_mode == d.dmode && x->reserved == d.dres, "demixing-data", int(d.dmode)); break; }
    case 2: {
      auto* x = dynamic_cast<const ReconGainInfoParameterData*>(g);
      V_CHECK(c, x && x->recon_gain_elements.size() == d.recon.size(), "recon-layers", d.recon.size());
      for (size_t i = 0; x && i < d.recon.size() && i < x->recon_gain_elements.size(); ++i) {
        auto& e = x->recon_gain_elements[i];
        V_CHECK(c, e.has_value() == d.recon[i].has_value(), "recon-layer-presence", i);
        if (!e || !d.recon[i]) continue;
        V_CHECK(c, e->recon_gain_flag == d.recon[i]->flags, "recon-flags", i);
        for (int k = 0; k < 12; ++k) V_CHECK(c, e->recon_gain[k] == ((d.recon[i]->flags >> k & 1) ? d.recon[i]->g[k] : 0), "recon-gain", "layer " << i << " bit " << k << " got " << int(e->recon_gain[k]));
      }
      break;
    }
    default: { auto* x = dynamic_cast<const ExtensionParameterData*>(g); V_CHECK(c, x && x->parameter_data_bytes == d.ext, "extension-data", Hex(d.ext)); }
  }
}
void Block(Ctx& c) {
  Rng& r = c.rng;
  auto h = ref::GenHdr(r, 3);
  const uint32_t type = r.Chance(1, 5) ? std::max<uint32_t>(9, r.Edge32()) : static_cast<uint32_t>(r.Below(3));
  const ref::PBlock p = ref::GenPBlock(r, type);
  auto def = BuildDef(p);
  auto make = [&](const ObuHeader& hh, int64_t n, ReadBitBuffer& rb, std::unique_ptr<ParameterBlockObu>& out) -> absl::Status {
    auto id = ParameterBlockObu::PeekParameterId(rb);
    if (id.ok() && out == nullptr) c.Count("peeked");
    auto s = ParameterBlockObu::CreateFromBuffer(hh, n, *def, rb);
    if (!s.ok()) return s.status();
    if (!id.ok() || *id != p.def.id) return absl::InternalError("peeked id differs");
    out = *std::move(s);
    return absl::OkStatus();
  };
  auto enc = [&](const Lp& lp, bool) { return ref::EncodePBlock(p, lp); };
  Round<ParameterBlockObu>(c, "parameter-block", h, enc, Footer(r), make, [&](const ParameterBlockObu& o) {
    V_CHECK(c, o.parameter_id_ == p.def.id && o.GetDuration() == p.s.dur && o.GetConstantSubblockDuration() == p.s.csd && o.GetNumSubblocks() == p.s.Count() && o.subblocks_.size() == p.data.size(), "block-fields", p.def.id << " " << p.s.dur << "/" << p.s.csd << "/" << p.s.Count());
    for (size_t i = 0; i < p.data.size() && i < o.subblocks_.size(); ++i) {
      auto d = o.GetSubblockDuration(static_cast<int>(i));
      V_CHECK(c, d.ok() && *d == p.s.At(i), "block-subblock-duration", i);
      CheckData(c, o.subblocks_[i].get(), p, p.data[i]);
    }
  });
  Mutated<ParameterBlockObu>(c, "parameter-block", ref::EncodeObu(h, enc(Lp{}, true), Lp{}), make);
  // A block that names another parameter.
  ref::PBlock q = p;
  q.def.id = p.def.id ^ (1u << r.Below(32));
  std::unique_ptr<ParameterBlockObu> o;
  auto rd = ReadObu(ref::EncodeObu(h, ref::EncodePBlock(q, Lp{}), Lp{}), [&](auto& hh, int64_t n, ReadBitBuffer& rb) -> absl::Status { auto s = ParameterBlockObu::CreateFromBuffer(hh, n, *def, rb); return s.status(); });
  V_CHECK(c, !rd.ok, "block-wrong-id-accepted", q.def.id << " for " << p.def.id);
  if (p.def.mode1) {
    q = p;
    const char* name = "";
    switch (r.Below(4)) {
      case 0: if (q.s.csd) { q.s.csd = q.s.dur + 1; } else q.s.dur ^= 1; name = "duration"; break;
      case 1: q.s.dur = 0; name = "zero duration"; break;
      case 2: if (q.s.csd) return; q.s.subs[r.Below(q.s.subs.size())] = 0; name = "zero sub-block"; break;
      case 3: if (q.s.csd) return; q.s.num = r.Bool() ? 0 : 192001; name = "sub-block count"; break;
    }
    auto bad = ref::EncodeObu(h, ref::EncodePBlock(q, Lp{}), Lp{});
    rd = ReadObu(bad, [&](auto& hh, int64_t n, ReadBitBuffer& rb) -> absl::Status { return ParameterBlockObu::CreateFromBuffer(hh, n, *def, rb).status(); });
    V_CHECK(c, !rd.ok, "block-limit-accepted", name << " " << Hex(bad));
    c.Count("limits-refused");
  }
  if (type == 0) {
    q = p;
    q.data[0].anim = static_cast<uint32_t>(r.Range(3, 200));
    rd = ReadObu(ref::EncodeObu(h, ref::EncodePBlock(q, Lp{}), Lp{}), [&](auto& hh, int64_t n, ReadBitBuffer& rb) -> absl::Status { return ParameterBlockObu::CreateFromBuffer(hh, n, *def, rb).status(); });
    V_CHECK(c, !rd.ok, "unknown-animation-accepted", q.data[0].anim);
    c.Count("limits-refused");
  }
}
// A legal OBU is read, one public field is then set outside its limits: the writer must refuse.
void WriteLimits(Ctx& c) {
  Rng& r = c.rng;
  const char* name = "";
  std::string why;
  std::optional<Bytes> w;
  c.Eval();
  if (r.Chance(2, 3)) {
    ref::Mix m = ref::GenMix(r);
    auto h = ref::GenHdr(r, 2);
    h.flag = m.opt;
    auto d = ref::EncodeObu(h, ref::EncodeMix(m, Lp{}), Lp{});
    std::unique_ptr<MixPresentationObu> o;
    auto rd = ReadObu(d, [&](auto& hh, int64_t n, ReadBitBuffer& rb) -> absl::Status { return Maker<MixPresentationObu>()(hh, n, rb, o); });
    if (!rd.ok) return;
    auto& s = o->sub_mixes_[r.Below(o->sub_mixes_.size())];
    switch (r.Below(13)) {
      case 0: o->sub_mixes_.clear(); name = "no sub-mix"; break;
      case 1: s.audio_elements.clear(); name = "no element"; break;
      case 2: s.audio_elements.push_back(o->sub_mixes_[0].audio_elements[0]); name = "duplicate element"; break;
      case 3: { auto& l = s.layouts; l.erase(std::remove_if(l.begin(), l.end(), [](auto& x) { return x.loudness_layout.layout_type == Layout::kLayoutTypeLoudspeakersSsConvention && std::get<LoudspeakersSsConventionLayout>(x.loudness_layout.specific_layout).sound_system == LoudspeakersSsConventionLayout::kSoundSystemA_0_2_0; }), l.end()); name = "no stereo layout"; break; }
      case 4: s.audio_elements[0].localized_element_annotations.push_back("x"); name = "annotation count"; break;
      case 5: { std::string big(r.Range(128, 300), 'a'); if (s.audio_elements[0].localized_element_annotations.empty()) return; s.audio_elements[0].localized_element_annotations[0] = big; name = "long annotation"; break; }
      case 6: o->mix_presentation_tags_.emplace(); o->mix_presentation_tags_->tags.assign(2, {"content_language", "eng"}); name = "two content languages"; break;
      case 7: o->mix_presentation_tags_.emplace(); o->mix_presentation_tags_->tags.assign(1, {"content_language", r.Pick<const char*>({"", "en", "engl", "english"})}); name = "content language length"; break;
      case 8: o->mix_presentation_tags_.emplace(); o->mix_presentation_tags_->tags.assign(r.Range(256, 400), {"a", "b"}); name = "256 tags"; break;
      case 9: if (!m.opt) return; o->mix_presentation_tags_.reset(); name = "optional fields without tags"; break;
      case 10: if (!m.opt) return; o->optional_fields_.reset(); name = "flag without optional fields"; break;
      case 11: if (!m.opt) return; o->optional_fields_->optional_fields_remaining_bytes.push_back(1); name = "optional fields size"; break;
      case 12: { auto& l = s.layouts[0].loudness; l.info_type |= 2; l.anchored_loudness.anchor_elements.clear(); for (int i = 0; i < 256; ++i) l.anchored_loudness.anchor_elements.push_back({static_cast<AnchoredLoudnessElement::AnchorElement>(i), 0}); name = "256 anchors"; break; }
    }
    w = WriteObu(*o, &why);
  } else {
    ref::Element e = ref::GenElement(r);
    auto d = ref::EncodeObu(ref::GenHdr(r, 1), ref::EncodeElement(e, Lp{}), Lp{});
    std::unique_ptr<AudioElementObu> o;
    auto rd = ReadObu(d, [&](auto& hh, int64_t n, ReadBitBuffer& rb) -> absl::Status { return Maker<AudioElementObu>()(hh, n, rb, o); });
    if (!rd.ok) return;
    auto* ch = std::get_if<ScalableChannelLayoutConfig>(&o->config_);
    switch (r.Below(6)) {
      case 0: if (!ch) return; ch->channel_audio_layer_configs.clear(); name = "no layer"; break;
      case 1: { if (!ch) return; auto x = ch->channel_audio_layer_configs[0]; x.loudspeaker_layout = ChannelAudioLayerConfig::kLayoutMono; x.substream_count = x.coupled_substream_count = 0; while (ch->channel_audio_layer_configs.size() < 7) ch->channel_audio_layer_configs.push_back(x); name = "seven layers"; break; }
      case 2: if (e.type > 1) return; o->audio_substream_ids_.push_back(77); name = "substream count"; break;
      case 3: { o->audio_element_params_.clear(); for (int i = 0; i < 257; ++i) { ExtendedParamDefinition x(static_cast<ParamDefinition::ParameterDefinitionType>(100 + i), {}); o->audio_element_params_.push_back({x}); } name = "257 parameters"; break; }
      case 4: { ExtendedParamDefinition x(static_cast<ParamDefinition::ParameterDefinitionType>(100), {}); o->audio_element_params_.clear(); for (int i = 0; i < 2; ++i) o->audio_element_params_.push_back({x}); name = "duplicate parameter type"; break; }
      case 5: { ExtendedParamDefinition x(ParamDefinition::kParameterDefinitionMixGain, {}); o->audio_element_params_.clear(); o->audio_element_params_.push_back({x}); name = "mix gain in element"; break; }
    }
    w = WriteObu(*o, &why);
  }
  c.Count("limits-refused");
  c.Count(std::string("write-limit: ") + name);
  V_CHECK(c, !w.has_value(), "write-limit-accepted", name << " " << (w ? Hex(*w) : ""));
}
// Held by the library, written with the model's bytes, and read back.
void Schedules(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 20; ++k) {
    const uint32_t dur = r.Chance(1, 8) ? 0 : r.Chance(1, 3) ? r.Edge32() : static_cast<uint32_t>(r.Range(1, 5000));
    const uint32_t csd = r.Chance(1, 8) ? 0 : r.Chance(1, 3) ? r.Edge32() : static_cast<uint32_t>(r.Range(1, 5000));
    const uint64_t n = csd ? (uint64_t{dur} + csd - 1) / csd : 0;
    const bool ok = dur != 0 && csd != 0 && csd <= dur && n <= 192000;
    auto s = SubblockSchedule::CreateWithConstantSubblockDuration(dur, csd);
    c.Eval();
    V_CHECK(c, s.ok() == ok, "constant-schedule-validity", dur << "/" << csd << " " << s.status());
    if (s.ok()) {
      ref::Sched m; m.dur = dur; m.csd = csd;
      V_CHECK(c, s->GetNumSubblocks() == n && s->GetDuration() == dur && s->GetConstantSubblockDuration() == csd, "constant-schedule-fields", dur << "/" << csd);
      for (uint64_t i : {uint64_t{0}, n / 2, n - 1}) { auto d = s->GetSubblockDuration(static_cast<int>(i)); V_CHECK(c, d.ok() && *d == (i + 1 == n ? dur - csd * (n - 1) : csd), "constant-schedule-duration", dur << "/" << csd << " index " << i); }
      c.Distinct(dur * 0x100000001ull + csd);
    }
    std::vector<uint32_t> v;
    uint64_t total = 0; bool zero = false;
    const size_t cnt = r.Chance(1, 40) ? r.Pick<size_t>({192000, 192001}) : r.Below(12);
    for (size_t i = 0; i < cnt; ++i) { uint32_t d = r.Chance(1, 20) ? 0 : r.Chance(1, 8) && cnt < 100 ? r.Edge32() : static_cast<uint32_t>(r.Range(1, 20)); v.push_back(d); total += d; zero |= d == 0; }
    auto s2 = SubblockSchedule::CreateWithVariableSubblockDuration(v);
    const bool ok2 = !v.empty() && v.size() <= 192000 && !zero && total <= 0xffffffffull;
    V_CHECK(c, s2.ok() == ok2, "variable-schedule-validity", v.size() << " total " << total << " zero " << zero << " " << s2.status());
    if (s2.ok() && ok2) {
      V_CHECK(c, s2->GetDuration() == total && s2->GetConstantSubblockDuration() == 0 && s2->GetNumSubblocks() == v.size(), "variable-schedule-fields", total);
      if (v.size() < 100) { ref::Sched m; m.dur = static_cast<uint32_t>(total); m.subs = v; WriteBitBuffer wb(8); auto st = s2->Write(std::nullopt, wb); ref::Bits b; ref::EncodeSched(b, m, Lp{}); V_CHECK(c, st.ok() && wb.bit_buffer() == b.Bytes(), "variable-schedule-bytes", Hex(wb.bit_buffer())); }
    }
    c.Count("schedules");
  }
}
void Animated(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 20; ++k) {
    const uint32_t type = r.Chance(1, 6) ? std::max<uint32_t>(5, r.Edge32()) : static_cast<uint32_t>(r.Below(5));
    const int16_t a = ref::GenS16(r), b = ref::GenS16(r), m = ref::GenS16(r);
    const uint8_t t = r.U8();
    ref::Bits w;
    Lp{-1, &r}(w, type);
    if (type <= 2) w.PutS(a, 16);
    if (type >= 1 && type <= 4) w.PutS(b, 16);
    if (type == 2 || type == 4) { w.PutS(m, 16); w.Put(t, 8); }
    Bytes d = w.Bytes();
    const bool cut = r.Chance(1, 5);
    if (cut) d.pop_back();
    auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(d));
    auto x = AnimatedParameterData<int16_t>::CreateFromBuffer(*rb, [](ReadBitBuffer& q, int16_t& v) { return q.ReadSigned16(v); });
    c.Eval();
    c.Count("animated");
    V_CHECK(c, x.ok() == (type <= 4 && !cut), "animated-status", type << " cut " << cut << " " << x.status());
    if (!x.ok()) continue;
    auto opt = [](bool p, int16_t v) { return p ? std::optional<int16_t>(v) : std::nullopt; };
    V_CHECK(c, static_cast<uint32_t>(x->animation_type()) == type && x->start_point_value() == opt(type <= 2, a) && x->end_point_value() == opt(type >= 1, b) && x->control_point_value() == opt(type == 2 || type == 4, m) && x->control_point_relative_time() == ((type == 2 || type == 4) ? std::optional<uint8_t>(t) : std::nullopt), "animated-fields", type << " " << a << " " << b << " " << m << " " << int(t));
    V_CHECK(c, rb->Tell() == static_cast<int64_t>(d.size()) * 8, "animated-consumed", type);
  }
}
}  // namespace
V_MAIN({{"sequence-header", 3000, 60000, Sequence}, {"audio-frame", 3000, 60000, Frame}, {"temporal-delimiter", 1500, 20000, Delimiter},
        {"metadata", 3000, 60000, Metadata}, {"arbitrary", 3000, 60000, Arbitrary}, {"codec-config", 4000, 100000, CodecC},
        {"audio-element", 6000, 200000, Element}, {"element-limits", 6000, 100000, ElementLimits}, {"mix-presentation", 6000, 200000, MixP},
        {"mix-limits", 6000, 100000, MixLimits}, {"parameter-block", 6000, 200000, Block}, {"write-limits", 4000, 80000, WriteLimits}, {"schedules", 1000, 20000, Schedules}, {"animated", 500, 10000, Animated}})
