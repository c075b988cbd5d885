// C17: OBU sequencers driven in lock step by random histories against a model of what each has to emit, with
// failures injected; and the encoder with a file sequencer and arbitrary OBUs.
#include <signal.h>
#include <sys/resource.h>
#include <filesystem>
#include <fstream>
#include "harness/encwork.h"
#include "iamf/cli/audio_frame_with_data.h"
#include "iamf/cli/obu_processor.h"
#include "iamf/cli/obu_sequencer_base.h"
#include "iamf/cli/obu_sequencer_iamf.h"
#include "iamf/cli/obu_sequencer_streaming_iamf.h"
#include "iamf/cli/profile_filter.h"
#include "iamf/cli/proto_conversion/proto_utils.h"
#include "iamf/cli/temporal_unit_view.h"
#include "iamf/common/leb_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "iamf/obu/arbitrary_obu.h"
#include "iamf/obu/metadata_obu.h"
using namespace vlib;
using namespace iamf_tools;
using ref::Bytes;
namespace pb = iamf_tools_cli_proto;
namespace {
typedef ArbitraryObu A;
bool Exists(const std::string& p) { return std::filesystem::exists(p); }
Bytes Slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
Bytes ToBytes(absl::Span<const uint8_t> s) { return Bytes(s.begin(), s.end()); }
template <class T> bool Write(const T& o, const LebGenerator& leb, Bytes& out) {
  WriteBitBuffer wb(0, leb);
  if (!o.ValidateAndWriteObu(wb).ok()) return false;
  out.insert(out.end(), wb.bit_buffer().begin(), wb.bit_buffer().end());
  return true;
}
Bytes LebOf(uint32_t v, const LebGenerator& leb) { WriteBitBuffer wb(0, leb); if (!wb.WriteUleb128(v).ok()) return {}; return wb.bit_buffer(); }
// One set of descriptors. The maps are shared with a processor that owns them.
struct Desc {
  IASequenceHeaderObu header;
  std::list<MetadataObu> metadata;
  const DescriptorObus::CodecConfigsById* codecs = nullptr;
  const DescriptorObus::AudioElementsById* elements = nullptr;
  DescriptorObus::MixPresentationObus mixes;
  std::list<ArbitraryObu> arbs;
  Desc() = default;
  Desc(const Desc&) = default;
  void operator=(const Desc& o) {
    header = o.header; metadata = o.metadata; codecs = o.codecs; elements = o.elements; mixes = o.mixes;
    std::list<ArbitraryObu> a(o.arbs); arbs.swap(a);
  }
};
struct Stats { uint32_t n = 1024, rate = 48000; uint8_t depth = 16; bool operator==(const Stats&) const = default; };
struct WantDesc { bool ok = true; Bytes bytes; Stats stats; };
WantDesc Model(const Desc& d, const LebGenerator& leb) {
  WantDesc w;
  auto hook = [&](A::InsertionHook h) { for (auto& a : d.arbs) if (a.insertion_hook_ == h) w.ok &= !a.invalidates_bitstream_ && Write(a, leb, w.bytes); };
  hook(A::kInsertionHookBeforeDescriptors);
  w.ok &= Write(d.header, leb, w.bytes);
  hook(A::kInsertionHookAfterIaSequenceHeader);
  for (auto& m : d.metadata) w.ok &= Write(m, leb, w.bytes);
  std::map<uint32_t, const CodecConfigObu*> cs; for (auto& [id, o] : *d.codecs) cs[id] = &o;
  for (auto& [id, o] : cs) w.ok &= Write(*o, leb, w.bytes);
  hook(A::kInsertionHookAfterCodecConfigs);
  std::map<uint32_t, const AudioElementWithData*> es; for (auto& [id, o] : *d.elements) es[id] = &o;
  for (auto& [id, o] : es) w.ok &= Write(o->obu, leb, w.bytes);
  hook(A::kInsertionHookAfterAudioElements);
  for (auto& m : d.mixes) {
    absl::flat_hash_set<ProfileVersion> p{d.header.GetPrimaryProfile(), d.header.GetAdditionalProfile()};
    w.ok &= ProfileFilter::FilterProfilesForMixPresentation(*d.elements, m, p).ok();
    w.ok &= Write(m, leb, w.bytes);
  }
  hook(A::kInsertionHookAfterMixPresentations);
  hook(A::kInsertionHookAfterDescriptors);
  bool first = true;
  std::set<int> depths;
  for (auto& [id, o] : cs) {
    depths.insert(o->GetBitDepthToMeasureLoudness());
    if (first) { w.stats.n = o->GetNumSamplesPerFrame(); w.stats.rate = o->GetOutputSampleRate(); w.stats.depth = o->GetBitDepthToMeasureLoudness(); first = false; continue; }
    if (o->GetNumSamplesPerFrame() != w.stats.n || o->GetOutputSampleRate() != w.stats.rate) w.ok = false;
  }
  if (depths.size() > 1) w.stats.depth = 16;
  return w;
}
struct Unit { std::list<ParameterBlockWithData> blocks; std::list<AudioFrameWithData> frames; std::list<ArbitraryObu> arbs; };
struct WantUnit { bool ok = true, key = false; int64_t start = 0; uint32_t trim_start = 0; int samples = 0; Bytes bytes; };
WantUnit Model(const Unit& u, bool delimiters, const LebGenerator& leb) {
  WantUnit w;
  if (delimiters) { w.bytes = {0x20}; auto z = LebOf(0, leb); w.bytes.insert(w.bytes.end(), z.begin(), z.end()); }
  auto hook = [&](A::InsertionHook h) { for (auto& a : u.arbs) if (a.insertion_hook_ == h) w.ok &= !a.invalidates_bitstream_ && Write(a, leb, w.bytes); };
  hook(A::kInsertionHookBeforeParameterBlocksAtTick);
  std::map<uint32_t, const ParameterBlockWithData*> bs; for (auto& b : u.blocks) bs[b.obu->parameter_id_] = &b;
  for (auto& [id, b] : bs) w.ok &= Write(*b->obu, leb, w.bytes);
  hook(A::kInsertionHookAfterParameterBlocksAtTick);
  std::map<std::pair<uint32_t, uint32_t>, const AudioFrameWithData*> fs;
  for (auto& f : u.frames) fs[{f.audio_element_with_data->obu.GetAudioElementId(), f.obu.GetSubstreamId()}] = &f;
  for (auto& [id, f] : fs) w.ok &= Write(f->obu, leb, w.bytes);
  hook(A::kInsertionHookAfterAudioFramesAtTick);
  for (auto& a : u.arbs) w.key |= a.header_.obu_type == kObuIaTemporalDelimiter && !a.header_.type_specific_flag;
  auto& f = u.frames.front();
  w.start = f.start_timestamp; w.trim_start = f.obu.header_.num_samples_to_trim_at_start;
  w.samples = static_cast<int>(f.end_timestamp - f.start_timestamp - w.trim_start - f.obu.header_.num_samples_to_trim_at_end);
  return w;
}
ArbitraryObu GenArb(Rng& r, int hook, std::optional<int64_t> tick, bool invalid) {
  ObuHeader h;
  ObuType t = r.Pick(std::vector<ObuType>{kObuIaReserved25, kObuIaReserved30, kObuIaMetadata, kObuIaTemporalDelimiter, kObuIaParameterBlock, kObuIaAudioFrame});
  h.type_specific_flag = t == kObuIaTemporalDelimiter ? r.Bool() : false;
  h.obu_redundant_copy = false;
  if (r.Chance(1, 4)) h.extension_header_bytes = r.Bytes(r.Below(4));
  Bytes p = r.Bytes(r.Below(t == kObuIaTemporalDelimiter ? 1 : 20));
  return ArbitraryObu(t, h, absl::MakeConstSpan(p), static_cast<A::InsertionHook>(hook), tick, invalid);
}
// Everything a derived class is told.
class Recorder : public ObuSequencerBase {
 public:
  Recorder(const LebGenerator& leb, bool delimiters, bool delay, int fail) : ObuSequencerBase(leb, delimiters, delay), fail_(fail) {}
  std::vector<std::string> log;
 private:
  absl::Status Next() { return ++calls_ == fail_ ? absl::InternalError("injected") : absl::OkStatus(); }
  absl::Status PushSerializedDescriptorObus(uint32_t n, uint32_t rate, uint8_t depth, std::optional<InternalTimestamp> first, int ch, absl::Span<const uint8_t> d) override {
    std::ostringstream o; o << "descriptors " << n << ' ' << rate << ' ' << int{depth} << ' ' << (first ? std::to_string(*first) : "-") << ' ' << ch << ' ' << HashVec(ToBytes(d)); log.push_back(o.str());
    return Next();
  }
  absl::Status PushSerializedTemporalUnit(InternalTimestamp t, int n, bool key, absl::Span<const uint8_t> d) override {
    std::ostringstream o; o << "unit " << t << ' ' << n << ' ' << key << ' ' << HashVec(ToBytes(d)); log.push_back(o.str());
    return Next();
  }
  absl::Status PushFinalizedDescriptorObus(absl::Span<const uint8_t> d) override { log.push_back("finalized " + std::to_string(HashVec(ToBytes(d)))); return Next(); }
  void CloseDerived() override { log.push_back("close"); }
  void AbortDerived() override { log.push_back("abort"); }
  int fail_, calls_ = 0;
};
// The model of one sequencer.
struct Seq {
  enum { kInit, kHeld, kPushed, kClosed } state = kInit;
  bool delay = false; int fail = 0, calls = 0;
  std::vector<std::string> log;
  WantDesc d; std::optional<int64_t> first;
  std::vector<WantUnit> held;
  Bytes file; bool open = false, exists = false;   // of a file sequencer
  Bytes streamed, unit;                            // of a streaming one
  bool Call(const std::string& what) { log.push_back(what); return ++calls != fail; }
  void Abort() { log.push_back("abort"); state = kClosed; if (open) exists = false; open = false; streamed.clear(); unit.clear(); }
  bool EmitDesc() {
    std::ostringstream o; o << "descriptors " << d.stats.n << ' ' << d.stats.rate << ' ' << int{d.stats.depth} << ' ' << (first ? std::to_string(*first) : "-") << " 2 " << HashVec(d.bytes);
    file = d.bytes; open = exists = true; streamed = d.bytes;
    if (!Call(o.str())) return false;
    state = kPushed;
    return true;
  }
  bool EmitUnit(const WantUnit& u) {
    std::ostringstream o; o << "unit " << u.start << ' ' << u.samples << ' ' << u.key << ' ' << HashVec(u.bytes);
    file.insert(file.end(), u.bytes.begin(), u.bytes.end()); unit = u.bytes;
    return Call(o.str());
  }
  // What was held back comes out.
  bool Release() { if (!EmitDesc()) return false; for (auto& u : held) if (!EmitUnit(u)) return false; held.clear(); return true; }
  bool Push(const WantDesc& w) {
    if (state != kInit || !w.ok) { Abort(); return false; }
    d = w; state = kHeld;
    if (!delay && !EmitDesc()) { Abort(); return false; }
    return true;
  }
  bool PushUnit(const WantUnit& u) {
    bool ok = state == kHeld || state == kPushed;
    ok = ok && u.ok;
    if (ok && first && u.trim_start > 0) ok = false;
    if (ok) {
      bool fresh = !first;
      if (fresh && u.samples) first = u.start + u.trim_start;
      if (delay && fresh) { if (!first) held.push_back(u); else ok = Release() && EmitUnit(u); }
      else ok = EmitUnit(u);
    }
    if (!ok) Abort();
    return ok;
  }
  bool Update(const WantDesc& w) {
    bool ok = (state == kHeld || state == kPushed) && w.ok;
    if (ok && w.bytes != d.bytes) {
      ok = w.stats == d.stats && w.bytes.size() == d.bytes.size();
      if (ok && state == kHeld) { if (!first) first = 0; ok = Release(); }
      if (ok) { std::copy(w.bytes.begin(), w.bytes.end(), file.begin()); streamed = w.bytes; ok = Call("finalized " + std::to_string(HashVec(w.bytes))); }
    }
    ok = ok && Close();
    if (!ok) Abort();
    return ok;
  }
  bool Close() {
    if (state == kClosed) return false;
    if (state == kHeld) { first = 0; if (!Release()) return false; }
    log.push_back("close"); state = kClosed; open = false; unit.clear();
    return true;
  }
};
struct World {
  ref::Stream st; std::unique_ptr<ReadBitBuffer> rb; std::unique_ptr<ObuProcessor> p;
  std::vector<ObuProcessor::OutputTemporalUnit> units;
  Bytes all;
};
bool MakeWorld(Rng& r, World& w) {
  ref::GenOpt o; o.max_tus = 4; o.max_elems = 3; o.max_mixes = 3; o.max_frame = 64; o.trims = r.Bool(); o.identity = true; o.enhanced = r.Bool();
  w.st = ref::GenStream(r, o);
  w.all = w.st.All();
  w.rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(w.all));
  bool insufficient = false;
  w.p = ObuProcessor::Create(w.st.tus.empty(), w.rb.get(), insufficient);
  if (!w.p) return false;
  bool go = !w.st.tus.empty();
  while (go) {
    std::optional<ObuProcessor::OutputTemporalUnit> u;
    if (!w.p->ProcessTemporalUnit(true, u, go).ok()) return false;
    if (u && !u->output_audio_frames.empty()) w.units.push_back(std::move(*u));
  }
  return true;
}
Desc MakeDesc(Rng& r, const World& w) {
  Desc d;
  auto prof = [&] { return static_cast<ProfileVersion>(r.Chance(1, 12) ? r.Below(6) : r.Chance(1, 2) ? w.st.primary : w.st.additional); };
  d.header = r.Chance(1, 10) ? IASequenceHeaderObu(ObuHeader(), prof(), prof()) : IASequenceHeaderObu(ObuHeader(), static_cast<ProfileVersion>(w.st.primary), static_cast<ProfileVersion>(w.st.additional));
  for (int n = static_cast<int>(r.Chance(1, 2) ? 0 : r.Range(1, 2)); n > 0; --n) {
    if (r.Bool()) d.metadata.push_back(MetadataObu::Create(ObuHeader(), MetadataITUTT35{.itu_t_t35_country_code = static_cast<uint8_t>(r.Below(255)), .itu_t_t35_payload_bytes = r.Bytes(r.Below(9))}));
    else d.metadata.push_back(MetadataObu::Create(ObuHeader(), MetadataIamfTags{.tags = {{"name", "value" + std::to_string(r.Below(5))}}}));
  }
  d.codecs = &w.p->GetCodecConfigsByIdView(); d.elements = &w.p->GetAudioElementsView();
  for (auto& m : w.p->GetMixPresentationObusView()) d.mixes.push_back(m);
  if (r.Bool()) for (int n = static_cast<int>(r.Range(1, 4)); n > 0; --n) d.arbs.push_back(GenArb(r, static_cast<int>(r.Below(9)), std::nullopt, r.Chance(1, 25)));
  return d;
}
std::string FirstDiff(const std::vector<std::string>& a, const std::vector<std::string>& b) {
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) if (i >= a.size() || i >= b.size() || a[i] != b[i]) return "at " + std::to_string(i) + ": \"" + (i < a.size() ? a[i] : "nothing") + "\" instead of \"" + (i < b.size() ? b[i] : "nothing") + "\"";
  return "";
}
void History(Ctx& c) {
  Rng& r = c.rng;
  World w, w2;
  if (!MakeWorld(r, w)) { c.Count("no-world"); return; }
  bool other = r.Chance(1, 10) && MakeWorld(r, w2);
  c.Eval();
  auto leb = r.Chance(1, 4) ? LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, 5) : LebGenerator::Create();
  bool delimiters = r.Bool(), delay = r.Bool();
  int fail = r.Chance(1, 4) ? static_cast<int>(r.Range(1, 6)) : 0;
  std::string path = c.scratch + "/s" + std::to_string(c.index) + ".iamf";
  struct Clean { std::string p; ~Clean() { std::error_code e; std::filesystem::remove(p, e); } } clean{path};
  auto file = std::make_unique<ObuSequencerIamf>(path, delimiters, *leb);
  auto none = std::make_unique<ObuSequencerIamf>("", delimiters, *leb);
  auto stream = std::make_unique<ObuSequencerStreamingIamf>(delimiters, *leb);
  auto rec = std::make_unique<Recorder>(*leb, delimiters, delay, fail);
  std::vector<ObuSequencerBase*> real{file.get(), none.get(), stream.get(), rec.get()};
  std::vector<Seq> want(4);
  want[3].delay = delay; want[3].fail = fail;
  Desc d = MakeDesc(r, w);
  std::ostringstream what; what << (delimiters ? "delimiters " : "") << (delay ? "delayed " : "") << (fail ? "fail" + std::to_string(fail) + " " : "") << w.units.size() << " units:";
  size_t next = 0;
  // Start and end trims of some of the units.
  int64_t n = w.st.codec.nsamples;
  int fully = static_cast<int>(r.Chance(1, 2) ? r.Below(w.units.size() + 1) : 0);
  std::vector<Unit> units;
  for (size_t k = 0; k < w.units.size(); ++k) {
    Unit u; u.blocks = std::move(w.units[k].output_parameter_blocks); u.frames = std::move(w.units[k].output_audio_frames);
    uint32_t ts = 0, te = 0;
    if (static_cast<int>(k) < fully) { if (r.Bool()) ts = static_cast<uint32_t>(n); else te = static_cast<uint32_t>(n); if (r.Chance(1, 4)) { ts = static_cast<uint32_t>(r.Below(n + 1)); te = static_cast<uint32_t>(n - ts); } }
    else if (static_cast<int>(k) == fully && r.Bool()) ts = static_cast<uint32_t>(r.Below(n));
    else if (r.Chance(1, 20)) ts = static_cast<uint32_t>(r.Below(n + 1));  // too late
    if (k + 1 == w.units.size() && r.Bool()) te = static_cast<uint32_t>(r.Below(n - ts + 1));
    for (auto& f : u.frames) { f.obu.header_.num_samples_to_trim_at_start = ts; f.obu.header_.num_samples_to_trim_at_end = te; f.obu.header_.type_specific_flag = r.Chance(1, 3); }
    if (r.Chance(1, 3)) for (int q = static_cast<int>(r.Range(1, 4)); q > 0; --q) u.arbs.push_back(GenArb(r, static_cast<int>(r.Below(9)), u.frames.front().start_timestamp, r.Chance(1, 30)));
    // Any order is accepted.
    std::vector<AudioFrameWithData> fs(u.frames.begin(), u.frames.end()); r.Shuffle(fs); u.frames.assign(fs.begin(), fs.end());
    if (u.blocks.size() > 1 && r.Bool()) u.blocks.splice(u.blocks.end(), u.blocks, u.blocks.begin());
    units.push_back(std::move(u));
  }
  for (int step = 0, steps = static_cast<int>(r.Range(2, 10)); step < steps; ++step) {
    int op;  // 0 push, 1 unit, 2 update, 3 close, 4 abort
    if (r.Chance(1, 15)) op = static_cast<int>(r.Below(5));
    else if (want[0].state == Seq::kInit) op = 0;
    else if (want[0].state != Seq::kClosed && next < units.size()) op = 1;
    else if (want[0].state != Seq::kClosed) op = r.Chance(1, 3) ? 3 : r.Chance(1, 12) ? 4 : 2;
    else if (r.Bool()) break;
    else op = static_cast<int>(r.Below(5));
    if (op == 1 && next >= units.size()) { if (units.empty()) op = 3; else next = 0; }
    std::vector<absl::Status> got; std::vector<bool> exp;
    if (op == 0 || op == 2) {
      Desc e = d;
      if (op == 0) { if (r.Chance(1, 15)) e = MakeDesc(r, w); d = e; }
      else switch (r.Below(7)) {  // what changed since
        case 0: case 1: if (!e.mixes.empty()) { auto& l = e.mixes.front().sub_mixes_[0].layouts[0].loudness; l.integrated_loudness = static_cast<int16_t>(l.integrated_loudness + 1); l.digital_peak = static_cast<int16_t>(r.U32()); what << " loudness"; } break;
        case 2: e.metadata.push_back(MetadataObu::Create(ObuHeader(), MetadataIamfTags{})); what << " metadata"; break;
        case 3: if (other) { e.codecs = &w2.p->GetCodecConfigsByIdView(); what << " codecs"; if (r.Bool()) { e = MakeDesc(r, w2); what << " everything"; } } break;
        case 4: e.header = IASequenceHeaderObu(ObuHeader(), e.header.GetPrimaryProfile(), static_cast<ProfileVersion>(r.Below(6))); what << " profile"; break;
        default: break;
      }
      auto m = Model(e, *leb);
      what << (op ? " update" : " push") << (m.ok ? "" : "(bad)");
      for (size_t i = 0; i < real.size(); ++i) {
        got.push_back(op ? real[i]->UpdateDescriptorObusAndClose(e.header, e.metadata, *e.codecs, *e.elements, e.mixes, e.arbs) : real[i]->PushDescriptorObus(e.header, e.metadata, *e.codecs, *e.elements, e.mixes, e.arbs));
        exp.push_back(op ? want[i].Update(m) : want[i].Push(m));
      }
      c.Count(op ? "updates" : "pushes");
      if (!m.ok) c.Count("bad-descriptors");
    } else if (op == 1) {
      Unit& u = units[next++];
      auto v = TemporalUnitView::Create(u.blocks, u.frames, u.arbs);
      V_CHECK(c, v.ok(), "unit", v.status() << " " << what.str());
      auto m = Model(u, delimiters, *leb);
      what << " unit" << m.start << (m.samples ? "" : "(trimmed)") << (m.trim_start && m.samples ? "(start)" : "") << (m.ok ? "" : "(bad)");
      for (size_t i = 0; i < real.size(); ++i) { got.push_back(real[i]->PushTemporalUnit(*v)); exp.push_back(want[i].PushUnit(m)); }
      c.Count("units"); if (!m.samples) c.Count("trimmed-units"); if (m.key) c.Count("key-units"); if (!u.arbs.empty()) c.Count("arbitrary-units"); if (!u.blocks.empty()) c.Count("block-units");
    } else if (op == 3) {
      what << " close";
      for (size_t i = 0; i < real.size(); ++i) { got.push_back(real[i]->Close()); exp.push_back(want[i].Close()); }
      c.Count("closes");
    } else {
      what << " abort";
      for (size_t i = 0; i < real.size(); ++i) { real[i]->Abort(); want[i].Abort(); got.push_back(absl::OkStatus()); exp.push_back(true); }
      c.Count("aborts");
    }
    for (size_t i = 0; i < real.size(); ++i) {
      V_CHECK(c, got[i].ok() == exp[i], exp[i] ? "refused" : "accepted", "sequencer " << i << " after" << what.str() << ": " << got[i]);
      if (!exp[i]) c.Count("refusals");
    }
    // What each has to show for it.
    V_CHECK(c, Exists(path) == want[0].exists, want[0].exists ? "file-missing" : "file-left", what.str());
    if (want[0].exists && want[0].state == Seq::kClosed) { V_CHECK(c, Slurp(path) == want[0].file, "file-bytes", what.str() << ": " << Hex(Slurp(path), 60) << " instead of " << Hex(want[0].file, 60)); c.Count("files"); }
    V_CHECK(c, ToBytes(stream->GetSerializedDescriptorObus()) == want[2].streamed, "streamed-descriptors", what.str() << ": " << Hex(ToBytes(stream->GetSerializedDescriptorObus()), 60) << " instead of " << Hex(want[2].streamed, 60));
    V_CHECK(c, ToBytes(stream->GetPreviousSerializedTemporalUnit()) == want[2].unit, "streamed-unit", what.str() << ": " << Hex(ToBytes(stream->GetPreviousSerializedTemporalUnit()), 60) << " instead of " << Hex(want[2].unit, 60));
    auto df = FirstDiff(rec->log, want[3].log);
    V_CHECK(c, df.empty(), "calls", what.str() << ": " << df);
    c.Count("steps");
  }
  if (want[3].calls >= fail && fail) c.Count("injected");
  if (delay) c.Count("delayed");
  file.reset(); none.reset(); stream.reset(); rec.reset();
  if (want[0].exists) V_CHECK(c, Slurp(path) == want[0].file, "file-after", what.str());
  V_CHECK(c, Exists(path) == want[0].exists, "file-after-exists", what.str());
  c.Distinct(HashStr(what.str()));
  if (c.WantSample()) c.Sample(what.str());
}
// No room for the whole file: either an error and no file, or the whole file.
void Full(Ctx& c) {
  Rng& r = c.rng;
  World w;
  if (!MakeWorld(r, w)) { c.Count("no-world"); return; }
  auto leb = LebGenerator::Create();
  bool delimiters = r.Bool();
  Desc d = MakeDesc(r, w);
  d.arbs.clear(); d.header = IASequenceHeaderObu(ObuHeader(), static_cast<ProfileVersion>(w.st.primary), static_cast<ProfileVersion>(w.st.additional));
  if (r.Bool()) { auto p = r.Bytes(r.Range(1, 20000)); d.arbs.push_back(ArbitraryObu(kObuIaReserved25, ObuHeader(), absl::MakeConstSpan(p), A::kInsertionHookAfterIaSequenceHeader)); }
  auto m = Model(d, *leb);
  V_CHECK(c, m.ok, "full-model", "");
  Seq s;
  std::vector<Unit> us;
  for (auto& x : w.units) { Unit u; u.blocks = std::move(x.output_parameter_blocks); u.frames = std::move(x.output_audio_frames); for (auto& f : u.frames) f.obu.header_.num_samples_to_trim_at_start = 0; us.push_back(std::move(u)); }
  std::string path = c.scratch + "/f" + std::to_string(c.index) + ".iamf";
  s.Push(m);
  for (auto& u : us) s.PushUnit(Model(u, delimiters, *leb));
  size_t total = s.file.size(), limit = r.Chance(1, 4) ? total : static_cast<size_t>(r.Below(total + 1));
  signal(SIGXFSZ, SIG_IGN);
  rlimit old; getrlimit(RLIMIT_FSIZE, &old); fflush(nullptr);
  bool ok = true;
  c.Eval();
  {
    ObuSequencerIamf q(path, delimiters, *leb);
    rlimit l = old; l.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &l);
    ok = q.PushDescriptorObus(d.header, d.metadata, *d.codecs, *d.elements, d.mixes, d.arbs).ok();
    for (auto& u : us) { if (!ok) break; auto v = TemporalUnitView::Create(u.blocks, u.frames, u.arbs); ok = q.PushTemporalUnit(*v).ok(); }
    if (ok) ok = r.Bool() ? q.Close().ok() : q.UpdateDescriptorObusAndClose(d.header, d.metadata, *d.codecs, *d.elements, d.mixes, d.arbs).ok();
    setrlimit(RLIMIT_FSIZE, &old);
  }
  std::string what = "room for " + std::to_string(limit) + " of " + std::to_string(total);
  if (limit >= total) V_CHECK(c, ok, "full-refused", what);
  if (ok) { V_CHECK(c, Slurp(path) == s.file, "full-reported-fine", what << ", " << Slurp(path).size() << " written"); c.Count("full-fine"); }
  else { V_CHECK(c, !Exists(path), "full-file-left", what); c.Count("full-reported"); }
  if (limit < total) c.Count("full-short");
  c.Distinct(HashStr(what)); std::error_code e; std::filesystem::remove(path, e);
}
// The encoder with a file sequencer, and with arbitrary OBUs.
void Encode(Ctx& c) {
  Rng& r = c.rng;
  enc::JobOpt o; o.max_chunks = 4; o.max_frame = 48;
  enc::Job j = enc::GenJob(r, o);
  pb::UserMetadata u = enc::Metadata(j);
  auto w = enc::Expect(j);
  if (!w.ok) { c.Count("job-not-ok"); return; }
  c.Eval();
  std::string path = c.scratch + "/e" + std::to_string(c.index) + ".iamf";
  struct Clean { std::string p; ~Clean() { std::error_code e; std::filesystem::remove(p, e); } } clean{path};
  bool delimiters = u.temporal_delimiter_metadata().enable_temporal_delimiters();
  auto leb = CreateLebGenerator(u.test_vector_metadata().leb_generator());
  V_CHECK(c, leb != nullptr, "leb", "");
  auto factory = [&] { std::vector<std::unique_ptr<ObuSequencerBase>> v; v.push_back(std::make_unique<ObuSequencerIamf>(path, delimiters, *leb)); return v; };
  auto e0 = enc::MakeEncoder(u);
  V_CHECK(c, e0.ok(), "create", e0.status());
  auto plain = enc::Run(**e0, j, w.frames);
  V_CHECK(c, plain.status.ok(), "encode", plain.where << " " << plain.status);
  // Arbitrary OBUs: their bytes by where they belong.
  std::map<int, std::vector<Bytes>> desc; std::map<int64_t, std::map<int, std::vector<Bytes>>> at;
  bool bad = false; std::ostringstream what; what << "frames " << w.frames << " of " << j.N() << ":";
  uint32_t n = j.N();
  if (r.Chance(3, 4)) for (int k = static_cast<int>(r.Range(1, 6)); k > 0; --k) {
    auto* m = u.add_arbitrary_obu_metadata();
    int hook = static_cast<int>(r.Below(9));
    auto p = r.Bytes(r.Below(12));
    int type = static_cast<int>(r.Range(25, 30));
    m->set_insertion_hook(static_cast<pb::InsertionHook>(hook + 1));
    m->set_obu_type(static_cast<pb::ArbitraryObuType>(type + 1));
    m->set_payload(std::string(p.begin(), p.end()));
    m->mutable_obu_header()->set_obu_redundant_copy(false);
    Bytes b{static_cast<uint8_t>(type << 3)}; { auto z = LebOf(static_cast<uint32_t>(p.size()), *leb); b.insert(b.end(), z.begin(), z.end()); } b.insert(b.end(), p.begin(), p.end());
    int64_t tick = r.Chance(1, 12) || !w.frames ? (r.Bool() ? static_cast<int64_t>(w.frames) * n : 1 + static_cast<int64_t>(r.Below(n))) : static_cast<int64_t>(r.Below(w.frames)) * n;
    m->set_insertion_tick(tick);
    if (r.Chance(1, 25)) { m->set_invalidates_bitstream(true); bad = true; }
    if (hook >= 6) { at[tick][hook].push_back(b); if (tick % n || tick / n >= w.frames) bad = true; } else desc[hook].push_back(b);
    what << ' ' << hook << '@' << tick;
  }
  // The order of the lists the encoder keeps: by hook, then as given.
  auto e = enc::MakeEncoder(u, factory);
  enc::Encoded got;
  if (e.ok()) got = enc::Run(**e, j, w.frames); else got.status = e.status();
  V_CHECK(c, got.status.ok() == !bad, bad ? "arbitrary-accepted" : "arbitrary-refused", what.str() << ": " << got.where << " " << got.status);
  if (bad) {
    if (e.ok()) e->reset();
    c.Count("encoder-refused"); return;
  }
  auto add = [](Bytes& a, const std::vector<Bytes>& b) { for (auto& x : b) a.insert(a.end(), x.begin(), x.end()); };
  auto splice = [&](const Bytes& d) {
    Bytes out; std::vector<enc::Cut> cuts; enc::Split(d, cuts);
    add(out, desc[0]);
    int stage = -1;  // 0 header, 1 codec, 2 element, 3 mix
    auto leave = [&](int to) { static const int hooks[] = {2, 3, 4, 5}; for (int s = std::max(stage, 0); s < to; ++s) add(out, desc[hooks[s]]); stage = to; };
    for (auto& k : cuts) {
      int t = k.type, s = t == 31 ? 0 : t == 0 || t == 24 ? 1 : t == 1 ? 2 : 3;
      if (s > stage) leave(s);
      out.insert(out.end(), k.whole.begin(), k.whole.end());
    }
    leave(4); add(out, desc[1]);
    return out;
  };
  V_CHECK(c, got.descriptors == splice(plain.descriptors), "encoder-descriptors", what.str() << ": " << Hex(got.descriptors, 200) << " instead of " << Hex(splice(plain.descriptors), 200));
  V_CHECK(c, got.tus.size() == plain.tus.size(), "encoder-units", what.str() << ": " << got.tus.size());
  Bytes all = got.descriptors;
  for (size_t k = 0; k < got.tus.size(); ++k) {
    Bytes out; std::vector<enc::Cut> cuts; enc::Split(plain.tus[k], cuts); auto& h = at[static_cast<int64_t>(k) * n];
    size_t i = 0;
    auto take = [&](auto f) { for (; i < cuts.size() && f(cuts[i].type); ++i) out.insert(out.end(), cuts[i].whole.begin(), cuts[i].whole.end()); };
    take([](int t) { return t == 4; }); add(out, h[6]); take([](int t) { return t == 3; }); add(out, h[7]); take([](int) { return true; }); add(out, h[8]);
    V_CHECK(c, got.tus[k] == out, "encoder-unit", what.str() << " unit " << k << ": " << Hex(got.tus[k], 200) << " instead of " << Hex(out, 200));
    all.insert(all.end(), out.begin(), out.end());
    c.Count("encoder-units"); for (auto& [q, v] : h) c.Count("encoder-arbitrary", static_cast<int64_t>(v.size()));
  }
  e->reset();
  V_CHECK(c, Slurp(path) == all, "encoder-file", what.str() << ": " << Slurp(path).size() << " bytes instead of " << all.size());
  c.Count("encoder-files"); c.Distinct(HashStr(what.str() + std::to_string(all.size())));
}
}  // namespace
V_MAIN({{"history", 6000, 60000, History}, {"full", 800, 8000, Full}, {"encode", 1500, 15000, Encode}})
