// C27: metadata and audio the encoder cannot honour are refused; whatever it accepts it writes as said and the
// library reads back.
#include <google/protobuf/descriptor.h>
#include <google/protobuf/message.h>
#include "harness/alloc.h"
#include "harness/encwork.h"
#include "absl/log/globals.h"
#include "iamf/cli/obu_processor.h"
#include "iamf/common/read_bit_buffer.h"
using namespace vlib;
using ref::Bytes;
namespace gp = google::protobuf;
namespace pb = iamf_tools_cli_proto;
namespace {

struct Slot { gp::Message* m; const gp::FieldDescriptor* f; int index; };  // index -1: not repeated
void Leaves(gp::Message* m, std::vector<Slot>& out, bool unset) {
  const auto* d = m->GetDescriptor(); const auto* r = m->GetReflection();
  for (int i = 0; i < d->field_count(); ++i) {
    const auto* f = d->field(i);
    bool msg = f->cpp_type() == gp::FieldDescriptor::CPPTYPE_MESSAGE;
    if (f->is_repeated()) {
      int n = r->FieldSize(*m, f);
      for (int k = 0; k < n; ++k) { if (msg) Leaves(r->MutableRepeatedMessage(m, f, k), out, unset); else out.push_back({m, f, k}); }
    } else if (msg) { if (r->HasField(*m, f)) Leaves(r->MutableMessage(m, f), out, unset); }
    else if (unset || r->HasField(*m, f)) out.push_back({m, f, -1});
  }
}
void Messages(gp::Message* m, std::vector<gp::Message*>& out) {
  out.push_back(m);
  std::vector<const gp::FieldDescriptor*> fs;
  const auto* r = m->GetReflection();
  r->ListFields(*m, &fs);
  for (auto* f : fs) if (f->cpp_type() == gp::FieldDescriptor::CPPTYPE_MESSAGE) {
    if (f->is_repeated()) for (int k = 0; k < r->FieldSize(*m, f); ++k) Messages(r->MutableRepeatedMessage(m, f, k), out);
    else Messages(r->MutableMessage(m, f), out);
  }
}
void SetInt(Slot& s, int64_t v) {
  const auto* r = s.m->GetReflection();
  bool rep = s.index >= 0;
  switch (s.f->cpp_type()) {
    case gp::FieldDescriptor::CPPTYPE_INT32: rep ? r->SetRepeatedInt32(s.m, s.f, s.index, static_cast<int32_t>(v)) : r->SetInt32(s.m, s.f, static_cast<int32_t>(v)); break;
    case gp::FieldDescriptor::CPPTYPE_UINT32: rep ? r->SetRepeatedUInt32(s.m, s.f, s.index, static_cast<uint32_t>(v)) : r->SetUInt32(s.m, s.f, static_cast<uint32_t>(v)); break;
    case gp::FieldDescriptor::CPPTYPE_INT64: rep ? r->SetRepeatedInt64(s.m, s.f, s.index, v) : r->SetInt64(s.m, s.f, v); break;
    case gp::FieldDescriptor::CPPTYPE_UINT64: rep ? r->SetRepeatedUInt64(s.m, s.f, s.index, static_cast<uint64_t>(v)) : r->SetUInt64(s.m, s.f, static_cast<uint64_t>(v)); break;
    case gp::FieldDescriptor::CPPTYPE_ENUM: rep ? r->SetRepeatedEnumValue(s.m, s.f, s.index, static_cast<int>(v)) : r->SetEnumValue(s.m, s.f, static_cast<int>(v)); break;
    case gp::FieldDescriptor::CPPTYPE_BOOL: rep ? r->SetRepeatedBool(s.m, s.f, s.index, v & 1) : r->SetBool(s.m, s.f, v & 1); break;
    case gp::FieldDescriptor::CPPTYPE_FLOAT: rep ? r->SetRepeatedFloat(s.m, s.f, s.index, static_cast<float>(v)) : r->SetFloat(s.m, s.f, static_cast<float>(v)); break;
    case gp::FieldDescriptor::CPPTYPE_DOUBLE: rep ? r->SetRepeatedDouble(s.m, s.f, s.index, static_cast<double>(v)) : r->SetDouble(s.m, s.f, static_cast<double>(v)); break;
    default: break;
  }
}
int64_t GetInt(const Slot& s) {
  const auto* r = s.m->GetReflection();
  bool rep = s.index >= 0;
  switch (s.f->cpp_type()) {
    case gp::FieldDescriptor::CPPTYPE_INT32: return rep ? r->GetRepeatedInt32(*s.m, s.f, s.index) : r->GetInt32(*s.m, s.f);
    case gp::FieldDescriptor::CPPTYPE_UINT32: return rep ? r->GetRepeatedUInt32(*s.m, s.f, s.index) : r->GetUInt32(*s.m, s.f);
    case gp::FieldDescriptor::CPPTYPE_INT64: return rep ? r->GetRepeatedInt64(*s.m, s.f, s.index) : r->GetInt64(*s.m, s.f);
    case gp::FieldDescriptor::CPPTYPE_UINT64: return static_cast<int64_t>(rep ? r->GetRepeatedUInt64(*s.m, s.f, s.index) : r->GetUInt64(*s.m, s.f));
    case gp::FieldDescriptor::CPPTYPE_ENUM: return rep ? r->GetRepeatedEnumValue(*s.m, s.f, s.index) : r->GetEnumValue(*s.m, s.f);
    case gp::FieldDescriptor::CPPTYPE_BOOL: return rep ? r->GetRepeatedBool(*s.m, s.f, s.index) : r->GetBool(*s.m, s.f);
    default: return 0;
  }
}
std::string Name(const Slot& s) { std::string n(s.f->full_name()); auto p = n.find('.'); return n.substr(p + 1); }

// The encoder's input, as protos.
struct Input {
  pb::UserMetadata u;
  std::vector<std::vector<pb::ParameterBlockObuMetadata>> blocks;  // by chunk
};
Input Build(const enc::Job& j) {
  Input in; in.u = enc::Metadata(j);
  in.u.mutable_test_vector_metadata()->set_file_name_prefix("");
  for (size_t k = 0; k < j.blocks.size(); ++k) {
    in.blocks.emplace_back();
    for (auto& b : j.blocks[k]) { pb::ParameterBlockObuMetadata m; enc::ToBlock(b, static_cast<int64_t>(k) * j.N(), m); in.blocks.back().push_back(m); }
  }
  return in;
}
// What the jobs of the encoder's own check do not carry: positions in rendering configs and metadata OBUs.
void Decorate(Rng& r, Input& in, const enc::Job& j) {
  uint32_t id = 1000;
  for (auto& m : *in.u.mutable_mix_presentation_metadata()) for (auto& s : *m.mutable_sub_mixes()) for (auto& a : *s.mutable_audio_elements()) {
    int n = r.Chance(1, 2) ? 0 : static_cast<int>(r.Range(1, 3));
    for (int q = 0; q < n; ++q) {
      auto* d = a.mutable_rendering_config()->add_rendering_config_param_definitions();
      auto base = [&](pb::ParamDefinition* p) { p->set_parameter_id(id++); p->set_parameter_rate(j.st.codec.lpcm.rate); p->set_param_definition_mode(true); p->set_reserved(0); };
      auto s8 = [&] { return static_cast<int32_t>(r.Range(-128, 127)); };
      auto s16 = [&] { return static_cast<int32_t>(ref::GenS16(r)); };
      auto az = [&] { return static_cast<int32_t>(r.Range(-180, 180)); };
      auto el = [&] { return static_cast<int32_t>(r.Range(-90, 90)); };
      auto di = [&] { return static_cast<int32_t>(r.Range(0, 127)); };
      int k = static_cast<int>(r.Below(6));
      d->set_param_definition_type(static_cast<pb::ParamDefinitionType>(pb::PARAM_DEFINITION_TYPE_POLAR + k));
      switch (k) {
        case 0: { auto* x = d->mutable_polar_param_definition(); base(x->mutable_param_definition()); x->set_default_azimuth(az()); x->set_default_elevation(el()); x->set_default_distance(di()); break; }
        case 1: { auto* x = d->mutable_cart8_param_definition(); base(x->mutable_param_definition()); x->set_default_x(s8()); x->set_default_y(s8()); x->set_default_z(s8()); break; }
        case 2: { auto* x = d->mutable_cart16_param_definition(); base(x->mutable_param_definition()); x->set_default_x(s16()); x->set_default_y(s16()); x->set_default_z(s16()); break; }
        case 3: { auto* x = d->mutable_dual_polar_param_definition(); base(x->mutable_param_definition()); x->set_default_first_azimuth(az()); x->set_default_first_elevation(el()); x->set_default_first_distance(di()); x->set_default_second_azimuth(az()); x->set_default_second_elevation(el()); x->set_default_second_distance(di()); break; }
        case 4: { auto* x = d->mutable_dual_cart8_param_definition(); base(x->mutable_param_definition()); x->set_default_first_x(s8()); x->set_default_first_y(s8()); x->set_default_first_z(s8()); x->set_default_second_x(s8()); x->set_default_second_y(s8()); x->set_default_second_z(s8()); break; }
        default: { auto* x = d->mutable_dual_cart16_param_definition(); base(x->mutable_param_definition()); x->set_default_first_x(s16()); x->set_default_first_y(s16()); x->set_default_first_z(s16()); x->set_default_second_x(s16()); x->set_default_second_y(s16()); x->set_default_second_z(s16()); break; }
      }
    }
  }
  if (r.Chance(1, 3)) {
    int n = static_cast<int>(r.Range(1, 2));
    for (int q = 0; q < n; ++q) {
      auto* m = in.u.add_metadata_obu_metadata();
      if (r.Bool()) { auto* t = m->mutable_metadata_itu_t_t35(); int code = r.Bool() ? 255 : static_cast<int>(r.Below(255)); t->set_itu_t_t35_country_code(code); if (code == 255) t->set_itu_t_t35_country_code_extension_byte(r.U8()); auto b = r.Bytes(r.Below(9)); t->set_itu_t_t35_payload_bytes(std::string(b.begin(), b.end())); }
      else { auto* t = m->mutable_metadata_iamf_tags(); int k = static_cast<int>(r.Below(3)); for (int i = 0; i < k; ++i) { auto* x = t->add_tags(); x->set_name("n" + std::to_string(i)); x->set_value(Hex(r.Bytes(r.Below(4)), 8)); } }
    }
  }
}
struct Misuse { bool any = false; int short_frame = -1, drop_label = -1, extra_label = -1, bad_key = -1, bad_block = -1, late = 0; };
struct Out { absl::Status status; std::string where; Bytes descriptors; std::vector<Bytes> tus; };
Out Drive(const Input& in, const enc::Job& j, const Misuse& mis, Rng& r) {
  Out o;
  auto fail = [&](const absl::Status& s, const char* w) { o.status = s; o.where = w; return o; };
  auto e = enc::MakeEncoder(in.u);
  if (!e.ok()) return fail(e.status(), "Create");
  auto& x = **e;
  Bytes first; bool fin = false;
  auto s = x.GetDescriptorObus(false, first, fin);
  if (!s.ok()) return fail(s, "GetDescriptorObus");
  const uint32_t N = j.N(), chunks = (j.S + N - 1) / N;
  if (chunks == 0) { s = x.FinalizeEncode(); if (!s.ok()) return fail(s, "FinalizeEncode"); }
  for (uint32_t k = 0; x.GeneratingTemporalUnits(); ++k) {
    if (k > 20 * (chunks + 20)) { o.where = "loop"; o.status = absl::InternalError("encoder keeps generating units"); return o; }
    iamf_tools::api::IamfTemporalUnitData d;
    if (k < in.blocks.size()) for (auto& b : in.blocks[k]) d.parameter_block_id_to_metadata[b.parameter_id()] = b.SerializeAsString();
    if (mis.bad_block == static_cast<int>(k)) d.parameter_block_id_to_metadata[r.Chance(1, 2) || in.blocks.empty() || in.blocks[0].empty() ? static_cast<uint32_t>(r.Below(100)) : in.blocks[0][0].parameter_id()] = r.Bool() ? std::string("\x0a\xff garbage") : std::string();
    std::vector<std::vector<double>> keep; keep.reserve(64);
    if (k < chunks) for (size_t i = 0; i < j.st.elems.size(); ++i) {
      int at = 0;
      for (auto& [l, v] : j.in[i]) {
        bool hit = at++ == 0 && i == 0;
        if (hit && mis.drop_label == static_cast<int>(k)) continue;
        pb::ChannelLabelMessage m; m.set_channel_label(enc::ProtoLabel(l));
        size_t n = std::min<size_t>(N, j.S - size_t{k} * N);
        absl::Span<const double> sp = absl::MakeConstSpan(v).subspan(size_t{k} * N, n);
        if (hit && mis.short_frame == static_cast<int>(k)) { keep.emplace_back(r.Bool() ? n / 2 : n + 1 + r.Below(3 * N), 0.25); sp = absl::MakeConstSpan(keep.back()); }
        auto& dst = d.audio_element_id_to_data[j.st.elems[i].e.id];
        dst[m.SerializeAsString()] = sp;
        if (hit && mis.extra_label == static_cast<int>(k)) { pb::ChannelLabelMessage q; int l; do l = static_cast<int>(r.Below(140)); while (!pb::ChannelLabel_IsValid(l)); q.set_channel_label(static_cast<pb::ChannelLabel>(l)); dst[q.SerializeAsString()] = sp; }
        if (hit && mis.bad_key == static_cast<int>(k)) dst[r.Bool() ? std::string("\x08\xff\xff garbage") : std::string("")] = sp;
      }
    }
    s = x.Encode(d);
    if (!s.ok()) return fail(s, "Encode");
    if (k + 1 == chunks) {
      s = x.FinalizeEncode(); if (!s.ok()) return fail(s, "FinalizeEncode");
      if (mis.late & 1) { auto again = x.FinalizeEncode(); (void)again; }
      if (mis.late & 2) { auto again = x.Encode(d); if (again.ok()) { /* accepted: it must have added nothing */ } }
    }
    Bytes tu;
    s = x.OutputTemporalUnit(tu);
    if (!s.ok()) return fail(s, "OutputTemporalUnit");
    if (!tu.empty()) o.tus.push_back(tu);
  }
  if (mis.late & 4) { Bytes tu; (void)x.OutputTemporalUnit(tu); }
  s = x.GetDescriptorObus(false, o.descriptors, fin);
  if (!s.ok()) return fail(s, "GetDescriptorObus");
  return o;
}
struct Back { bool ok = false; std::string err; size_t units = 0, frames = 0, blocks = 0; };
Back ReadBack(const Out& o) {
  Back b;
  Bytes all = o.descriptors;
  for (auto& t : o.tus) all.insert(all.end(), t.begin(), t.end());
  auto rb = iamf_tools::MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(all));
  bool insufficient = false;
  auto p = iamf_tools::ObuProcessor::Create(o.tus.empty(), rb.get(), insufficient);
  if (!p) { b.err = insufficient ? "descriptors incomplete" : "descriptors refused"; return b; }
  bool go = !o.tus.empty();
  while (go) {
    std::optional<iamf_tools::ObuProcessor::OutputTemporalUnit> u;
    auto s = p->ProcessTemporalUnit(true, u, go);
    if (!s.ok()) { b.err = s.ToString(); return b; }
    if (u) { ++b.units; b.frames += u->output_audio_frames.size(); b.blocks += u->output_parameter_blocks.size(); }
  }
  b.ok = true;
  return b;
}
std::string Short(const Input& in) { auto s = in.u.ShortDebugString(); return s.size() > 1500 ? s.substr(0, 1500) + "..." : s; }
std::map<int, size_t> CountTypes(const Bytes& b, bool* bad = nullptr) {
  std::vector<enc::Cut> cuts; std::map<int, size_t> n;
  if (!enc::Split(b, cuts) && bad) *bad = true;
  for (auto& c : cuts) ++n[c.type >= 5 && c.type <= 23 ? 5 : c.type];
  return n;
}

enc::JobOpt Small() { enc::JobOpt o; o.max_frame = 12; o.max_chunks = 4; return o; }

// After a success: the library reads back every unit, frame and parameter block.
bool CheckBack(Ctx& c, const Out& o, const std::string& text) {
  auto b = ReadBack(o);
  V_CHECK_R(c, b.ok, "unreadable", b.err + " " + text, false);
  size_t frames = 0, blocks = 0, units = 0;
  if (getenv("VDUMP")) for (auto& t : o.tus) { std::vector<enc::Cut> cuts; enc::Split(t, cuts); for (auto& q : cuts) fprintf(stderr, "type %d trim %u/%u %s\n", q.type, q.ts, q.te, Hex(q.payload, 12).c_str()); fprintf(stderr, "--\n"); }
  for (auto& t : o.tus) {
    bool bad = false; auto n = CountTypes(t, &bad);
    V_CHECK_R(c, !bad, "unit-syntax", Hex(t, 200) + " " + text, false);
    frames += n[5]; blocks += n[3]; units += n[5] > 0;
  }
  V_CHECK_R(c, b.units == units && b.frames == frames && b.blocks == blocks, "read-back-counts", std::to_string(b.units) + " units " + std::to_string(b.frames) + " frames " + std::to_string(b.blocks) + " blocks of " + std::to_string(units) + "/" + std::to_string(frames) + "/" + std::to_string(blocks) + " " + text, false);
  c.Count("read-back-units", units);
  return true;
}

// ---- any mutation ----
int64_t Odd(Rng& r) {
  return r.Chance(1, 2) ? r.Pick<int64_t>({0, 1, 2, 3, -1, 7, 8, 12, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 1024, 32767, 32768, -32768, -32769, 65535, 65536, 0x7fffffff, -0x80000000ll, 0xffffffffll, 0x80000000ll}) : r.Chance(1, 2) ? r.Range(0, 40) : static_cast<int64_t>(r.Edge32());
}
std::string MutateOne(Rng& r, gp::Message* root) {
  for (int tries = 0; tries < 8; ++tries) {
    if (r.Chance(3, 5)) {
      std::vector<Slot> v; Leaves(root, v, r.Chance(1, 4));
      if (v.empty()) continue;
      auto& s = v[r.Below(v.size())];
      const auto* rf = s.m->GetReflection();
      if (s.f->cpp_type() == gp::FieldDescriptor::CPPTYPE_STRING) {
        std::string x = r.Chance(1, 4) ? std::string() : r.Chance(1, 4) ? std::string(static_cast<size_t>(r.Pick<int>({127, 128, 129, 300, 5000})), 'x') : Hex(r.Bytes(r.Below(6)), 20);
        if (r.Chance(1, 5) && s.f->type() == gp::FieldDescriptor::TYPE_BYTES) { auto b = r.Bytes(r.Below(20)); x = std::string(b.begin(), b.end()); }
        if (r.Chance(1, 8)) x += std::string(1, '\0') + "y";
        if (s.index >= 0) rf->SetRepeatedString(s.m, s.f, s.index, x); else rf->SetString(s.m, s.f, x);
        return Name(s) + "=str" + std::to_string(x.size());
      }
      int64_t v2 = r.Chance(1, 3) ? GetInt(s) + r.Pick<int64_t>({1, -1, 2, 256}) : Odd(r);
      SetInt(s, v2);
      return Name(s) + "=" + std::to_string(v2);
    }
    std::vector<gp::Message*> ms; Messages(root, ms);
    auto* m = ms[r.Below(ms.size())];
    const auto* rf = m->GetReflection(); const auto* d = m->GetDescriptor();
    if (d->field_count() == 0) continue;
    std::vector<const gp::FieldDescriptor*> fs; rf->ListFields(*m, &fs);
    switch (r.Below(4)) {
      case 0: { if (fs.empty()) continue; auto* f = fs[r.Below(fs.size())]; rf->ClearField(m, f); return "clear " + std::string(f->full_name()); }
      case 1: {  // repeat or drop an entry
        std::vector<const gp::FieldDescriptor*> rep; for (auto* f : fs) if (f->is_repeated()) rep.push_back(f);
        if (rep.empty()) continue;
        auto* f = rep[r.Below(rep.size())]; int n = rf->FieldSize(*m, f);
        if (r.Bool()) { rf->RemoveLast(m, f); return "drop last " + std::string(f->full_name()); }
        if (f->cpp_type() == gp::FieldDescriptor::CPPTYPE_MESSAGE) {
          if (f->is_map()) continue;
          std::unique_ptr<gp::Message> copy(rf->GetRepeatedMessage(*m, f, static_cast<int>(r.Below(n))).New());
          copy->CopyFrom(rf->GetRepeatedMessage(*m, f, static_cast<int>(r.Below(n))));
          rf->AddMessage(m, f)->CopyFrom(*copy);
        } else if (f->cpp_type() == gp::FieldDescriptor::CPPTYPE_UINT32) rf->AddUInt32(m, f, static_cast<uint32_t>(Odd(r)));
        else if (f->cpp_type() == gp::FieldDescriptor::CPPTYPE_INT32) rf->AddInt32(m, f, static_cast<int32_t>(Odd(r)));
        else continue;
        return "repeat " + std::string(f->full_name());
      }
      case 2: {  // an unset sub-message
        auto* f = d->field(static_cast<int>(r.Below(d->field_count())));
        if (f->cpp_type() != gp::FieldDescriptor::CPPTYPE_MESSAGE || f->is_map()) continue;
        if (std::string(f->full_name()).find("arbitrary") != std::string::npos || std::string(f->full_name()).find("metadata_obu") != std::string::npos) continue;
        if (f->is_repeated()) rf->AddMessage(m, f); else rf->MutableMessage(m, f);
        return "add " + std::string(f->full_name());
      }
      default: {  // copy a message of the same type over another
        std::vector<gp::Message*> same; for (auto* q : ms) if (q != m && q->GetDescriptor() == d) same.push_back(q);
        if (same.empty()) continue;
        std::unique_ptr<gp::Message> copy(m->New()); copy->CopyFrom(*same[r.Below(same.size())]); m->CopyFrom(*copy);
        return "copy " + std::string(d->full_name());
      }
    }
  }
  return "nothing";
}
bool Usable(const Input& in) {
  // What makes the frames huge is not hostile, only slow; arbitrary OBUs may say anything.
  for (auto& c : in.u.codec_config_metadata()) if (c.codec_config().num_samples_per_frame() > 20000) return false;
  return in.u.arbitrary_obu_metadata_size() == 0;
}
void Mutate(Ctx& c) {
  Rng& r = c.rng;
  auto opt = Small();
  if (r.Chance(1, 12)) opt.lossy_scalable = true;
  auto j = enc::GenJob(r, opt);
  auto in = Build(j);
  if (r.Chance(1, 3)) Decorate(r, in, j);
  std::string what;
  int n = static_cast<int>(r.Chance(2, 3) ? 1 : r.Range(1, 4));
  size_t blocks = 0; for (auto& b : in.blocks) blocks += b.size();
  for (int i = 0; i < n; ++i) {
    if (blocks && r.Chance(1, 3)) {
      size_t k; do k = r.Below(in.blocks.size()); while (in.blocks[k].empty());
      what += MutateOne(r, &in.blocks[k][r.Below(in.blocks[k].size())]) + "; ";
    } else {
      gp::Message* root = &in.u;
      // Even weight to the sections.
      const auto* rf = in.u.GetReflection(); std::vector<const gp::FieldDescriptor*> fs; rf->ListFields(in.u, &fs);
      auto* f = fs[r.Below(fs.size())];
      if (r.Chance(4, 5)) root = f->is_repeated() ? rf->MutableRepeatedMessage(&in.u, f, static_cast<int>(r.Below(rf->FieldSize(in.u, f)))) : rf->MutableMessage(&in.u, f);
      what += MutateOne(r, root) + "; ";
    }
  }
  Misuse mis;
  if (r.Chance(1, 6)) {
    mis.any = true; int k = static_cast<int>(r.Below(4));
    switch (r.Below(6)) { case 0: mis.short_frame = k; break; case 1: mis.drop_label = k; break; case 2: mis.extra_label = k; break; case 3: mis.bad_key = k; break; case 4: mis.bad_block = k; break; default: mis.late = static_cast<int>(r.Range(1, 7)); break; }
    what += "misuse";
  }
  if (!Usable(in)) { c.Count("unusable"); return; }
  c.Eval();
  AllocWatch::Reset();
  auto text = [&] { return "mutation {" + what + "} " + Short(in); };
  if (getenv("VDUMP")) fprintf(stderr, "%s\n", text().c_str());
  auto o = Drive(in, j, mis, r);
  c.Distinct(HashStr(what));
  V_CHECK(c, AllocWatch::Largest() < (size_t{300} << 20), "allocation", std::to_string(AllocWatch::Largest()) + " bytes at once " + text());
  V_CHECK(c, o.where != "loop", "endless", text());
  if (!o.status.ok()) { c.Count("refused-" + o.where); return; }
  c.Count("accepted");
  if (!CheckBack(c, o, text())) return;
  if (c.WantSample()) c.Sample(text().substr(0, 300));
}

// ---- one value that does not fit its field ----
struct Width { const char* field; int64_t lo, hi; };
const Width kWidths[] = {
    {"AnimationStepInt16.start_point_value", -32768, 32767},
    {"AnimationLinearInt16.start_point_value", -32768, 32767},
    {"AnimationLinearInt16.end_point_value", -32768, 32767},
    {"AnimationBezierInt16.start_point_value", -32768, 32767},
    {"AnimationBezierInt16.end_point_value", -32768, 32767},
    {"AnimationBezierInt16.control_point_value", -32768, 32767},
    {"AnimationBezierInt16.control_point_relative_time", 0, 255},
    {"MixGainParamDefinition.default_mix_gain", -32768, 32767},
    {"PolarParamDefinition.default_azimuth", -32768, 32767},
    {"PolarParamDefinition.default_elevation", -128, 127},
    {"PolarParamDefinition.default_distance", 0, 127},
    {"Cart8ParamDefinition.default_x", -128, 127}, {"Cart8ParamDefinition.default_y", -128, 127}, {"Cart8ParamDefinition.default_z", -128, 127},
    {"Cart16ParamDefinition.default_x", -32768, 32767}, {"Cart16ParamDefinition.default_y", -32768, 32767}, {"Cart16ParamDefinition.default_z", -32768, 32767},
    {"DualPolarParamDefinition.default_first_azimuth", -32768, 32767}, {"DualPolarParamDefinition.default_second_azimuth", -32768, 32767},
    {"DualPolarParamDefinition.default_first_elevation", -128, 127}, {"DualPolarParamDefinition.default_second_elevation", -128, 127},
    {"DualPolarParamDefinition.default_first_distance", 0, 127}, {"DualPolarParamDefinition.default_second_distance", 0, 127},
    {"DualCart8ParamDefinition.default_first_x", -128, 127}, {"DualCart8ParamDefinition.default_first_y", -128, 127}, {"DualCart8ParamDefinition.default_first_z", -128, 127},
    {"DualCart8ParamDefinition.default_second_x", -128, 127}, {"DualCart8ParamDefinition.default_second_y", -128, 127}, {"DualCart8ParamDefinition.default_second_z", -128, 127},
    {"DualCart16ParamDefinition.default_first_x", -32768, 32767}, {"DualCart16ParamDefinition.default_first_y", -32768, 32767}, {"DualCart16ParamDefinition.default_first_z", -32768, 32767},
    {"DualCart16ParamDefinition.default_second_x", -32768, 32767}, {"DualCart16ParamDefinition.default_second_y", -32768, 32767}, {"DualCart16ParamDefinition.default_second_z", -32768, 32767},
    {"LoudnessInfo.integrated_loudness", -32768, 32767}, {"LoudnessInfo.digital_peak", -32768, 32767}, {"LoudnessInfo.true_peak", -32768, 32767},
    {"CodecConfig.audio_roll_distance", -32768, 32767},
    {"LpcmDecoderConfig.sample_size", 0, 255},
    {"OpusDecoderConfig.version", 0, 255}, {"OpusDecoderConfig.pre_skip", 0, 65535}, {"OpusDecoderConfig.output_gain", -32768, 32767}, {"OpusDecoderConfig.output_channel_count", 0, 255},
    {"AudioElementObuMetadata.reserved", 0, 31},
    {"ChannelAudioLayerConfig.reserved_a", 0, 3}, {"ChannelAudioLayerConfig.reserved_b", 0, 3}, {"ChannelAudioLayerConfig.output_gain_flag", 0, 63}, {"ChannelAudioLayerConfig.output_gain", -32768, 32767},
    {"ChannelAudioLayerConfig.substream_count", 0, 255}, {"ChannelAudioLayerConfig.coupled_substream_count", 0, 255},
    {"AmbisonicsMonoConfig.output_channel_count", 0, 255}, {"AmbisonicsMonoConfig.substream_count", 0, 255}, {"AmbisonicsMonoConfig.channel_mapping", 0, 255},
    {"AmbisonicsProjectionConfig.output_channel_count", 0, 255}, {"AmbisonicsProjectionConfig.substream_count", 0, 255}, {"AmbisonicsProjectionConfig.coupled_substream_count", 0, 255}, {"AmbisonicsProjectionConfig.demixing_matrix", -32768, 32767},
    {"DemixingInfoParameterData.reserved", 0, 31}, {"DemixingParamDefinition.default_w", 0, 15}, {"DemixingParamDefinition.reserved", 0, 15},
    {"ParamDefinition.reserved", 0, 127},
    {"ObjectsConfig.num_objects", 0, 255}, {"AnchorElement.anchored_loudness", -32768, 32767},
    {"MetadataITUTT35.itu_t_t35_country_code", 0, 255}, {"MetadataITUTT35.itu_t_t35_country_code_extension_byte", 0, 255},
    {"RenderingConfig.reserved", 0, 255},
    {"ReconGains.ReconGainEntry.key", 0, 11}, {"ReconGains.ReconGainEntry.value", 0, 255},
};
void Widths(Ctx& c) {
  Rng& r = c.rng;
  auto opt = Small(); opt.bad_trims = false;
  if (r.Bool()) opt.scalable_only = true;
  if (r.Chance(1, 8)) opt.lossy_scalable = true;
  auto j = enc::GenJob(r, opt);
  auto in = Build(j);
  Decorate(r, in, j);
  static const auto* table = [] { auto* m = new std::map<std::string, Width>; for (auto& w : kWidths) m->emplace(w.field, w); return m; }();
  static const bool known = [] {
    std::set<std::string> all;
    std::vector<const gp::Descriptor*> q{pb::UserMetadata::descriptor()}; std::set<const gp::Descriptor*> seen;
    while (!q.empty()) { auto* d = q.back(); q.pop_back(); if (!seen.insert(d).second) continue; for (int i = 0; i < d->field_count(); ++i) { std::string n(d->field(i)->full_name()); all.insert(n.substr(n.find('.') + 1)); if (d->field(i)->message_type()) q.push_back(d->field(i)->message_type()); } }
    for (auto& w : kWidths) if (!all.count(w.field)) HarnessBug(std::string("no field ") + w.field);
    return true;
  }();
  (void)known;
  // Every slot the table knows, grouped by field for even weight.
  std::map<std::string, std::vector<std::pair<Slot, int>>> by;
  auto add = [&](gp::Message* m, int where) { std::vector<Slot> v; Leaves(m, v, true); for (auto& s : v) if (table->count(Name(s))) by[Name(s)].push_back({s, where}); };
  add(&in.u, -1);
  for (size_t k = 0; k < in.blocks.size(); ++k) for (auto& b : in.blocks[k]) add(&b, static_cast<int>(k));
  // Only what is in force goes into the bitstream.
  auto inert = [](const std::pair<Slot, int>& x) {
    auto n = Name(x.first);
    if (n == "LoudnessInfo.true_peak") { for (auto m : static_cast<pb::LoudnessInfo*>(x.first.m)->info_type_bit_masks()) if (m == pb::LOUDNESS_INFO_TYPE_TRUE_PEAK) return false; return true; }
    if (n == "ChannelAudioLayerConfig.output_gain" || n == "ChannelAudioLayerConfig.output_gain_flag" || n == "ChannelAudioLayerConfig.reserved_b") return !static_cast<pb::ChannelAudioLayerConfig*>(x.first.m)->output_gain_is_present_flag();
    if (n == "MetadataITUTT35.itu_t_t35_country_code_extension_byte") return static_cast<pb::MetadataITUTT35*>(x.first.m)->itu_t_t35_country_code() != 255;
    return false;
  };
  for (auto it = by.begin(); it != by.end();) { std::erase_if(it->second, inert); if (it->second.empty()) it = by.erase(it); else ++it; }
  // Recon gains live in a map, which reflection gives no setters for: mutate through the map itself.
  std::vector<std::pair<pb::ReconGains*, int>> gains;
  for (size_t k = 0; k < in.blocks.size(); ++k) for (auto& b : in.blocks[k]) for (auto& s : *b.mutable_subblocks()) if (s.has_recon_gain_info_parameter_data()) for (auto& g : *s.mutable_recon_gain_info_parameter_data()->mutable_recon_gains_for_layer()) if (!g.recon_gain().empty()) gains.push_back({&g, static_cast<int>(k)});
  by.erase("ReconGains.ReconGainEntry.key"); by.erase("ReconGains.ReconGainEntry.value");
  std::string field; int64_t v = 0;
  if (!gains.empty() && r.Chance(1, 6)) {
    auto& g = *gains[r.Below(gains.size())].first->mutable_recon_gain();
    if (r.Bool()) { field = "ReconGains.ReconGainEntry.key"; v = r.Pick<int64_t>({12, 13, 31, 32, 33, 63, 64, 0x7fffffff, 0xffffffffll}); g[static_cast<uint32_t>(v)] = 5; }
    else { field = "ReconGains.ReconGainEntry.value"; v = r.Pick<int64_t>({256, 257, 511, 65536, 0xffffffffll}); g.begin()->second = static_cast<uint32_t>(v); }
  } else {
    if (by.empty()) return;
    auto it = by.begin(); std::advance(it, r.Below(by.size()));
    field = it->first;
    auto& s = it->second[r.Below(it->second.size())].first;
    const Width& w = table->at(field);
    bool sgn = s.f->cpp_type() == gp::FieldDescriptor::CPPTYPE_INT32;
    // Beyond the field by one, by a power of two that comes back to the same low bits, or at the type's end.
    int64_t old = GetInt(s);
    switch (r.Below(5)) {
      case 0: v = w.hi + 1; break;
      case 1: v = w.lo - 1; break;
      case 2: v = old + r.Pick<int64_t>({256, 65536, 1 << 20, -256, -65536}); break;
      case 3: v = sgn ? 0x7fffffff : 0xffffffffll; break;
      default: v = sgn ? -0x80000000ll : 0x80000000ll; break;
    }
    if (!sgn && v < 0) v = w.hi + 1 + static_cast<int64_t>(r.Below(1000));
    if (v >= w.lo && v <= w.hi) v = w.hi + 1;
    SetInt(s, v);
  }
  c.Eval();
  auto o = Drive(in, j, Misuse{}, r);
  V_CHECK(c, !o.status.ok(), "truncated:" + field, field + "=" + std::to_string(v) + " was accepted: " + Short(in));
  c.Count("width-" + field);
  c.Distinct(HashStr(field + std::to_string(v)));
  if (c.WantSample()) c.Sample(field + "=" + std::to_string(v) + " refused by " + o.where);
}

// ---- the same input unmodified, as a control: it has to be accepted as C26 says ----
void Control(Ctx& c) {
  Rng& r = c.rng;
  auto opt = Small(); opt.bad_trims = false;
  if (r.Chance(1, 12)) opt.lossy_scalable = true;
  auto j = enc::GenJob(r, opt);
  auto want = enc::Expect(j);
  auto in = Build(j);
  Decorate(r, in, j);
  c.Eval();
  auto o = Drive(in, j, Misuse{}, r);
  c.Distinct(HashStr(Short(in)));
  if (!want.ok) { V_CHECK(c, !o.status.ok(), "accepted-bad", want.why + " " + Short(in)); c.Count("control-refusals"); return; }
  V_CHECK(c, o.status.ok(), "control-refused", o.where + ": " + o.status.ToString() + " " + Short(in));
  if (!CheckBack(c, o, "control " + Short(in))) return;
  c.Count("control");
}
// ---- audio that is not what was declared ----
void Samples(Ctx& c) {
  Rng& r = c.rng;
  auto opt = Small(); opt.bad_trims = false;
  if (r.Chance(1, 3)) opt.scalable_only = true;
  auto j = enc::GenJob(r, opt);
  auto want = enc::Expect(j);
  auto in = Build(j);
  if (!want.ok || j.S == 0 || j.in[0].empty()) { c.Count("samples-skipped"); return; }
  const uint32_t N = j.N(), chunks = (j.S + N - 1) / N;
  Misuse mis; mis.any = true;
  std::string kind;
  switch (r.Below(5)) {
    case 0: kind = "undeclared-needed"; { auto* f = in.u.mutable_audio_frame_metadata(0); auto* l = f->mutable_channel_metadatas(); l->DeleteSubrange(static_cast<int>(r.Below(l->size())), 1); } break;
    case 1: kind = "missing-label"; if (j.in[0].size() < 2) { c.Count("samples-skipped"); return; } mis.drop_label = static_cast<int>(r.Below(chunks)); break;
    case 2: kind = "undeclared"; mis.extra_label = static_cast<int>(r.Below(chunks)); break;
    case 3: kind = "no-frame-metadata"; if (j.st.elems.size() < 2) { c.Count("samples-skipped"); return; } in.u.mutable_audio_frame_metadata()->DeleteSubrange(static_cast<int>(r.Below(j.st.elems.size())), 1); break;
    default: kind = "length"; if (j.in[0].size() < 2) { c.Count("samples-skipped"); return; } mis.short_frame = static_cast<int>(r.Below(chunks)); break;
  }
  c.Eval();
  auto o = Drive(in, j, mis, r);
  c.Distinct(HashStr(kind + Short(in)));
  // An undeclared label may be one that is declared after all.
  if (kind == "undeclared" && o.status.ok()) { if (!CheckBack(c, o, kind + " " + Short(in))) return; c.Count("samples-undeclared-accepted"); return; }
  V_CHECK(c, !o.status.ok(), "accepted-" + kind, "S=" + std::to_string(j.S) + " N=" + std::to_string(N) + " frame " + std::to_string(std::max(mis.drop_label, mis.short_frame)) + " units " + std::to_string(o.tus.size()) + " " + Short(in));
  c.Count("samples-" + kind);
}
}  // namespace

V_MAIN({{"mutate", 6000, 200000, Mutate}, {"widths", 4000, 60000, Widths}, {"control", 600, 8000, Control}, {"samples", 1200, 12000, Samples}})
