// C12: mix gain curves against their definition, point by point, block by block and cut into pieces.
#include <cmath>
#include <list>
#include <memory>
#include "harness/ref/obus.h"
#include "harness/ref/stream.h"
#include "harness/vlib.h"
#include "iamf/cli/parameter_block_partitioner.h"
#include "iamf/cli/proto/parameter_block.pb.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/obu/mix_gain_parameter_data.h"
#include "iamf/obu/param_definitions/demixing_param_definition.h"
#include "iamf/obu/param_definitions/mix_gain_param_definition.h"
#include "iamf/obu/param_definitions/recon_gain_param_definition.h"
#include "iamf/obu/param_definitions/subblock_schedule.h"
#include "iamf/obu/parameter_block.h"
using namespace iamf_tools;
using namespace vlib;
using ref::Lp;
using ref::PData;
using ref::Sched;
namespace {
namespace pb = iamf_tools_cli_proto;

PData GenData(Rng& r) {
  PData d;
  d.anim = r.Below(3);
  auto g = [&] { return static_cast<int16_t>(r.Chance(1, 6) ? r.Pick<int>({0, -32768, 32767, 256, -256}) : r.Chance(1, 2) ? r.Range(-20 * 256, 6 * 256) : r.U32()); };
  d.a = g(); d.b = r.Chance(1, 10) ? d.a : g(); d.c = r.Chance(1, 8) ? d.b : g();
  d.t = r.Chance(1, 4) ? r.Pick<uint8_t>({0, 1, 127, 128, 129, 254, 255}) : r.U8();
  return d;
}
MixGainParameterData ToData(const PData& d) {
  if (d.anim == 0) return MixGainParameterData(AnimationStepInt16{d.a});
  if (d.anim == 1) return MixGainParameterData(AnimationLinearInt16{d.a, d.b});
  return MixGainParameterData(AnimationBezierInt16{d.a, d.b, d.c, d.t});
}
std::string Text(const PData& d) { std::ostringstream o; o << "anim " << d.anim << " " << d.a << " " << d.b << " " << d.c << " t" << int(d.t); return o.str(); }
// The curve in dB, computed without cancellation, and how far single precision may be off.
struct Db { double v, tol; };
Db At(const PData& d, int64_t i, int64_t n) {
  double a = d.a / 256.0, b = d.b / 256.0, c = d.c / 256.0;
  const double span = std::max({std::fabs(a), std::fabs(b), std::fabs(c), 1.0});
  if (d.anim == 0) return {a, 0};
  if (d.anim == 1) { double t = static_cast<double>(i) / n; return {a + (b - a) * t, 4e-7 * span}; }
  double n2 = n, n1 = std::floor(n2 * (d.t / 256.0) + 0.5), al = n2 - 2 * n1, be = 2 * n1, x = i;
  double root = std::sqrt(be * be + 4 * al * x), t = be + root == 0 ? 0 : 2 * x / (be + root);
  // Rounding of the textbook root formula.
  double te = 1e-6;
  if (al != 0) te += 1e-14 * (be + root + (root > 0 ? (be * be + 4 * std::fabs(al) * x) / root : 0)) / (2 * std::fabs(al));
  if (root == 0) te += 1e-3;
  return {(1 - t) * (1 - t) * a + 2 * (1 - t) * t * c + t * t * b, te * 2 * (std::fabs(c - a) + std::fabs(b - c)) + 8e-7 * span};
}
int64_t GenDuration(Rng& r) {
  switch (r.Below(6)) {
    case 0: return r.Range(1, 8);
    case 1: return r.Range(1, 300);
    case 2: return int64_t{1} << r.Below(18);
    case 3: return r.Range(1, 200000);
    case 4: return r.Range(1, 1 << 24);
    default: return r.Chance(1, 2) ? r.Range(1, 0xffffffffll) : 0xffffffffll - static_cast<int64_t>(r.Below(3));
  }
}
int64_t GenStart(Rng& r) { return r.Chance(1, 3) ? 0 : r.Chance(1, 2) ? r.Range(0, 1 << 20) : r.Range(0, int64_t{1} << 45); }

void Points(Ctx& c) {
  Rng& r = c.rng;
  const PData d = GenData(r);
  const auto data = ToData(d);
  V_CHECK(c, data.GetAnimationType() == d.anim, "animation type", Text(d));
  const int64_t n = GenDuration(r), s = GenStart(r);
  auto get = [&](int64_t t, float* v) { *v = -12345; c.Eval(); return ParameterBlockObu::InterpolateMixGainParameterData(&data, s, s + n, t, *v).ok(); };
  const std::string what = Text(d) + " over " + std::to_string(n) + " from " + std::to_string(s);
  std::vector<int64_t> at{0, n};
  for (int i = 0; i < 12; ++i) at.push_back(r.Range(0, n));
  if (n > 1) { at.push_back(1); at.push_back(n - 1); }
  std::sort(at.begin(), at.end());
  double lo = d.a, hi = d.a;
  if (d.anim >= 1) { lo = std::min<double>(lo, d.b); hi = std::max<double>(hi, d.b); }
  if (d.anim == 2) { lo = std::min<double>(lo, d.c); hi = std::max<double>(hi, d.c); }
  lo /= 256; hi /= 256;
  const bool rising = d.anim == 1 ? d.b >= d.a : d.anim == 2 && d.a <= d.c && d.c <= d.b, falling = d.anim == 1 ? d.b <= d.a : d.anim == 2 && d.a >= d.c && d.c >= d.b;
  float prev = 0; double ptol = 0; bool first = true;
  for (int64_t i : at) {
    float v;
    V_CHECK(c, get(s + i, &v), "refused inside", what << " at " << i);
    const Db w = At(d, i, n);
    V_CHECK(c, std::isfinite(v), "not a number", what << " at " << i);
    V_CHECK(c, std::fabs(v - w.v) <= w.tol, "value", what << " at " << i << ": " << v << " wanted " << w.v << " within " << w.tol);
    V_CHECK(c, v >= lo - w.tol && v <= hi + w.tol, "outside the controls", what << " at " << i << ": " << v);
    if (i == 0) { V_CHECK(c, v == static_cast<float>(d.a / 256.0), "start", what << ": " << v); c.Count("starts"); }
    if (i == n && d.anim) { V_CHECK(c, std::fabs(v - d.b / 256.0) <= w.tol, "end", what << ": " << v); c.Count("ends"); }
    if (!first && rising) { V_CHECK(c, v >= prev - w.tol - ptol, "not rising", what << " at " << i); c.Count("monotone"); }
    if (!first && falling) { V_CHECK(c, v <= prev + w.tol + ptol, "not falling", what << " at " << i); c.Count("monotone"); }
    prev = v; ptol = w.tol; first = false;
    c.Count("points"); c.Count(d.anim == 0 ? "step" : d.anim == 1 ? "linear" : "bezier");
  }
  for (int k = 0; k < 4; ++k) {
    int64_t t = r.Bool() ? s - 1 - static_cast<int64_t>(r.Chance(1, 2) ? 0 : r.Below(100000)) : s + n + 1 + static_cast<int64_t>(r.Chance(1, 2) ? 0 : r.Below(100000));
    float v;
    V_CHECK(c, !get(t, &v), "accepted outside", what << " at " << t - s);
    V_CHECK(c, v == -12345, "wrote when refusing", what);
    c.Count("outside");
  }
  { float v = 0; V_CHECK(c, !ParameterBlockObu::InterpolateMixGainParameterData(&data, s + n, s, s, v).ok(), "accepted backwards", what); }
  c.Distinct(HashStr(what));
}

std::unique_ptr<MixGainParamDefinition> Def(const ref::Pd& p) {
  ParamDefinition::BaseArgs a{.parameter_id = p.id, .parameter_rate = p.rate, .reserved = p.res};
  if (!p.mode1) {
    auto s = p.s.csd ? SubblockSchedule::CreateWithConstantSubblockDuration(p.s.dur, p.s.csd) : SubblockSchedule::CreateWithVariableSubblockDuration(p.s.subs);
    if (!s.ok()) HarnessBug("schedule " + s.status().ToString());
    a.schedule = *s;
  }
  return std::make_unique<MixGainParamDefinition>(a);
}
void Blocks(Ctx& c) {
  Rng& r = c.rng;
  ref::PBlock p;
  p.def = ref::GenPd(r, 0);
  p.s = p.def.mode1 ? ref::GenSched(r) : p.def.s;
  if (r.Chance(1, 12)) {  // very long sub-blocks
    p.s = Sched(); p.s.csd = p.s.dur = static_cast<uint32_t>(GenDuration(r)); if (!p.def.mode1) p.def.s = p.s;
  }
  for (uint32_t i = 0; i < p.s.Count(); ++i) p.data.push_back(GenData(r));
  auto def = Def(p.def);
  auto bytes = ref::EncodePBlock(p, Lp{});
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(bytes));
  auto o = ParameterBlockObu::CreateFromBuffer(ObuHeader{}, static_cast<int64_t>(bytes.size()), *def, *rb);
  if (!o.ok()) HarnessBug("block " + o.status().ToString());
  const size_t size = r.Chance(1, 3) ? std::min<uint64_t>(p.s.dur, 20000) : r.Chance(1, 2) ? static_cast<size_t>(r.Range(0, std::min<uint64_t>(p.s.dur, 4000))) : std::min<uint64_t>(p.s.dur, 3000) + r.Below(50);
  std::vector<float> g(size, 42.0f);
  c.Eval();
  auto st = (*o)->GetLinearMixGains(g);
  std::ostringstream what; what << "duration " << p.s.dur << " csd " << p.s.csd << " blocks " << p.s.Count() << " size " << size;
  V_CHECK(c, st.ok() && g.size() == size, "gains refused", what.str() << " " << st.message());
  uint64_t i = 0;
  for (uint32_t k = 0; k < p.s.Count() && i < size; ++k) for (uint32_t t = 0; t < p.s.At(k) && i < size; ++t, ++i) {
    const Db w = At(p.data[k], t, p.s.At(k));
    const double v = std::pow(10.0, w.v / 20), rel = std::expm1(w.tol * std::log(10.0) / 20) + 3e-6 * (1 + std::fabs(w.v) / 40);
    V_CHECK(c, std::fabs(g[i] - v) <= v * rel + 1e-30, "gain", what.str() << " " << Text(p.data[k]) << " tick " << t << " of " << p.s.At(k) << ": " << g[i] << " wanted " << v);
    c.Count("ticks");
  }
  for (; i < size; ++i) { V_CHECK(c, g[i] == 42.0f, "past the block", what.str() << " at " << i); c.Count("ticks-past"); }
  c.Count("blocks"); if (p.s.Count() > 1) c.Count("blocks-divided");
  c.Distinct(HashStr(std::string(bytes.begin(), bytes.end()) + std::to_string(size)));
  // Data missing, or of another kind.
  if (r.Chance(1, 4) && size > 0) {
    (*o)->subblocks_[0].reset();
    std::vector<float> h(size, 1.0f);
    V_CHECK(c, !(*o)->GetLinearMixGains(h).ok(), "missing data accepted", what.str());
    c.Count("gains-refused");
  }
  if (r.Chance(1, 4)) {
    Sched s; s.dur = s.csd = 8;
    ParamDefinition::BaseArgs a{.parameter_id = 1, .parameter_rate = 48000, .schedule = *SubblockSchedule::CreateWithConstantSubblockDuration(8, 8)};
    DemixingParamDefinition dd(a);
    auto b = ParameterBlockObu::CreateMode0(ObuHeader{}, dd);
    std::vector<float> h(8, 1.0f);
    V_CHECK(c, b && !b->GetLinearMixGains(h).ok(), "demixing block gave gains", "");
    c.Count("gains-refused");
  }
}

// ---- cutting long blocks ----
void Fill(pb::MixGainParameterData* m, const PData& d) {
  auto* p = m->mutable_param_data();
  if (d.anim == 0) p->mutable_step()->set_start_point_value(d.a);
  else if (d.anim == 1) { p->mutable_linear()->set_start_point_value(d.a); p->mutable_linear()->set_end_point_value(d.b); }
  else { auto* b = p->mutable_bezier(); b->set_start_point_value(d.a); b->set_end_point_value(d.b); b->set_control_point_value(d.c); b->set_control_point_relative_time(d.t); }
}
struct Full { pb::ParameterBlockObuMetadata m; Sched s; std::vector<PData> data; int64_t start = 0; int kind = 0; };
Full GenFull(Rng& r) {
  Full f;
  f.kind = r.Chance(1, 6) ? static_cast<int>(r.Range(1, 2)) : 0;
  f.s = ref::GenSched(r, f.kind ? 3 : 12);
  f.start = GenStart(r);
  f.m.set_parameter_id(r.U32()); f.m.set_duration(f.s.dur); f.m.set_constant_subblock_duration(f.s.csd); f.m.set_start_timestamp(f.start);
  if (r.Bool()) f.m.mutable_obu_header()->set_obu_redundant_copy(r.Bool());
  const bool curves = r.Chance(1, 3);
  for (uint32_t k = 0; k < f.s.Count(); ++k) {
    PData d = GenData(r);
    if (d.anim == 2 && !curves) d.anim = r.Below(2);
    // Interpolating right at the last representable value may round past it.
    for (int16_t* v : {&d.a, &d.b}) *v = std::clamp<int16_t>(*v, -32766, 32766);
    f.data.push_back(d);
    auto* s = f.m.add_subblocks();
    if (!f.s.csd) s->set_subblock_duration(f.s.subs[k]);
    if (f.kind == 0) Fill(s->mutable_mix_gain_parameter_data(), d);
    else if (f.kind == 1) { s->mutable_demixing_info_parameter_data()->set_reserved(k + 3); }
    else { auto* l = s->mutable_recon_gain_info_parameter_data()->add_recon_gains_for_layer(); (*l->mutable_recon_gain())[0] = k + 5; }
  }
  return f;
}
void Pieces(Ctx& c) {
  Rng& r = c.rng;
  const Full f = GenFull(r);
  std::vector<uint64_t> edge{0};
  for (uint32_t k = 0; k < f.s.Count(); ++k) edge.push_back(edge.back() + f.s.At(k));
  auto pick = [&] { return r.Chance(1, 2) ? static_cast<int64_t>(r.Pick(edge)) : r.Range(0, f.s.dur); };
  int64_t a = pick(), b = pick();
  if (a > b) std::swap(a, b);
  const int odd = static_cast<int>(r.Below(12));
  if (odd == 0) b = a - static_cast<int64_t>(r.Below(3)); else if (odd == 1) b = f.s.dur + 1 + static_cast<int64_t>(r.Below(4)); else if (odd == 2) a = -1 - static_cast<int64_t>(r.Below(4));
  bool ok = a >= 0 && b <= f.s.dur && a < b;
  std::string why = "range";
  std::vector<std::pair<int64_t, int64_t>> parts; std::vector<uint32_t> of;
  if (ok) for (uint32_t k = 0; k < f.s.Count(); ++k) {
    int64_t s = std::max<int64_t>(a, static_cast<int64_t>(edge[k])), e = std::min<int64_t>(b, static_cast<int64_t>(edge[k + 1]));
    if (s >= e) continue;
    if (f.kind && !parts.empty()) { ok = false; why = "several sub-blocks"; }
    if (!f.kind && f.data[k].anim == 2 && e - s != f.s.At(k)) { ok = false; why = "cut curve"; }
    parts.emplace_back(s, e); of.push_back(k);
  }
  std::ostringstream what; what << "kind " << f.kind << " [" << a << "," << b << ") of " << f.s.dur << "/" << f.s.csd << " in " << f.s.Count() << " " << why;
  pb::ParameterBlockObuMetadata out;
  c.Eval();
  auto st = ParameterBlockPartitioner::PartitionParameterBlock(f.m, f.start + a, f.start + b, out);
  V_CHECK(c, st.ok() == ok, ok ? "piece refused" : "piece accepted", what.str() << " " << st.message());
  c.Distinct(HashStr(what.str()));
  if (!ok) { c.Count("pieces-refused"); return; }
  c.Count("pieces"); if (parts.size() > 1) c.Count("pieces-divided");
  V_CHECK(c, out.parameter_id() == f.m.parameter_id() && out.duration() == static_cast<uint32_t>(b - a) && out.start_timestamp() == f.start + a, "piece fields", what.str() << "\n" << out.DebugString());
  V_CHECK(c, out.obu_header().SerializeAsString() == f.m.obu_header().SerializeAsString(), "piece header", what.str());
  V_CHECK(c, static_cast<size_t>(out.subblocks_size()) == parts.size(), "piece sub-blocks", what.str() << ": " << out.subblocks_size());
  uint64_t sum = 0;
  for (size_t i = 0; i < parts.size(); ++i) {
    auto& s = out.subblocks(static_cast<int>(i));
    const int64_t n = parts[i].second - parts[i].first;
    V_CHECK(c, s.subblock_duration() == n, "sub-block duration", what.str() << " " << i << ": " << s.subblock_duration() << " of " << n);
    sum += s.subblock_duration();
    const uint32_t k = of[i];
    if (f.kind) { V_CHECK(c, f.kind == 1 ? s.demixing_info_parameter_data().SerializeAsString() == f.m.subblocks(k).demixing_info_parameter_data().SerializeAsString() : s.recon_gain_info_parameter_data().recon_gains_for_layer(0).recon_gain().at(0) == k + 5, "carried data", what.str()); continue; }
    const PData& d = f.data[k];
    auto& p = s.mix_gain_parameter_data().param_data();
    const int64_t from = parts[i].first - static_cast<int64_t>(edge[k]), to = parts[i].second - static_cast<int64_t>(edge[k]), all = f.s.At(k);
    auto near = [&](int32_t q, int64_t t) { const Db w = At(d, t, all); return std::fabs(q / 256.0 - w.v) < 1 / 256.0 + w.tol; };
    if (d.anim == 0) V_CHECK(c, p.has_step() && p.step().start_point_value() == d.a, "step piece", what.str() << " " << Text(d) << "\n" << p.DebugString());
    else if (d.anim == 1) {
      V_CHECK(c, p.has_linear() && near(p.linear().start_point_value(), from) && near(p.linear().end_point_value(), to), "linear piece", what.str() << " " << Text(d) << " " << from << ".." << to << " of " << all << "\n" << p.DebugString());
      if (from == 0) V_CHECK(c, p.linear().start_point_value() == d.a, "linear start", what.str() << " " << Text(d));
      if (to == all) V_CHECK(c, p.linear().end_point_value() == d.b, "linear end", what.str() << " " << Text(d));
      c.Count("linear-pieces");
    } else V_CHECK(c, p.SerializeAsString() == f.m.subblocks(k).mix_gain_parameter_data().param_data().SerializeAsString(), "curve copied", what.str());
  }
  V_CHECK(c, sum == static_cast<uint64_t>(b - a), "durations", what.str());
  // The announced constant duration must describe the sub-blocks.
  if (out.constant_subblock_duration()) {
    Sched s; s.dur = out.duration(); s.csd = out.constant_subblock_duration();
    V_CHECK(c, s.Count() == parts.size(), "constant count", what.str());
    for (size_t i = 0; i < parts.size(); ++i) V_CHECK(c, s.At(static_cast<uint32_t>(i)) == out.subblocks(static_cast<int>(i)).subblock_duration(), "constant duration", what.str() << " " << i);
    c.Count("constant");
  } else {
    bool could = true;
    for (size_t i = 0; i < parts.size(); ++i) { auto n = parts[i].second - parts[i].first, n0 = parts[0].second - parts[0].first; could &= i + 1 == parts.size() ? n <= n0 : n == n0; }
    V_CHECK(c, !could, "constant missed", what.str());
  }
  if (c.WantSample()) c.Sample(what.str());
}
void Aligned(Ctx& c) {
  Rng& r = c.rng;
  Full f = GenFull(r);
  std::vector<uint32_t> div;
  for (uint32_t d = 1; d <= f.s.dur && d <= 20000; ++d) if (f.s.dur % d == 0) div.push_back(d);
  uint32_t step = r.Chance(3, 4) ? r.Pick(div) : static_cast<uint32_t>(r.Range(0, f.s.dur + 2));
  if (step && f.s.dur / step > 300) step = f.s.dur;
  if (r.Chance(1, 3)) step = f.s.dur;
  std::list<pb::ParameterBlockObuMetadata> out;
  const size_t before = r.Below(2);
  for (size_t i = 0; i < before; ++i) out.emplace_back();
  c.Eval();
  auto st = ParameterBlockPartitioner::PartitionFrameAligned(step, f.m, out);
  const bool whole = step > 0 && f.s.dur % step == 0;
  std::ostringstream what; what << "step " << step << " of " << f.s.dur << " kind " << f.kind;
  if (!whole) { V_CHECK(c, !st.ok(), "gap accepted", what.str()); c.Count("aligned-refused"); return; }
  if (!st.ok()) {  // only cut curves and several data blocks may be refused
    bool may = false;
    for (auto& d : f.data) may |= d.anim == 2;
    V_CHECK(c, f.kind ? f.s.Count() > 1 : may, "aligned refused", what.str() << " " << st.message());
    c.Count("aligned-refused");
    return;
  }
  c.Count("aligned");
  for (size_t i = 0; i < before; ++i) out.pop_front();
  V_CHECK(c, out.size() == f.s.dur / step, "aligned count", what.str() << ": " << out.size());
  int64_t t = f.start;
  for (auto& o : out) { V_CHECK(c, o.start_timestamp() == t && o.duration() == step && o.parameter_id() == f.m.parameter_id(), "aligned times", what.str() << " " << o.start_timestamp() << " wanted " << t); t += o.duration(); }
  c.Distinct(HashStr(what.str() + std::to_string(f.start)));
  // Random duration lists.
  std::vector<uint32_t> ds;
  uint32_t base = 1 + static_cast<uint32_t>(r.Below(50));
  for (size_t i = r.Below(6); i > 0; --i) ds.push_back(r.Chance(3, 4) ? base : 1 + static_cast<uint32_t>(r.Below(60)));
  uint32_t want = ds.empty() ? 0 : ds[0];
  for (size_t i = 0; i < ds.size(); ++i) if (i + 1 == ds.size() ? ds[i] > ds[0] : ds[i] != ds[0]) want = 0;
  V_CHECK(c, ParameterBlockPartitioner::FindConstantSubblockDuration(ds) == want, "constant duration of list", ds.size() << " first " << (ds.empty() ? 0 : ds[0]));
  pb::CodecConfigObuMetadata cc; const uint32_t frame = r.Edge32(); cc.mutable_codec_config()->set_num_samples_per_frame(frame);
  auto prof = static_cast<pb::ProfileVersion>(r.Below(8));
  uint32_t got = 7;
  auto fs = ParameterBlockPartitioner::FindPartitionDuration(prof, cc, got);
  const bool okp = prof == pb::PROFILE_VERSION_SIMPLE || prof == pb::PROFILE_VERSION_BASE || prof == pb::PROFILE_VERSION_BASE_ENHANCED;
  V_CHECK(c, fs.ok() == okp && (!okp || got == frame), "partition duration", int(prof) << " " << got);
}
}  // namespace
V_MAIN({{"points", 32000, 800000, Points}, {"blocks", 16000, 150000, Blocks}, {"pieces", 48000, 600000, Pieces}, {"aligned", 16000, 200000, Aligned}})
