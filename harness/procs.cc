// C24: frame-wise sample processors, sample arrangement utilities, channel reordering.
#include <limits>
#include "absl/container/flat_hash_set.h"
#include "iamf/api/conversion/channel_reorderer.h"
#include "iamf/cli/cli_util.h"
#include "iamf/cli/labeled_frame.h"
#include "iamf/cli/sample_processing_utils.h"
#include "iamf/cli/sample_processor_base.h"
#include "harness/vlib.h"
using namespace iamf_tools;
using namespace vlib;
namespace {
using Frame = std::vector<std::vector<double>>;
std::vector<absl::Span<const double>> Spans(const Frame& f) {
  std::vector<absl::Span<const double>> s;
  for (auto& v : f) s.push_back(absl::MakeConstSpan(v));
  return s;
}
// A processor that delays its input by one frame and records every call.
class Recorder : public SampleProcessorBase {
 public:
  Recorder(size_t in, size_t ch, size_t out, int fail_push, bool fail_flush) : SampleProcessorBase(in, ch, out), fail_push_(fail_push), fail_flush_(fail_flush) {}
  int pushes = 0, flushes = 0;
  bool dirty_on_entry = false;
  Frame last;
  Frame held;
 private:
  absl::Status PushFrameDerived(absl::Span<const absl::Span<const InternalSampleType>> in) override {
    ++pushes;
    for (auto& v : output_channel_time_samples_) dirty_on_entry |= !v.empty();
    last.clear();
    for (auto& s : in) last.emplace_back(s.begin(), s.end());
    if (fail_push_ == pushes) return absl::InternalError("injected");
    for (size_t c = 0; c < num_channels_; ++c) {
      if (held.size() > c) output_channel_time_samples_[c].assign(held[c].begin(), held[c].end());
    }
    held = last;
    return absl::OkStatus();
  }
  absl::Status FlushDerived() override {
    ++flushes;
    for (auto& v : output_channel_time_samples_) dirty_on_entry |= !v.empty();
    if (fail_flush_) return absl::InternalError("injected");
    for (size_t c = 0; c < num_channels_; ++c)
      if (held.size() > c) output_channel_time_samples_[c].assign(held[c].begin(), held[c].end());
    held.clear();
    return absl::OkStatus();
  }
  int fail_push_; bool fail_flush_;
};
void LifeCycle(Ctx& c) {
  Rng& r = c.rng;
  const size_t ch = r.Chance(1, 12) ? 0 : static_cast<size_t>(r.Range(1, 24));
  const size_t max_in = r.Chance(1, 10) ? 0 : static_cast<size_t>(r.Range(1, 40));
  const int fail = r.Chance(1, 4) ? static_cast<int>(r.Range(1, 4)) : 0;
  const bool fail_flush = r.Chance(1, 8);
  Recorder p(max_in, ch, r.Below(50), fail, fail_flush);
  bool flushed = false;
  int pushes = 0;
  double tag = 1;
  Frame held, want(ch);
  bool known = true;  // whether the current output is determined
  std::string trace;
  for (int s = 0, n = 3 + static_cast<int>(r.Below(10)); s < n; ++s) {
    if (r.Chance(1, 7)) {
      auto st = p.Flush();
      c.Eval(); c.Count("flushes");
      trace += 'F';
      if (flushed) {
        V_CHECK(c, absl::IsFailedPrecondition(st), "flush-twice", st << " " << trace);
        V_CHECK(c, p.flushes == 1, "flush-derived-twice", p.flushes);
      } else {
        V_CHECK(c, st.ok() == !fail_flush && p.flushes == 1, "flush", st << " " << trace);
        if (fail_flush) V_CHECK(c, absl::IsInternal(st), "flush-status", st);
        want.assign(ch, {});
        if (!fail_flush) for (size_t k = 0; k < held.size(); ++k) want[k] = held[k];
        known = true;
        flushed = true;
      }
    } else {
      size_t ticks = r.Chance(1, 4) ? max_in : static_cast<size_t>(r.Below(max_in + 1));
      Frame f(ch, std::vector<double>(ticks));
      bool ok = true;
      switch (r.Below(10)) {
        case 0: f.emplace_back(ticks); ok = false; break;
        case 1: if (ch) { f.pop_back(); ok = false; } break;
        case 2: if (ch > 1) { f[r.Range(1, ch - 1)].push_back(0); ok = false; } break;
        case 3: if (ch > 1 && ticks > 0) { f[r.Below(ch)].pop_back(); ok = false; } break;
        case 4: if (ch) { for (auto& v : f) v.resize(max_in + 1 + r.Below(3)); ok = false; } break;
        default: break;
      }
      for (auto& v : f) for (auto& x : v) x = tag++;
      auto sp = Spans(f);
      const int before = p.pushes;
      auto st = p.PushFrame(absl::MakeConstSpan(sp));
      c.Eval();
      trace += ok ? 'P' : 'p';
      if (flushed) {
        V_CHECK(c, absl::IsFailedPrecondition(st), "push-after-flush", st << " " << trace);
        V_CHECK(c, p.pushes == before, "push-after-flush-derived", trace);
        c.Count("refused-after-flush");
      } else if (!ok) {
        V_CHECK(c, !st.ok(), "push-bad-shape", trace << " ch=" << ch << " max=" << max_in << " got " << f.size() << " channels");
        V_CHECK(c, p.pushes == before, "push-bad-shape-derived", trace);
        known = false;
        c.Count("refused-shape");
      } else {
        ++pushes;
        V_CHECK(c, p.pushes == before + 1, "push-derived-count", trace << st);
        V_CHECK(c, p.last == f, "push-samples", trace);
        const bool inj = fail == p.pushes;
        V_CHECK(c, st.ok() == !inj, "push-verdict", st << " " << trace << " ch=" << ch << " ticks=" << ticks << " max=" << max_in);
        want.assign(ch, {});
        if (inj) { V_CHECK(c, absl::IsInternal(st), "push-status", st); }
        else { for (size_t k = 0; k < held.size(); ++k) want[k] = held[k]; held = f; }
        known = true;
        c.Count("pushed");
      }
    }
    V_CHECK(c, !p.dirty_on_entry, "output-not-cleared", trace);
    V_CHECK(c, p.GetNumChannels() == ch, "num-channels", p.GetNumChannels());
    for (int k = r.Below(3); k > 0; --k) {
      auto o = p.GetOutputSamplesAsSpan();
      V_CHECK(c, o.size() == ch, "output-channels", o.size() << " " << ch << " " << trace);
      if (known) for (size_t i = 0; i < ch; ++i)
        V_CHECK(c, std::vector<double>(o[i].begin(), o[i].end()) == want[i], "output-samples", trace << " ch " << i << " sizes " << o[i].size() << " " << want[i].size());
      c.Eval();
    }
  }
  c.Distinct(HashStr(trace + "/" + std::to_string(ch) + "/" + std::to_string(max_in)));
  if (c.WantSample()) c.Sample("channels=" + std::to_string(ch) + " max=" + std::to_string(max_in) + " history=" + trace + " (P push, p malformed push, F flush)");
}

void Arrange(Ctx& c) {
  Rng& r = c.rng;
  using L = ChannelLabel;
  LabeledFrame f{};
  const size_t ticks = r.Below(30);
  std::map<int, std::vector<double>> m;
  double tag = 1;
  for (int i = 0, n = static_cast<int>(r.Range(1, 20)); i < n; ++i) {
    const int l = static_cast<int>(r.Range(1, L::kA24));
    std::vector<double> v(ticks + (r.Chance(1, 60) ? 1 : 0));
    for (auto& x : v) x = tag++;
    m[l] = v;
    f.label_to_samples[static_cast<L::Label>(l)] = v;
  }
  auto lim = [&]() -> uint32_t { return r.Chance(1, 12) ? r.Edge32() : static_cast<uint32_t>(r.Below(ticks / 2 + 2)); };
  f.samples_to_trim_at_start = r.Bool() ? 0 : lim();
  f.samples_to_trim_at_end = r.Bool() ? 0 : lim();
  if (r.Chance(1, 30)) { f.samples_to_trim_at_start = 0xffffffffu; f.samples_to_trim_at_end = 1 + static_cast<uint32_t>(r.Below(ticks + 1)); }
  TrimmingSettings ts; ts.trim_beginning = !r.Chance(1, 4); ts.trim_end = !r.Chance(1, 4);
  std::vector<double> empty(r.Chance(1, 8) ? r.Below(ticks + 1) : ticks + r.Below(4), -7.0);
  std::vector<L::Label> order;
  std::vector<int> have;
  for (auto& [k, v] : m) have.push_back(k);
  const auto demix = [](int l) -> int {
    switch (l) {
      case L::kR2: return L::kDemixedR2; case L::kL3: return L::kDemixedL3; case L::kR3: return L::kDemixedR3;
      case L::kL5: return L::kDemixedL5; case L::kR5: return L::kDemixedR5; case L::kLs5: return L::kDemixedLs5; case L::kRs5: return L::kDemixedRs5;
      case L::kLtf2: return L::kDemixedLtf2; case L::kRtf2: return L::kDemixedRtf2; case L::kLtb4: return L::kDemixedLtb4; case L::kRtb4: return L::kDemixedRtb4;
      case L::kL7: return L::kDemixedL7; case L::kR7: return L::kDemixedR7; case L::kLrs7: return L::kDemixedLrs7; case L::kRrs7: return L::kDemixedRrs7;
      default: return -1;
    }
  };
  for (int i = 0, n = static_cast<int>(r.Below(14)); i < n; ++i) {
    int l = r.Pick(have);
    // Ask by the name of the channel when only its demixed form is present.
    for (int k = 1; k <= L::kA24; ++k) if (demix(k) == l && r.Bool()) l = k;
    if (r.Chance(1, 5)) l = L::kOmitted;
    if (r.Chance(1, 40)) l = static_cast<int>(r.Range(0, L::kA24));
    order.push_back(static_cast<L::Label>(l));
  }
  // Reference.
  bool ok = true; int64_t raw = -1; std::vector<const std::vector<double>*> src;
  for (auto l : order) {
    if (l == L::kOmitted) { src.push_back(&empty); continue; }
    const std::vector<double>* v = nullptr;
    if (m.count(l)) v = &m[l]; else if (demix(l) >= 0 && m.count(demix(l))) v = &m[demix(l)];
    if (!v) { ok = false; break; }
    if (raw >= 0 && raw != static_cast<int64_t>(v->size())) ok = false;
    raw = static_cast<int64_t>(v->size());
    src.push_back(v);
  }
  const int64_t start = ts.trim_beginning ? f.samples_to_trim_at_start : 0, end = ts.trim_end ? f.samples_to_trim_at_end : 0;
  if (ok && !order.empty()) { if (raw < 0 || static_cast<int64_t>(empty.size()) < raw || start + end > raw || start + end > 0xffffffffLL) ok = false; }
  std::vector<absl::Span<const double>> out(order.size());
  size_t valid = 12345;
  auto st = ArrangeSamples(f, order, empty, ts, out, valid);
  c.Eval();
  V_CHECK(c, st.ok() == ok, "arrange-verdict", st << " order=" << order.size() << " ticks=" << raw << " trim " << start << "," << end << " empty " << empty.size());
  if (ok && !order.empty()) {
    V_CHECK(c, static_cast<int64_t>(valid) == raw - start - end, "arrange-ticks", valid);
    for (size_t i = 0; i < order.size(); ++i) {
      V_CHECK(c, out[i].size() == valid, "arrange-size", out[i].size() << " " << valid);
      for (size_t t = 0; t < valid; ++t) V_CHECK(c, out[i][t] == (*src[i])[t + start], "arrange-sample", "channel " << i << " label " << order[i] << " tick " << t);
    }
    c.Count("arranged");
    c.Distinct(HashBytes(order.data(), order.size() * sizeof(order[0])) ^ (valid * 77 + start));
  } else c.Count("arrange-refused");
  // Presence check.
  std::vector<L::Label> need;
  for (int i = 0, n = static_cast<int>(r.Below(5)); i < n; ++i) need.push_back(static_cast<L::Label>(r.Chance(1, 10) ? static_cast<int>(r.Range(0, L::kA24)) : r.Pick(have)));
  bool pok = true; size_t sz = 0;
  for (size_t i = 0; i < need.size(); ++i) {
    if (!m.count(need[i])) { pok = false; break; }
    if (i == 0) sz = m[need[i]].size(); else if (m[need[i]].size() != sz) { pok = false; break; }
  }
  auto got = CheckPresenceAndGetCommonNumTicks(f.label_to_samples, need);
  V_CHECK(c, got.ok() == pok && (!pok || *got == sz), "presence", got.status());
  std::vector<std::vector<double>> fr; bool same = true;
  for (int i = 0, n = static_cast<int>(r.Below(5)); i < n; ++i) { fr.emplace_back(r.Chance(1, 6) ? ticks + 1 : ticks); same &= fr[i].size() == fr[0].size(); }
  auto sp = Spans(fr);
  auto n1 = GetCommonNumTicks(absl::MakeConstSpan(fr)); auto n2 = GetCommonNumTicks(absl::MakeConstSpan(sp));
  V_CHECK(c, n1.ok() == same && n2.ok() == same, "common-ticks", fr.size());
  if (same) V_CHECK(c, *n1 == (fr.empty() ? 0 : fr[0].size()) && *n2 == *n1, "common-ticks-value", *n1);
  c.Eval(3);
}

void Interleave(Ctx& c) {
  Rng& r = c.rng;
  const size_t ch = static_cast<size_t>(r.Range(1, 25)), ticks = r.Below(40);
  std::vector<int32_t> il(ch * ticks);
  for (size_t i = 0; i < il.size(); ++i) il[i] = static_cast<int32_t>(i * 2654435761u + 1);
  const bool bad = ch > 1 && r.Chance(1, 6);
  if (bad) il.resize(il.size() + static_cast<size_t>(r.Range(1, ch - 1)));
  std::vector<std::vector<double>> ct(r.Below(5), std::vector<double>(r.Below(50), 3.0));
  const int64_t fail_at = r.Chance(1, 6) && !il.empty() ? static_cast<int64_t>(r.Below(il.size())) : -1;
  const int32_t poison = fail_at >= 0 ? il[fail_at] : 0;
  const absl::AnyInvocable<absl::Status(int32_t, double&) const> tr = [&](int32_t in, double& o) -> absl::Status {
    if (fail_at >= 0 && in == poison) return absl::DataLossError("x");
    o = in * 2.0; return absl::OkStatus(); };
  auto st = ConvertInterleavedToChannelTime(absl::MakeConstSpan(il), ch, ct, tr);
  c.Eval();
  if (bad) { V_CHECK(c, absl::IsInvalidArgument(st), "interleave-multiple", st); return; }
  if (fail_at >= 0) { V_CHECK(c, absl::IsDataLoss(st), "interleave-propagate", st); return; }
  V_CHECK(c, st.ok() && ct.size() == ch, "interleave", st);
  for (size_t k = 0; k < ch; ++k) {
    V_CHECK(c, ct[k].size() == ticks, "interleave-ticks", ct[k].size());
    for (size_t t = 0; t < ticks; ++t) V_CHECK(c, ct[k][t] == il[t * ch + k] * 2.0, "interleave-value", k << " " << t);
  }
  auto sp = Spans(ct);
  std::vector<int32_t> back(r.Below(100), 9);
  const absl::AnyInvocable<absl::Status(double, int32_t&) const> inv = [](double in, int32_t& o) -> absl::Status { o = static_cast<int32_t>(in / 2); return absl::OkStatus(); };
  st = ConvertChannelTimeToInterleaved(absl::MakeConstSpan(sp), back, inv);
  V_CHECK(c, st.ok() && back == il, "interleave-inverse", st << " " << back.size() << " " << il.size());
  if (ch > 1) {
    auto uneven = ct; uneven[r.Range(1, ch - 1)].push_back(1);
    auto sp2 = Spans(uneven);
    V_CHECK(c, absl::IsInvalidArgument(ConvertChannelTimeToInterleaved(absl::MakeConstSpan(sp2), back, inv)), "interleave-uneven", "");
  }
  c.Count("interleaved"); c.Eval(2);
  c.Distinct(ch * 100 + ticks);
  // PCM writing.
  const int size = r.Pick<int>({8, 16, 24, 32});
  const bool be = r.Bool();
  std::vector<std::vector<int32_t>> fr(ch, std::vector<int32_t>(ticks));
  for (auto& v : fr) for (auto& x : v) x = static_cast<int32_t>(r.Edge32());
  std::vector<uint8_t> buf(r.Below(40), 1), want;
  for (size_t t = 0; t < ticks; ++t) for (size_t k = 0; k < ch; ++k) {
    const uint32_t v = static_cast<uint32_t>(fr[k][t]) >> (32 - size);
    for (int b = 0; b < size / 8; ++b) want.push_back(static_cast<uint8_t>(v >> (be ? size - 8 - 8 * b : 8 * b)));
  }
  st = WritePcmFrameToBuffer(fr, static_cast<uint8_t>(size), be, buf);
  V_CHECK(c, st.ok() && buf == want, "pcm-frame", st << " " << size << " be " << be);
  const int badsize = r.Pick<int>({1, 7, 9, 12, 20, 33, 40, 64, 255});
  size_t pos = 3; uint8_t tmp[16] = {};
  V_CHECK(c, absl::IsInvalidArgument(WritePcmSample(1, static_cast<uint8_t>(badsize), be, tmp, pos)) && pos == 3, "pcm-bad-size", badsize);
  c.Eval(2);
}

using SS = LoudspeakersSsConventionLayout::SoundSystem;
void Reorder(Ctx& c) {
  Rng& r = c.rng;
  // Number of channels and the documented Android order, by names of the documentation.
  struct Row { SS s; size_t n; std::vector<int> android; };
  static const std::vector<Row> rows = {
      {SS::kSoundSystemA_0_2_0, 2, {}}, {SS::kSoundSystemB_0_5_0, 6, {}}, {SS::kSoundSystemC_2_5_0, 8, {}}, {SS::kSoundSystemD_4_5_0, 10, {}}, {SS::kSoundSystemE_4_5_1, 11, {}},
      {SS::kSoundSystemF_3_7_0, 12, {1, 2, 0, 10, 7, 8, 5, 6, 9, 3, 4, 11}},
      {SS::kSoundSystemG_4_9_0, 14, {0, 1, 2, 3, 6, 7, 12, 13, 4, 5, 8, 9, 10, 11}},
      {SS::kSoundSystemH_9_10_3, 24, {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 15, 12, 14, 13, 16, 20, 17, 18, 19, 22, 21, 23, 9}},
      {SS::kSoundSystemI_0_7_0, 8, {0, 1, 2, 3, 6, 7, 4, 5}}, {SS::kSoundSystemJ_4_7_0, 12, {0, 1, 2, 3, 6, 7, 4, 5, 8, 9, 10, 11}},
      {SS::kSoundSystem10_2_7_0, 10, {0, 1, 2, 3, 6, 7, 4, 5, 8, 9}}, {SS::kSoundSystem11_2_3_0, 6, {}}, {SS::kSoundSystem12_0_1_0, 1, {}}, {SS::kSoundSystem13_6_9_0, 16, {}}};
  for (auto& row : rows) for (auto scheme : {ChannelReorderer::RearrangementScheme::kDefaultNoOp, ChannelReorderer::RearrangementScheme::kReorderForAndroid}) {
    const size_t ticks = r.Below(6);
    Frame f(row.n, std::vector<double>(ticks));
    double tag = 1;
    for (auto& v : f) for (auto& x : v) x = tag++;
    auto sp = Spans(f);
    auto re = ChannelReorderer::Create(row.s, scheme);
    for (int rep = 0; rep < 2; ++rep) {
      auto cur = sp;
      auto st = re.Reorder(cur);
      V_CHECK(c, st.ok() && cur.size() == row.n, "reorder", row.s << " " << st);
      for (size_t i = 0; i < row.n; ++i) {
        const size_t from = scheme == ChannelReorderer::RearrangementScheme::kReorderForAndroid && !row.android.empty() ? row.android[i] : i;
        V_CHECK(c, cur[i].data() == sp[from].data() && cur[i].size() == ticks, "reorder-order", "system " << row.s << " slot " << i);
      }
      c.Eval(); c.Count("reordered");
    }
    // Too few channels: refused or harmless, never out of bounds.
    for (size_t k = 0; k < row.n; ++k) {
      Frame g(k, std::vector<double>(1, 2.0)); auto s2 = Spans(g);
      (void)re.Reorder(s2);
      V_CHECK(c, s2.size() == k, "reorder-short", k);
    }
    c.Distinct(static_cast<uint64_t>(row.s) * 2 + (scheme == ChannelReorderer::RearrangementScheme::kReorderForAndroid));
  }
}

void Common(Ctx& c) {
  Rng& r = c.rng;
  absl::flat_hash_set<uint32_t> rates; absl::flat_hash_set<uint8_t> depths;
  for (int i = r.Below(4); i > 0; --i) rates.insert(r.Pick<uint32_t>({16000, 44100, 48000, 96000}));
  for (int i = r.Below(4); i > 0; --i) depths.insert(static_cast<uint8_t>(r.Pick<int>({16, 24, 32})));
  uint32_t rate = 1; uint8_t depth = 1; bool rs = r.Bool();
  auto st = GetCommonSampleRateAndBitDepth(rates, depths, rate, depth, rs);
  const bool ok = !rates.empty() && !depths.empty();
  V_CHECK(c, st.ok() == ok, "common-rate", st);
  if (ok) {
    V_CHECK(c, rate == (rates.size() == 1 ? *rates.begin() : 48000u) && depth == (depths.size() == 1 ? *depths.begin() : 16) && rs == (rates.size() > 1), "common-rate-value", rate << " " << int(depth));
  }
  const int64_t a = r.Bool() ? static_cast<int64_t>(r.U64()) : r.Range(-3, 3), b = r.Bool() ? a : r.Range(-3, 3);
  V_CHECK(c, CompareTimestamps(a, b).ok() == (a == b), "compare-timestamps", a << " " << b);
  c.Eval(2);
}
}  // namespace
V_MAIN({{"life", 120000, 2000000, LifeCycle}, {"arrange", 60000, 1000000, Arrange}, {"interleave", 40000, 400000, Interleave}, {"reorder", 40, 400, Reorder}, {"common", 10000, 50000, Common}})
