// C32: ambisonics configurations against the rules of the specification, and
// mixing and projection against exact matrix products.
#include <algorithm>
#include <cmath>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include "harness/ref/obus.h"
#include "harness/ref/toa.h"
#include "harness/vlib.h"
#include "iamf/cli/ambisonics_mixer.h"
#include "iamf/cli/renderer/renderer_utils.h"
#include "iamf/common/leb_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "iamf/obu/ambisonics_config.h"
#include "iamf/obu/audio_element.h"
using namespace iamf_tools;
using namespace vlib;
using Bytes = std::vector<uint8_t>;
using Samples = std::vector<std::vector<double>>;
using Spans = std::vector<absl::Span<const double>>;
namespace {

bool Square(size_t c) { for (size_t n = 0; n <= 14; ++n) if ((n + 1) * (n + 1) == c) return true; return false; }
bool MonoOk(size_t N, const Bytes& m) {
  if (!Square(m.size()) || N < 1 || N > m.size()) return false;
  std::set<int> used;
  for (uint8_t v : m) { if (v == 255) continue; if (v >= N) return false; used.insert(v); }
  return used.size() == N;
}
bool ProjOk(size_t C, size_t N, size_t M, size_t matrix) { return Square(C) && M <= N && N + M >= 1 && N + M <= C && matrix == (N + M) * C; }

std::string MonoText(size_t N, const Bytes& m) { return "N=" + std::to_string(N) + " C=" + std::to_string(m.size()) + " mapping=" + Hex(m, 260); }

// Writing and reading the config back through its own bytes.
void RoundTrip(Ctx& c, const AmbisonicsConfig& cfg, const Bytes& want, const std::string& what) {
  WriteBitBuffer wb(0, *LebGenerator::Create());
  auto s = cfg.ValidateAndWrite(wb);
  V_CHECK(c, s.ok(), "write-refused", what + " " + s.ToString());
  V_CHECK(c, Bytes(wb.bit_buffer().begin(), wb.bit_buffer().end()) == want, "bytes", what + " wrote " + Hex(wb.bit_buffer()) + " want " + Hex(want));
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(want));
  AmbisonicsConfig back{.ambisonics_config = *AmbisonicsMonoConfig::Create(1, std::vector<uint8_t>{0})};
  s = back.ReadAndValidate(*rb);
  V_CHECK(c, s.ok(), "read-refused", what + " " + s.ToString());
  V_CHECK(c, rb->Tell() == static_cast<int64_t>(want.size() * 8), "read-length", what);
  V_CHECK(c, back == cfg, "read-differs", what);
  c.Count("round-trips");
}

void Mono(Ctx& c) {
  Rng& r = c.rng;
  size_t C;
  switch (r.Below(5)) {
    case 0: C = r.Below(600); break;
    case 1: { size_t n = r.Below(15); C = (n + 1) * (n + 1) + (r.Chance(1, 2) ? 256 * r.Range(1, 3) : 0); break; }
    default: { size_t n = r.Below(15); C = (n + 1) * (n + 1); if (r.Chance(1, 6)) C += r.Range(-1, 1); break; }
  }
  size_t N = r.Chance(1, 4) ? std::min<size_t>(C, 255) : r.Chance(1, 8) ? r.Below(256) : C == 0 ? 0 : r.Range(1, std::min<size_t>(C, 255));
  Bytes m(C, 255);
  // Every substream somewhere, when there is room.
  std::vector<size_t> at(C); for (size_t i = 0; i < C; ++i) at[i] = i;
  r.Shuffle(at);
  int sparse = static_cast<int>(r.Below(3));
  for (size_t i = 0; i < C; ++i) {
    if (i < N) m[at[i]] = static_cast<uint8_t>(i);
    else if (sparse == 1 || (sparse == 2 && r.Bool())) m[at[i]] = N ? static_cast<uint8_t>(r.Below(N)) : 255;
  }
  if (C && r.Chance(1, 4)) {
    size_t i = r.Below(C);
    switch (r.Below(4)) {
      case 0: m[i] = static_cast<uint8_t>(N); break;
      case 1: m[i] = r.U8(); break;
      case 2: m[i] = 254; break;
      default: m[i] = m[r.Below(C)]; break;
    }
  }
  if (r.Chance(1, 10)) N = static_cast<size_t>(std::clamp<int64_t>(static_cast<int64_t>(N) + r.Range(-1, 1), 0, 255));
  bool want = MonoOk(N, m);
  c.Eval();
  c.Distinct(HashVec(m) ^ Mix(N));
  auto got = AmbisonicsMonoConfig::Create(static_cast<uint8_t>(N), m);
  c.Count(want ? "mono-accepted" : "mono-refused");
  if (!want && C > 255) c.Count("mono-too-many");
  V_CHECK(c, got.ok() == want, want ? "mono-refused" : "mono-accepted", MonoText(N, m) + " " + got.status().ToString());
  if (got.ok()) {
    V_CHECK(c, got->GetOutputChannelCount() == C && got->GetSubstreamCount() == N, "mono-counts", MonoText(N, m));
    auto v = got->GetChannelMappingView();
    V_CHECK(c, Bytes(v.begin(), v.end()) == m, "mono-mapping", MonoText(N, m));
  }
  if (C > 255) return;
  ref::Bits b; b.Put(C, 8); b.Put(N, 8); b.PutBytes(m);
  Bytes body = b.Bytes();
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(body));
  auto read = AmbisonicsMonoConfig::CreateFromBuffer(*rb);
  V_CHECK(c, read.ok() == want, want ? "mono-read-refused" : "mono-read-accepted", MonoText(N, m));
  if (!want) return;
  V_CHECK(c, *read == *got, "mono-read-differs", MonoText(N, m));
  AmbisonicsConfig cfg{.ambisonics_config = *got};
  V_CHECK(c, cfg.GetOutputChannelCount() == C && cfg.GetNumSubstreams() == N && cfg.GetAmbisonicsMode() == AmbisonicsConfig::kAmbisonicsModeMono && !cfg.GetDemixingMatrix().has_value(), "mono-config", MonoText(N, m));
  Bytes full{0}; full.insert(full.end(), body.begin(), body.end());
  RoundTrip(c, cfg, full, MonoText(N, m));
  // Cut anywhere it is refused.
  Bytes cut(body.begin(), body.begin() + static_cast<long>(r.Below(body.size())));
  auto rc = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(cut));
  V_CHECK(c, !AmbisonicsMonoConfig::CreateFromBuffer(*rc).ok(), "mono-cut-accepted", MonoText(N, m) + " cut to " + std::to_string(cut.size()));
  if (c.WantSample()) c.Sample(MonoText(N, m));
}

void Projection(Ctx& c) {
  Rng& r = c.rng;
  size_t n = r.Chance(2, 3) ? r.Below(5) : r.Below(15), C = (n + 1) * (n + 1);
  if (r.Chance(1, 8)) C = r.Below(256);
  size_t total = C ? r.Range(1, C) : r.Below(3), M = r.Range(0, total / 2), N = total - M;
  if (r.Chance(1, 6)) { N = std::clamp<int64_t>(static_cast<int64_t>(N) + r.Range(-2, 2), 0, 255); M = std::clamp<int64_t>(static_cast<int64_t>(M) + r.Range(-2, 2), 0, 255); }
  if (r.Chance(1, 12)) { N = r.Below(256); M = r.Below(256); }
  if (r.Chance(1, 20)) { N = 128 + r.Below(128); M = N - r.Below(3); }  // sums past one byte
  size_t len = (N + M) * C;
  bool lie = r.Chance(1, 8);
  if (lie) len = static_cast<size_t>(std::max<int64_t>(0, static_cast<int64_t>(len) + (r.Bool() ? r.Range(-2, 2) : static_cast<int64_t>(r.Range(-1, 1) * static_cast<int64_t>(C)))));
  std::vector<int16_t> mat(len); for (auto& v : mat) v = static_cast<int16_t>(r.Chance(1, 4) ? r.Edge32() : r.U32());
  std::string what = "C=" + std::to_string(C) + " N=" + std::to_string(N) + " M=" + std::to_string(M) + " matrix=" + std::to_string(len);
  bool want = ProjOk(C, N, M, len);
  c.Eval();
  c.Distinct(Mix(C * 65536 + N * 256 + M) ^ Mix(len) ^ (mat.empty() ? 0 : static_cast<uint16_t>(mat[0])));
  auto got = AmbisonicsProjectionConfig::Create(static_cast<uint8_t>(C), static_cast<uint8_t>(N), static_cast<uint8_t>(M), mat);
  c.Count(want ? "projection-accepted" : "projection-refused");
  V_CHECK(c, got.ok() == want, want ? "projection-refused" : "projection-accepted", what + " " + got.status().ToString());
  if (got.ok()) {
    V_CHECK(c, got->GetOutputChannelCount() == C && got->GetSubstreamCount() == N && got->GetCoupledSubstreamCount() == M, "projection-counts", what);
    auto v = got->GetDemixingMatrixView();
    V_CHECK(c, std::vector<int16_t>(v.begin(), v.end()) == mat, "projection-matrix", what);
  }
  ref::Bits b; b.Put(C, 8); b.Put(N, 8); b.Put(M, 8); for (int16_t v : mat) b.PutS(v, 16);
  Bytes body = b.Bytes();
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(body));
  auto read = AmbisonicsProjectionConfig::CreateFromBuffer(*rb);
  // A reader takes what the counts ask for and leaves the rest.
  bool want_read = Square(C) && M <= N && N + M >= 1 && N + M <= C && len >= (N + M) * C;
  V_CHECK(c, read.ok() == want_read, want_read ? "projection-read-refused" : "projection-read-accepted", what);
  if (!want) return;
  V_CHECK(c, *read == *got, "projection-read-differs", what);
  AmbisonicsConfig cfg{.ambisonics_config = *got};
  V_CHECK(c, cfg.GetOutputChannelCount() == C && cfg.GetNumSubstreams() == N && cfg.GetAmbisonicsMode() == AmbisonicsConfig::kAmbisonicsModeProjection && cfg.GetDemixingMatrix().has_value() && std::vector<int16_t>(cfg.GetDemixingMatrix()->begin(), cfg.GetDemixingMatrix()->end()) == mat, "projection-config", what);
  Bytes full{1}; full.insert(full.end(), body.begin(), body.end());
  RoundTrip(c, cfg, full, what);
}

// All 256 requests, once per case.
void Next(Ctx& c) {
  for (int i = 0; i < 256; ++i) {
    int want = -1;
    for (int n = 14; n >= 0; --n) if ((n + 1) * (n + 1) >= i) want = (n + 1) * (n + 1);
    uint8_t got = 77;
    auto s = AmbisonicsConfig::GetNextValidOutputChannelCount(static_cast<uint8_t>(i), got);
    c.Eval(); c.Distinct(static_cast<uint64_t>(i));
    V_CHECK(c, s.ok() == (want >= 0), "next-status", std::to_string(i) + " " + s.ToString());
    if (s.ok()) V_CHECK(c, got == want, "next-value", std::to_string(i) + " gave " + std::to_string(got) + " want " + std::to_string(want));
    int order = -1;
    auto o = GetAmbisonicsOrder(static_cast<uint8_t>(i), order);
    V_CHECK(c, o.ok() == (want == i), "order-status", std::to_string(i) + " " + o.ToString());
    if (o.ok()) V_CHECK(c, (order + 1) * (order + 1) == i, "order-value", std::to_string(i) + " gave " + std::to_string(order));
    c.Count("counts-asked");
  }
}

// A legal config and what is in it.
struct Cfg { ref::Element e; AmbisonicsConfig cfg; };
Cfg GenCfg(Rng& r, int max_order) {
  for (;;) {
    ref::Element e; ref::GenAmbisonics(r, e);
    if (e.C > (max_order + 1) * (max_order + 1)) continue;
    if (e.amb_mode == 0) {
      auto m = AmbisonicsMonoConfig::Create(e.N, e.mapping);
      if (!m.ok()) { return {e, AmbisonicsConfig{.ambisonics_config = *AmbisonicsMonoConfig::Create(1, std::vector<uint8_t>{0})}}; }
      return {e, AmbisonicsConfig{.ambisonics_config = *m}};
    }
    auto p = AmbisonicsProjectionConfig::Create(e.C, e.N, e.M, e.matrix);
    if (!p.ok()) continue;
    return {e, AmbisonicsConfig{.ambisonics_config = *p}};
  }
}

void ElementObu(Ctx& c) {
  Rng& r = c.rng;
  Cfg k = GenCfg(r, 14);
  size_t N = k.e.N;
  std::set<uint32_t> ids; while (ids.size() < N) ids.insert(r.Chance(1, 4) ? r.Edge32() : static_cast<uint32_t>(r.Below(5000)));
  std::vector<uint32_t> subs(ids.begin(), ids.end()); r.Shuffle(subs);
  int lie = static_cast<int>(r.Below(6));
  if (lie == 0) subs.push_back(static_cast<uint32_t>(r.Range(5000, 6000)));
  if (lie == 1) subs.pop_back();
  if (lie == 2 && N >= 2) subs[r.Below(N - 1) + 1] = subs[0];
  bool want = subs.size() == N && std::set<uint32_t>(subs.begin(), subs.end()).size() == N;
  uint32_t id = r.Edge32(), codec = r.Edge32(); uint8_t res = r.U8() & 31;
  c.Eval(); c.Distinct(HashVec(k.e.mapping) ^ HashVec(k.e.matrix) ^ HashVec(subs));
  auto o = AudioElementObu::CreateForAmbisonics(ObuHeader(), id, res, codec, subs, k.cfg);
  std::string what = "N=" + std::to_string(N) + " subs=" + std::to_string(subs.size()) + " distinct=" + std::to_string(std::set<uint32_t>(subs.begin(), subs.end()).size());
  V_CHECK(c, o.ok() == want, want ? "element-refused" : "element-accepted", what + " " + o.status().ToString());
  c.Count(want ? "elements-made" : "elements-refused");
  if (!want) return;
  k.e.id = id; k.e.res = res; k.e.codec = codec; k.e.subs = subs; k.e.num_params = 0;
  V_CHECK(c, o->GetAudioElementId() == id && o->GetAudioElementType() == AudioElementObu::kAudioElementSceneBased && o->GetNumSubstreams() == N, "element-fields", what);
  const auto& sv = o->audio_substream_ids_;
  V_CHECK(c, std::vector<uint32_t>(sv.begin(), sv.end()) == subs, "element-substreams", what);
  WriteBitBuffer wb(0, *LebGenerator::Create());
  auto s = o->ValidateAndWriteObu(wb);
  V_CHECK(c, s.ok(), "element-write", what + " " + s.ToString());
  Bytes payload = ref::EncodeElement(k.e, ref::Lp{});
  ref::Hdr h; h.type = 1;
  Bytes want_bytes = ref::EncodeObu(h, payload, ref::Lp{});
  V_CHECK(c, Bytes(wb.bit_buffer().begin(), wb.bit_buffer().end()) == want_bytes, "element-bytes", what + " got " + Hex(wb.bit_buffer(), 80) + " want " + Hex(want_bytes, 80));
}

double Val(Rng& r) { switch (r.Below(6)) { case 0: return 0; case 1: return r.Bool() ? 1.0 : -1.0; case 2: return r.Real(-1e-9, 1e-9); case 3: return r.Real(-1e6, 1e6); default: return r.Real(-1, 1); } }
Samples GenSamples(Rng& r, size_t ch, size_t t) { Samples s(ch, std::vector<double>(t)); for (auto& v : s) for (auto& x : v) x = Val(r); return s; }
Spans ToSpans(const Samples& s) { Spans v; for (auto& x : s) v.push_back(absl::MakeConstSpan(x)); return v; }
// Column major product, with the magnitude the rounding is measured against.
void Product(const Samples& in, const std::vector<double>& m, size_t out, Samples& want, Samples& mag) {
  size_t t = in[0].size();
  want.assign(out, std::vector<double>(t, 0)); mag = want;
  for (size_t i = 0; i < in.size(); ++i) for (size_t o = 0; o < out; ++o) for (size_t k = 0; k < t; ++k) { double p = m[i * out + o] * in[i][k]; want[o][k] += p; mag[o][k] += std::fabs(p); }
}

void Mixer(Ctx& c) {
  Rng& r = c.rng;
  size_t max = r.Chance(1, 4) ? r.Below(4) : r.Range(1, 200);
  bool preset = r.Chance(2, 3), toa = false;
  std::optional<Cfg> k; size_t ch = 0; int order = 0;
  std::optional<AmbisonicsMixer> mx;
  std::string what;
  if (preset) {
    order = static_cast<int>(r.Chance(1, 2) ? 3 : r.Below(4));
    auto codec = r.Pick({CodecConfig::kCodecIdOpus, CodecConfig::kCodecIdFlac, CodecConfig::kCodecIdLpcm, CodecConfig::kCodecIdAacLc});
    if (order == 3 && r.Chance(1, 2)) codec = CodecConfig::kCodecIdOpus;
    toa = order == 3 && codec == CodecConfig::kCodecIdOpus;
    ch = static_cast<size_t>((order + 1) * (order + 1));
    mx.emplace(AmbisonicsMixer::MakeFromPreset(codec, static_cast<AmbisonicsMixer::Preset>(order), max));
    what = "preset " + std::to_string(order) + " codec " + std::to_string(codec);
    auto cfg = mx->GetAmbisonicsConfig();
    V_CHECK(c, cfg.GetOutputChannelCount() == ch, "preset-channels", what);
    if (toa) {
      auto want = AmbisonicsProjectionConfig::Create(16, 8, 8, ref::kToaDemix);
      V_CHECK(c, cfg == (AmbisonicsConfig{.ambisonics_config = *want}), "preset-projection", what);
      c.Count("presets-projection");
    } else {
      Bytes m; for (size_t i = 0; i < ch; ++i) m.push_back(static_cast<uint8_t>(i));
      auto want = AmbisonicsMonoConfig::Create(static_cast<uint8_t>(ch), m);
      V_CHECK(c, cfg == (AmbisonicsConfig{.ambisonics_config = *want}), "preset-mono", what);
      c.Count("presets-mono");
    }
  } else {
    k.emplace(GenCfg(r, 4));
    ch = k->cfg.GetOutputChannelCount();
    mx.emplace(AmbisonicsMixer::MakeFromAmbisonicsConfig(k->cfg, max));
    what = "config C=" + std::to_string(ch) + " mode " + std::to_string(k->e.amb_mode);
    V_CHECK(c, mx->GetAmbisonicsConfig() == k->cfg, "config-kept", what);
    c.Count("configs-given");
  }
  V_CHECK(c, mx->GetNumChannels() == ch, "channels", what);
  auto labels = mx->GetInputLabels();
  V_CHECK(c, labels.size() == ch, "labels", what);
  for (size_t i = 0; i < ch; ++i) V_CHECK(c, labels[i] == static_cast<ChannelLabel::Label>(ChannelLabel::kA0 + i), "labels", what + " at " + std::to_string(i));
  std::vector<double> mm, dm; for (int16_t v : ref::kToaMix) mm.push_back(v / 32768.0);
  for (int16_t v : ref::kToaDemix) dm.push_back(v / 32768.0);
  int rounds = static_cast<int>(r.Range(1, 6));
  bool flushed = false; size_t last = 0;
  for (int i = 0; i < rounds; ++i) {
    if (!flushed && r.Chance(1, 8)) {
      auto s = mx->Flush();
      V_CHECK(c, s.ok(), "flush", what + " " + s.ToString());
      flushed = true;
      for (auto& o : mx->GetOutputSamplesAsSpan()) V_CHECK(c, o.empty(), "flush-output", what);
      V_CHECK(c, !mx->Flush().ok(), "flush-twice", what);
      continue;
    }
    size_t t = r.Below(max + 1);
    Samples in = GenSamples(r, ch, t);
    int lie = static_cast<int>(r.Below(12));
    bool bad = flushed;
    if (lie == 0) { in.push_back(std::vector<double>(t)); bad = true; }
    if (lie == 1) { in.pop_back(); bad = true; }
    if (lie == 2 && ch > 1) { in[r.Below(ch)].push_back(0.5); bad = true; }
    if (lie == 3) { for (auto& v : in) v.resize(max + 1 + r.Below(3)); bad = true; }
    auto spans = ToSpans(in);
    auto s = mx->PushFrame(absl::MakeConstSpan(spans));
    c.Eval();
    V_CHECK(c, s.ok() == !bad, bad ? "frame-accepted" : "frame-refused", what + " lie " + std::to_string(lie) + " max " + std::to_string(max) + " ticks " + std::to_string(t) + " " + s.ToString());
    if (bad) { c.Count("frames-refused"); continue; }
    auto out = mx->GetOutputSamplesAsSpan();
    V_CHECK(c, out.size() == ch, "output-channels", what);
    for (auto& o : out) V_CHECK(c, o.size() == t, "output-ticks", what + " " + std::to_string(o.size()) + " want " + std::to_string(t) + " last " + std::to_string(last));
    last = t;
    c.Distinct(HashVec(in[0]) ^ Mix(ch + t * 256 + (toa ? 1 : 0)));
    if (!toa) {
      for (size_t q = 0; q < ch; ++q) for (size_t x = 0; x < t; ++x) V_CHECK(c, out[q][x] == in[q][x], "copy", what + " channel " + std::to_string(q) + " tick " + std::to_string(x));
      c.Count("frames-copied");
    } else {
      Samples want, mag;
      Product(in, mm, 16, want, mag);
      for (size_t q = 0; q < ch; ++q) for (size_t x = 0; x < t; ++x) V_CHECK(c, std::fabs(out[q][x] - want[q][x]) <= 1e-13 * mag[q][x], "mixed", what + " channel " + std::to_string(q) + " tick " + std::to_string(x) + " got " + std::to_string(out[q][x]) + " want " + std::to_string(want[q][x]));
      c.Count("frames-mixed");
      // What the config tells a decoder to do gives the input back.
      if (t) {
        Samples back(16, std::vector<double>(t)); std::vector<absl::Span<double>> bs; for (auto& v : back) bs.push_back(absl::MakeSpan(v));
        Samples mixed; for (auto& o : out) mixed.emplace_back(o.begin(), o.end());
        std::vector<double> m2; auto cfg = mx->GetAmbisonicsConfig(); auto dv = *cfg.GetDemixingMatrix(); for (int16_t v : dv) m2.push_back(v / 32768.0);
        auto ms = ToSpans(mixed);
        auto ps = ProjectSamplesToRender(absl::MakeConstSpan(ms), m2, absl::MakeSpan(bs));
        V_CHECK(c, ps.ok(), "project-status", ps.ToString());
        for (size_t x = 0; x < t; ++x) {
          double peak = 0; for (size_t q = 0; q < 16; ++q) peak = std::max(peak, std::fabs(in[q][x]));
          for (size_t q = 0; q < 16; ++q) V_CHECK(c, std::fabs(back[q][x] - in[q][x]) <= 5e-4 * peak + 1e-12, "mix-demix", "channel " + std::to_string(q) + " " + std::to_string(back[q][x]) + " from " + std::to_string(in[q][x]));
        }
        c.Count("frames-demixed");
      }
    }
  }
}

void Project(Ctx& c) {
  Rng& r = c.rng;
  size_t in_ch = r.Range(1, r.Chance(1, 4) ? 30 : 10), out_ch = r.Range(1, r.Chance(1, 4) ? 30 : 10), t = r.Below(50);
  Samples in = GenSamples(r, in_ch, t);
  std::vector<double> m(in_ch * out_ch); for (auto& v : m) v = r.Chance(1, 4) ? 0 : r.Bool() ? static_cast<int16_t>(r.U32()) / 32768.0 : Val(r);
  Samples out(out_ch, std::vector<double>(t)); for (auto& v : out) for (auto& x : v) x = r.Real(-9, 9);  // stale
  int lie = static_cast<int>(r.Below(14)); bool bad = false;
  if (lie == 0) { in.clear(); bad = true; }
  if (lie == 1) { m.clear(); bad = true; }
  if (lie == 2 && in_ch > 1) { in[r.Below(in_ch - 1) + 1].resize(t + 1); bad = true; }
  if (lie == 3 && in_ch > 1) { m.resize(m.size() + r.Range(1, static_cast<int64_t>(in_ch) - 1)); bad = true; }
  if (lie == 4) { out.emplace_back(t); bad = true; }
  if (lie == 5) { out[r.Below(out_ch)].resize(t + 1); bad = true; }
  if (lie == 6) { m.resize(m.size() + in_ch, 0.5); bad = true; }
  if (lie == 7) { out.pop_back(); bad = true; }
  auto spans = ToSpans(in);
  std::vector<absl::Span<double>> os; for (auto& v : out) os.push_back(absl::MakeSpan(v));
  auto s = ProjectSamplesToRender(absl::MakeConstSpan(spans), m, absl::MakeSpan(os));
  c.Eval(); c.Distinct(HashVec(m) ^ Mix(in_ch * 1000 + out_ch) ^ t);
  std::string what = std::to_string(in_ch) + " to " + std::to_string(out_ch) + " channels, " + std::to_string(t) + " ticks, lie " + std::to_string(lie);
  V_CHECK(c, s.ok() == !bad, bad ? "project-accepted" : "project-refused", what + " " + s.ToString());
  if (bad) { c.Count("projections-refused"); return; }
  Samples want, mag; Product(in, m, out_ch, want, mag);
  for (size_t q = 0; q < out_ch; ++q) for (size_t x = 0; x < t; ++x) V_CHECK(c, std::fabs(out[q][x] - want[q][x]) <= 1e-13 * mag[q][x], "projected", what + " channel " + std::to_string(q) + " tick " + std::to_string(x) + " got " + std::to_string(out[q][x]) + " want " + std::to_string(want[q][x]));
  c.Count("projections");
}

// Which channel carries which ambisonics channel number.
void Labels(Ctx& c) {
  Rng& r = c.rng;
  Cfg k = GenCfg(r, 4);
  size_t N = k.e.N;
  std::vector<uint32_t> subs; std::set<uint32_t> used; while (subs.size() < N) { uint32_t v = static_cast<uint32_t>(r.Below(500)); if (used.insert(v).second) subs.push_back(v); }
  SubstreamIdLabelsMap map;
  std::vector<std::vector<ChannelLabel::Label>> per(N);
  int next = 0;
  for (size_t i = 0; i < N; ++i) {
    int n = k.e.amb_mode == 1 && i < k.e.M ? 2 : 1;
    for (int j = 0; j < n; ++j) per[i].push_back(static_cast<ChannelLabel::Label>(ChannelLabel::kA0 + next++));
  }
  r.Shuffle(per);  // only the labels' own map counts, except that projection wants N + M of them
  for (size_t i = 0; i < N; ++i) map[subs[i]] = {per[i].begin(), per[i].end()};
  int lie = static_cast<int>(r.Below(10)); bool bad = false;
  std::vector<uint32_t> given = subs;
  if (lie == 0) { given.push_back(1000); bad = true; }
  if (lie == 1) { given.pop_back(); bad = true; }
  if (lie == 2) { map.erase(subs[r.Below(N)]); bad = true; }
  if (lie == 3) { map[subs[r.Below(N)]].push_back(ChannelLabel::kA24); bad = true; }
  std::vector<ChannelLabel::Label> got;
  auto s = GetChannelLabelsForAmbisonics(k.cfg, given, map, got);
  c.Eval(); c.Distinct(HashVec(k.e.mapping) ^ Mix(N * 1000 + k.e.M) ^ HashVec(subs));
  std::string what = "mode " + std::to_string(k.e.amb_mode) + " N=" + std::to_string(N) + " M=" + std::to_string(k.e.M) + " lie " + std::to_string(lie) + " mapping " + Hex(k.e.mapping);
  V_CHECK(c, s.ok() == !bad, bad ? "labels-accepted" : "labels-refused", what + " " + s.ToString());
  if (bad) { c.Count("labels-refused"); return; }
  std::vector<ChannelLabel::Label> want;
  if (k.e.amb_mode == 0) for (uint8_t v : k.e.mapping) want.push_back(v == 255 ? ChannelLabel::kOmitted : per[v][0]);
  else for (size_t i = 0; i < N; ++i) want.insert(want.end(), per[i].begin(), per[i].end());
  V_CHECK(c, got == want, "labels-order", what);
  c.Count("labels-given");
}

}  // namespace
V_MAIN({{"mono", 36000, 200000, Mono}, {"projection", 18000, 100000, Projection}, {"next", 8, 8, Next}, {"element", 12000, 60000, ElementObu}, {"mixer", 24000, 150000, Mixer}, {"project", 24000, 150000, Project}, {"labels", 12000, 60000, Labels}})
