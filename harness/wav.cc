// C11: WAV files written and read, against an independent RIFF writer and parser, with write failures injected
// by a file size limit; and the sample provider that feeds the encoder.
#include <signal.h>
#include <sys/resource.h>
#include <unistd.h>
#include <cmath>
#include <filesystem>
#include <fstream>
#include "harness/encwork.h"
#include "iamf/cli/descriptor_obu_parser.h"
#include "iamf/cli/descriptor_obus.h"
#include "iamf/cli/proto/audio_frame.pb.h"
#include "iamf/cli/wav_reader.h"
#include "iamf/cli/wav_sample_provider.h"
#include "iamf/cli/wav_writer.h"
#include "iamf/common/read_bit_buffer.h"
extern int vext_wav_fail_header;
using namespace vlib;
using namespace iamf_tools;
using ref::Bytes;
namespace pb = iamf_tools_cli_proto;
namespace {
typedef std::vector<std::vector<double>> Frame;
Bytes Slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
uint32_t Le(const Bytes& b, size_t at, int n) { uint32_t v = 0; for (int k = 0; k < n; ++k) v |= static_cast<uint32_t>(b[at + k]) << 8 * k; return v; }
void Put(Bytes& b, uint64_t v, int n) { for (int k = 0; k < n; ++k) b.push_back(static_cast<uint8_t>(v >> 8 * k)); }
void PutS(Bytes& b, const char* s) { while (*s) b.push_back(static_cast<uint8_t>(*s++)); }
std::vector<absl::Span<const double>> Spans(const Frame& f) { std::vector<absl::Span<const double>> s; for (auto& v : f) s.push_back(absl::MakeConstSpan(v)); return s; }
// A full scale sample as an integer of the given depth.
int64_t Quantize(double x, int bits) {
  long double y = std::min<long double>(1, std::max<long double>(-1, x)) * 2147483648.0L;
  int64_t v = static_cast<int64_t>(truncl(y));
  v = std::min<int64_t>(v, 2147483647);
  return v >> (32 - bits);
}
double Sample(Rng& r) {
  switch (r.Below(12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return -1;
    case 3: return r.Real(-4, 4);
    case 4: return std::ldexp(r.Real(-1, 1), -static_cast<int>(r.Below(34)));
    case 5: return std::ldexp(static_cast<double>(static_cast<int64_t>(r.U64() % 65536) - 32768), -15);
    case 6: return std::nextafter(1.0, 0.0);
    case 7: return 1e300 * (r.Bool() ? 1 : -1);
    default: return r.Real(-1, 1);
  }
}
// Compares a whole file with the interleaved samples it has to hold.
std::string CheckFile(const Bytes& f, int ch, int rate, int bits, const std::vector<int64_t>& want, bool header) {
  size_t bytes = bits / 8, data = want.size() * bytes, off = header ? 44 : 0;
  if (f.size() != off + data) return "size " + std::to_string(f.size()) + " instead of " + std::to_string(off + data);
  if (header) {
    Bytes h; PutS(h, "RIFF"); Put(h, 36 + data, 4); PutS(h, "WAVEfmt "); Put(h, 16, 4); Put(h, 1, 2); Put(h, ch, 2); Put(h, rate, 4);
    Put(h, static_cast<uint64_t>(rate) * bytes * ch, 4); Put(h, bytes * ch, 2); Put(h, bits, 2); PutS(h, "data"); Put(h, data, 4);
    if (!std::equal(h.begin(), h.end(), f.begin())) return "header " + Hex(Bytes(f.begin(), f.begin() + 44), 44) + " instead of " + Hex(h, 44);
  }
  for (size_t i = 0; i < want.size(); ++i) {
    uint32_t g = Le(f, off + i * bytes, static_cast<int>(bytes)), w = static_cast<uint32_t>(want[i]) & (bits == 32 ? ~0u : (1u << bits) - 1);
    if (g != w) return "sample " + std::to_string(i) + ": " + std::to_string(g) + " instead of " + std::to_string(w);
  }
  return "";
}
void Write(Ctx& c) {
  Rng& r = c.rng;
  int ch = r.Chance(1, 4) ? 1 : static_cast<int>(r.Range(1, 24)), rate = r.Pick(std::vector<int>{8000, 16000, 44100, 48000, 96000, 192000, 1, 12345});
  int bits = r.Pick(std::vector<int>{16, 24, 32});
  size_t frame = static_cast<size_t>(r.Chance(1, 4) ? r.Range(1, 3) : r.Range(1, 300));
  bool header = !r.Chance(1, 6);
  std::string path = c.scratch + "/w" + std::to_string(c.index) + ".wav";
  c.Eval();
  std::ostringstream what; what << ch << " channels " << rate << " Hz " << bits << " bits, frames of " << frame << (header ? "" : ", no header") << ":";
  if (r.Chance(1, 25)) {
    int bad = r.Pick(std::vector<int>{0, 8, 20, 12, 64, 25, -16});
    auto w = WavWriter::Create(path, ch, rate, bad, frame, header);
    V_CHECK(c, w == nullptr, "depth-accepted", bad);
    V_CHECK(c, !std::filesystem::exists(path), "refused-file-left", bad);
    V_CHECK(c, WavWriter::Create(c.scratch + "/none/a.wav", ch, rate, bits, frame, header) == nullptr, "no-directory", "");
    auto fds = [] { size_t n = 0; for ([[maybe_unused]] auto& e : std::filesystem::directory_iterator("/proc/self/fd")) ++n; return n; };
    size_t before = fds();
    vext_wav_fail_header = 1;
    auto f = WavWriter::Create(path, ch, rate, bits, frame, true);
    vext_wav_fail_header = 0;
    V_CHECK(c, f == nullptr && !std::filesystem::exists(path) && fds() == before, "header-failed", (f == nullptr) << " file left " << std::filesystem::exists(path) << " descriptors " << before << " -> " << fds());
    c.Count("create-refused"); return;
  }
  { std::ofstream old(path, std::ios::binary); Bytes junk = r.Bytes(r.Below(500)); old.write(reinterpret_cast<char*>(junk.data()), static_cast<std::streamsize>(junk.size())); }  // an older file is replaced
  auto w = WavWriter::Create(path, ch, rate, bits, frame, header);
  V_CHECK(c, w != nullptr, "create", what.str());
  V_CHECK(c, w->bit_depth() == bits, "depth", w->bit_depth());
  std::vector<int64_t> want;
  for (int n = static_cast<int>(r.Below(9)), k = 0; k < n; ++k) {
    size_t t = r.Chance(1, 3) ? frame : r.Chance(1, 8) ? 0 : static_cast<size_t>(r.Range(1, static_cast<int64_t>(frame)));
    if (r.Chance(1, 3)) {  // raw bytes
      Bytes raw = r.Bytes(t * ch * bits / 8);
      int bad = r.Chance(1, 4) ? static_cast<int>(r.Range(1, 2)) : 0;
      if (bad == 1) { size_t extra = r.Range(1, std::max(2, ch * bits / 8 - 1)); if (extra % (ch * bits / 8) == 0) --extra; if (!extra) bad = 0; for (size_t i = 0; i < extra; ++i) raw.push_back(1); }
      if (bad == 2) raw = r.Bytes((frame + r.Range(1, 5)) * ch * bits / 8);
      what << " raw " << raw.size();
      auto s = w->WritePcmSamples(absl::MakeConstSpan(raw));
      V_CHECK(c, s.ok() == !bad, bad ? "raw-accepted" : "raw-refused", what.str() << " " << s);
      c.Count(bad ? "raw-refused" : "raw-writes");
      if (!bad) for (size_t i = 0; i < raw.size(); i += bits / 8) want.push_back(Le(raw, i, bits / 8));
      continue;
    }
    Frame f(ch, std::vector<double>(t));
    for (auto& v : f) for (auto& x : v) x = Sample(r);
    int bad = r.Chance(1, 4) ? static_cast<int>(r.Range(1, 4)) : 0;
    if (bad == 1) f.emplace_back(t);
    if (bad == 2) for (auto& v : f) v.resize(frame + 1 + r.Below(3));
    if (bad == 3) { if (ch == 1) bad = 0; else f[r.Below(ch)].push_back(0.5); }
    if (bad == 4) { if (t == 0) bad = 0; else f[r.Below(ch)][r.Below(t)] = r.Bool() ? std::nan("") : INFINITY; }
    what << " push " << t << (bad ? " bad" + std::to_string(bad) : "");
    auto sp = Spans(f);
    auto s = w->PushFrame(absl::MakeConstSpan(sp));
    V_CHECK(c, s.ok() == !bad, bad ? "push-accepted" : "push-refused", what.str() << " " << s);
    for (auto& o : w->GetOutputSamplesAsSpan()) V_CHECK(c, o.empty(), "output-samples", what.str());
    c.Count(bad ? "push-refused" : "pushes");
    if (!bad) for (size_t i = 0; i < t; ++i) for (int k2 = 0; k2 < ch; ++k2) { want.push_back(Quantize(f[k2][i], bits)); c.Count("samples"); if (std::abs(f[k2][i]) >= 1) c.Count("clipped-samples"); }
  }
  int end = static_cast<int>(r.Below(4));
  if (end == 0) {
    if (r.Chance(1, 4)) { V_CHECK(c, w->Flush().ok(), "flush-before-abort", what.str()); c.Count("flushed-then-aborted"); }
    w->Abort();
    if (r.Chance(1, 4)) { w->Abort(); c.Count("aborted-twice"); }
    V_CHECK(c, !std::filesystem::exists(path), "abort-file-left", what.str());
    Frame f(ch, std::vector<double>(1, 0.25));
    auto sp = Spans(f);
    V_CHECK(c, !w->PushFrame(absl::MakeConstSpan(sp)).ok(), "push-after-abort", what.str());
    Bytes raw(ch * bits / 8);
    V_CHECK(c, !w->WritePcmSamples(absl::MakeConstSpan(raw)).ok(), "raw-after-abort", what.str());
    if (r.Bool()) (void)w->Flush();
    w.reset();
    V_CHECK(c, !std::filesystem::exists(path), "abort-file-returned", what.str());
    c.Count("aborted"); return;
  }
  if (end == 1) w.reset();
  else {
    auto s = w->Flush();
    V_CHECK(c, s.ok(), "flush", what.str() << " " << s);
    auto d = CheckFile(Slurp(path), ch, rate, bits, want, header);
    V_CHECK(c, d.empty(), "flushed-file", what.str() << ": " << d);
    if (end == 3) {
      Frame f(ch, std::vector<double>(1, 0.25));
      auto sp = Spans(f);
      V_CHECK(c, !w->PushFrame(absl::MakeConstSpan(sp)).ok(), "push-after-flush", what.str());
      Bytes raw(ch * bits / 8);
      V_CHECK(c, !w->WritePcmSamples(absl::MakeConstSpan(raw)).ok(), "raw-after-flush", what.str());
      V_CHECK(c, !w->Flush().ok(), "flush-twice", what.str());
    }
    w.reset();
  }
  auto d = CheckFile(Slurp(path), ch, rate, bits, want, header);
  V_CHECK(c, d.empty(), "file", what.str() << ": " << d);
  c.Count("files"); c.Distinct(HashStr(what.str()));
  if (c.WantSample()) c.Sample(what.str());
  if (!header) { std::filesystem::remove(path); return; }
  // And back.
  size_t n = static_cast<size_t>(r.Range(1, 64));
  auto first = WavReader::CreateFromFile(path, n);
  V_CHECK(c, first.ok(), "read-back", what.str() << " " << first.status());
  auto rd = std::make_unique<WavReader>(std::move(*first));
  V_CHECK(c, rd->num_channels() == ch && rd->sample_rate_hz() == rate && rd->bit_depth() == bits, "read-format", what.str() << " " << rd->num_channels() << " " << rd->sample_rate_hz() << " " << rd->bit_depth());
  size_t at = 0;
  for (;;) {
    V_CHECK(c, rd->remaining_samples() == static_cast<int>(want.size() - at), "remaining", what.str() << ": " << rd->remaining_samples() << " at " << at);
    if (r.Chance(1, 5)) { rd = std::make_unique<WavReader>(std::move(*rd)); c.Count("moves"); }
    size_t g = rd->ReadFrame(), e = std::min(n * ch, want.size() - at);
    V_CHECK(c, g == e, "read-count", what.str() << ": " << g << " instead of " << e);
    if (!g) break;
    for (size_t i = 0; i < g; ++i) { int32_t x = static_cast<int32_t>(static_cast<uint32_t>(want[at + i]) << (32 - bits)); V_CHECK(c, rd->buffers_[i % ch][i / ch] == x, "read-sample", what.str() << " at " << at + i); }
    at += g;
    c.Count("read-frames");
  }
  std::filesystem::remove(path);
}
// Writing into a file that may not grow beyond some size: everything reported fine means everything is there.
void Full(Ctx& c) {
  Rng& r = c.rng;
  int ch = static_cast<int>(r.Range(1, 6)), bits = r.Pick(std::vector<int>{16, 24, 32}), rate = 48000;
  size_t frame = static_cast<size_t>(r.Range(1, 400));
  int pushes = static_cast<int>(r.Range(0, 10));
  size_t total = 44 + pushes * frame * ch * bits / 8, limit = r.Chance(1, 4) ? total : r.Chance(1, 3) ? r.Below(4096) : static_cast<size_t>(r.Below(total + 1));
  std::string path = c.scratch + "/f" + std::to_string(c.index) + ".wav";
  signal(SIGXFSZ, SIG_IGN);
  rlimit old; getrlimit(RLIMIT_FSIZE, &old);
  std::vector<int64_t> want;
  bool ok = true, flush_ok = false; int kind = static_cast<int>(r.Below(4));
  std::vector<Frame> frames;
  for (int k = 0; k < pushes; ++k) { Frame f(ch, std::vector<double>(frame)); for (auto& v : f) for (auto& x : v) x = r.Real(-1, 1); frames.push_back(f); }
  c.Eval();
  fflush(nullptr);
  {
    auto w = WavWriter::Create(path, ch, rate, bits, frame);
    rlimit l = old; l.rlim_cur = limit; setrlimit(RLIMIT_FSIZE, &l);
    for (auto& f : frames) {
      auto sp = Spans(f);
      if (!w->PushFrame(absl::MakeConstSpan(sp)).ok()) { ok = false; break; }
      for (size_t i = 0; i < frame; ++i) for (int k = 0; k < ch; ++k) want.push_back(Quantize(f[k][i], bits));
    }
    if (kind == 0) { w->Abort(); } else flush_ok = w->Flush().ok();
    w.reset();
    setrlimit(RLIMIT_FSIZE, &old);
  }
  std::ostringstream what; what << ch << " channels " << bits << " bits, " << pushes << " frames of " << frame << ", room for " << limit << " of " << total;
  if (kind == 0) { V_CHECK(c, !std::filesystem::exists(path), "full-abort-file-left", what.str()); c.Count("full-aborted"); return; }
  if (ok && flush_ok) {
    auto d = CheckFile(Slurp(path), ch, rate, bits, want, true);
    V_CHECK(c, d.empty(), "full-reported-fine", what.str() << ": " << d);
    c.Count("full-fine");
  } else c.Count("full-reported");
  if (limit >= total) V_CHECK(c, ok && flush_ok, "full-refused", what.str());
  if (limit < total && limit > 44) c.Count("full-short");
  c.Distinct(HashStr(what.str()));
  std::filesystem::remove(path);
}
struct Src { int ch, rate, bits; bool flt; std::vector<uint64_t> raw; };  // interleaved raw samples
Bytes File(Rng& r, const Src& s, size_t declared, size_t present, bool ext) {
  Bytes b; PutS(b, "RIFF"); Put(b, 0, 4); PutS(b, "WAVE");
  auto junk = [&] { if (r.Chance(1, 3)) { size_t n = r.Below(40); PutS(b, r.Bool() ? "LIST" : "junk"); Put(b, n, 4); auto x = r.Bytes(n + n % 2); b.insert(b.end(), x.begin(), x.end()); } };
  junk();
  PutS(b, "fmt "); Put(b, ext ? 40 : 16, 4); Put(b, ext ? 0xfffe : s.flt ? 3 : 1, 2); Put(b, s.ch, 2); Put(b, s.rate, 4); Put(b, static_cast<uint64_t>(s.rate) * s.ch * s.bits / 8, 4); Put(b, s.ch * s.bits / 8, 2); Put(b, s.bits, 2);
  if (ext) { Put(b, 22, 2); Put(b, s.bits, 2); Put(b, 0, 4); Put(b, s.flt ? 3 : 1, 2); for (uint8_t x : {0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71}) b.push_back(x); }
  junk();
  PutS(b, "data"); Put(b, declared * s.bits / 8, 4);
  for (size_t i = 0; i < present; ++i) Put(b, s.raw[i], s.bits / 8);
  uint32_t riff = static_cast<uint32_t>(b.size() - 8); for (int k = 0; k < 4; ++k) b[4 + k] = riff >> 8 * k;
  return b;
}
void Store(const std::string& p, const Bytes& b) { std::ofstream f(p, std::ios::binary); f.write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size())); }
uint64_t RawFloat(Rng& r, int bits) {
  double x;
  switch (r.Below(14)) {
    case 0: x = 1; break;
    case 1: x = -1; break;
    case 2: x = std::nan(""); break;
    case 3: x = r.Bool() ? INFINITY : -INFINITY; break;
    case 4: x = 1 - std::ldexp(1, -24); break;
    case 5: x = r.Real(-3, 3); break;
    case 6: x = std::ldexp(r.Real(-1, 1), -static_cast<int>(r.Below(160))); break;
    case 7: x = -0.0; break;
    default: x = r.Real(-1, 1);
  }
  if (bits == 32) { float f = static_cast<float>(x); if (r.Chance(1, 20)) return r.U32(); uint32_t u; memcpy(&u, &f, 4); return u; }
  uint64_t u; memcpy(&u, &x, 8); return u;
}
int32_t Decode(const Src& s, uint64_t raw) {
  if (!s.flt) return static_cast<int32_t>(static_cast<uint32_t>(raw) << (32 - s.bits));
  float x;
  if (s.bits == 32) { uint32_t u = static_cast<uint32_t>(raw); memcpy(&x, &u, 4); } else { double d; memcpy(&d, &raw, 8); x = static_cast<float>(d); }
  if (std::isnan(x)) return 0;
  long double y = static_cast<long double>(x) * 2147483648.0L;
  if (y >= 2147483647.0L) return 2147483647;
  if (y <= -2147483648.0L) return -2147483647 - 1;
  return static_cast<int32_t>(truncl(y));
}
Src GenSrc(Rng& r, int ch, size_t ticks) {
  Src s{ch, r.Pick(std::vector<int>{8000, 44100, 48000, 96000}), 16, r.Chance(1, 2), {}};
  s.bits = s.flt ? (r.Bool() ? 32 : 64) : r.Pick(std::vector<int>{16, 24, 32});
  for (size_t i = 0; i < ticks * ch; ++i) s.raw.push_back(s.flt ? RawFloat(r, s.bits) : r.Chance(1, 6) ? (r.Bool() ? 0x80000000ull >> (32 - s.bits) : 0x7fffffffull >> (32 - s.bits)) : r.U32() >> (32 - s.bits));
  return s;
}
void Read(Ctx& c) {
  Rng& r = c.rng;
  Src s = GenSrc(r, r.Chance(1, 3) ? 1 : static_cast<int>(r.Range(1, 20)), r.Below(150));
  // A file may end before its header says.
  size_t ticks = s.raw.size() / s.ch, present = r.Chance(1, 5) ? static_cast<size_t>(r.Below(ticks + 1)) : ticks;
  size_t cut = present < ticks && r.Chance(1, 2) ? r.Below(s.ch) : 0;  // and in the middle of a tick
  Bytes b = File(r, s, s.raw.size(), present * s.ch + cut, r.Chance(1, 3));
  std::string path = c.scratch + "/r" + std::to_string(c.index) + ".wav";
  Store(path, b);
  c.Eval();
  size_t n = static_cast<size_t>(r.Range(1, 60));
  std::ostringstream what; what << s.ch << " channels " << s.bits << (s.flt ? " float " : " int ") << ticks << " ticks, " << present << " present, frames of " << n;
  V_CHECK(c, !WavReader::CreateFromFile(path, 0).ok(), "frame-zero", "");
  V_CHECK(c, !WavReader::CreateFromFile(path + "x", n).ok(), "no-file", "");
  auto rd = WavReader::CreateFromFile(path, n);
  V_CHECK(c, rd.ok(), "read", what.str() << " " << rd.status());
  V_CHECK(c, rd->num_channels() == s.ch && rd->sample_rate_hz() == s.rate && rd->bit_depth() == s.bits, "format", what.str());
  V_CHECK(c, rd->buffers_.size() == static_cast<size_t>(s.ch), "buffers", rd->buffers_.size());
  size_t at = 0;
  for (int guard = 0; guard < 400; ++guard) {
    size_t g = rd->ReadFrame(), e = std::min(n, present - at / s.ch) * s.ch;
    V_CHECK(c, g == e, "count", what.str() << ": " << g << " instead of " << e << " at " << at);
    if (!g) { V_CHECK(c, rd->remaining_samples() == 0 || present < ticks, "end-remaining", what.str()); break; }
    for (size_t i = 0; i < g; ++i) {
      int32_t w = Decode(s, s.raw[at + i]), x = rd->buffers_[i % s.ch][i / s.ch];
      V_CHECK(c, x == w, "sample", what.str() << " at " << at + i << ": " << x << " instead of " << w << " raw " << std::hex << s.raw[at + i]);
      c.Count(s.flt ? "float-samples" : "int-samples");
    }
    at += g;
  }
  V_CHECK(c, at == present * s.ch, "lost", what.str() << ": " << at);
  if (present < ticks) c.Count("short-files");
  c.Distinct(HashStr(what.str()));
  if (r.Chance(1, 4)) {  // damaged: an error or some samples, no crash
    for (int k = 0, m = static_cast<int>(r.Range(1, 4)); k < m; ++k) { size_t p = r.Below(std::min<size_t>(b.size(), 120)); b[p] = r.U8(); }
    if (r.Chance(1, 3)) b.resize(r.Below(b.size()));
    Store(path, b);
    auto d = WavReader::CreateFromFile(path, 16);
    c.Count(d.ok() ? "damaged-read" : "damaged-refused");
    if (d.ok() && d->num_channels() < 70000) for (int k = 0; k < 40 && d->ReadFrame(); ++k) {}
  }
  std::filesystem::remove(path);
}
void Provider(Ctx& c) {
  Rng& r = c.rng;
  ref::GenOpt o; o.max_tus = 1; o.max_elems = 4; o.max_mixes = 1;
  auto st = ref::GenStream(r, o);
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(st.descriptors));
  bool insufficient = false;
  auto ds = DescriptorObuParser::ProcessDescriptorObus(true, *rb, insufficient);
  if (!ds.ok()) return;
  google::protobuf::RepeatedPtrField<pb::AudioFrameObuMetadata> md;
  struct In { uint32_t id; Src s; std::vector<uint32_t> ids; std::vector<std::string> labels; size_t frame; };
  std::vector<In> ins;
  std::string bad, dir = c.scratch + "/p" + std::to_string(c.index);
  std::filesystem::create_directories(dir);
  struct Clean { std::string d; ~Clean() { std::filesystem::remove_all(d); } } clean{dir};
  for (auto& [id, ae] : ds->audio_elements) {
    if (r.Chance(1, 6)) continue;
    const CodecConfigObu& cc = *ae.codec_config;
    In in; in.id = id; in.frame = cc.GetNumSamplesPerFrame();
    in.s = GenSrc(r, static_cast<int>(r.Range(1, 12)), r.Below(in.frame * 4 + 2));
    // A depth the codec holds and its rate, or (seldom) not.
    int depth = cc.GetBitDepthToMeasureLoudness();
    std::vector<int> fit;
    for (int b : {16, 24, 32}) if (b <= depth) fit.push_back(b);
    if (depth >= 32 && r.Chance(1, 3)) { in.s = GenSrc(r, in.s.ch, r.Below(in.frame * 4 + 2)); in.s.flt = true; in.s.bits = 32; for (auto& v : in.s.raw) v = RawFloat(r, 32); }
    else { in.s.flt = false; in.s.bits = r.Pick(fit); for (auto& v : in.s.raw) v = r.U32() >> (32 - in.s.bits); }
    in.s.rate = static_cast<int>(cc.GetInputSampleRate());
    if (cc.GetInputSampleRate() != cc.GetOutputSampleRate()) bad = "rates";
    if (r.Chance(1, 20) && depth < 32) { in.s.flt = false; in.s.bits = depth < 24 ? r.Pick(std::vector<int>{24, 32}) : 32; for (auto& v : in.s.raw) v = r.U32() >> (32 - in.s.bits); bad = "depth"; }
    if (r.Chance(1, 20)) { in.s.rate += 1; bad = "rate"; }
    std::vector<std::string> all{"L2", "R2", "Mono", "L7", "R7", "C", "LFE", "Ltf4", "A0", "A1", "A7", "A15", "Lss7", "Ls5"};
    r.Shuffle(all);
    int n = static_cast<int>(r.Range(0, 8));
    for (int k = 0; k < n; ++k) { if (all[k] == "Lss7") continue; in.ids.push_back(static_cast<uint32_t>(r.Below(in.s.ch))); in.labels.push_back(all[k]); }
    if (!in.ids.empty() && r.Chance(1, 20)) { in.ids[r.Below(in.ids.size())] = static_cast<uint32_t>(in.s.ch + r.Below(2)); bad = "channel"; }
    if (!in.ids.empty() && r.Chance(1, 20)) { in.ids.push_back(0); in.labels.push_back(in.labels[0]); bad = "label"; }
    auto* m = md.Add();
    m->set_audio_element_id(id); m->set_wav_filename("e" + std::to_string(id) + ".wav");
    for (size_t k = 0; k < in.ids.size(); ++k) { auto* x = m->add_channel_metadatas(); x->set_channel_id(in.ids[k]); x->set_channel_label(enc::ProtoLabel(in.labels[k])); }
    if (r.Chance(1, 30)) { m->set_wav_filename("missing.wav"); bad = "file"; }
    Store(dir + "/e" + std::to_string(id) + ".wav", File(r, in.s, in.s.raw.size(), in.s.raw.size(), r.Chance(1, 4)));
    ins.push_back(in);
  }
  if (!ins.empty() && r.Chance(1, 20)) { *md.Add() = md.Get(0); bad = "duplicate"; }
  uint32_t unknown = 999999;
  if (r.Chance(1, 20)) { auto* m = md.Add(); m->set_audio_element_id(unknown); m->set_wav_filename("e.wav"); bad = "unknown"; }
  c.Eval();
  auto p = WavSampleProvider::Create(md, dir, ds->audio_elements);
  std::string names; for (auto& in : ins) names += " " + std::to_string(in.id) + ":" + std::to_string(in.s.bits) + "x" + std::to_string(in.s.ch) + ":" + std::to_string(in.s.raw.size());
  V_CHECK(c, p.ok() == bad.empty(), bad.empty() ? "provider-refused" : "provider-accepted", bad << names << " " << p.status());
  if (!bad.empty()) { c.Count("provider-refused"); return; }
  LabelSamplesMap out; bool done = false;
  V_CHECK(c, !p->ReadFrames(unknown, out, done).ok(), "unknown-read", "");
  std::map<uint32_t, size_t> at;
  for (int k = 0; k < 24 && !ins.empty(); ++k) {
    const In& in = ins[r.Below(ins.size())];
    size_t& t0 = at[in.id]; size_t ticks = in.s.raw.size() / in.s.ch, n = std::min(in.frame, ticks - t0);
    out[ChannelLabel::kLFE] = {1, 2, 3}; done = r.Bool();
    auto s = p->ReadFrames(in.id, out, done);
    V_CHECK(c, s.ok(), "read-frames", names << " " << s);
    V_CHECK(c, out.size() == in.labels.size(), "labels", names << " " << out.size());
    for (size_t l = 0; l < in.labels.size(); ++l) {
      auto it = out.find(ref::LabelOf(in.labels[l]));
      V_CHECK(c, it != out.end() && it->second.size() == n, "label", names << " " << in.labels[l] << " of " << in.id << " at " << t0);
      for (size_t t = 0; t < n; ++t) V_CHECK(c, it->second[t] == std::ldexp(static_cast<double>(Decode(in.s, in.s.raw[(t0 + t) * in.s.ch + in.ids[l]])), -31), "provided-sample", names << " " << in.labels[l] << " at " << t0 + t);
      c.Count("provided", static_cast<int64_t>(n));
    }
    t0 += n;
    V_CHECK(c, done == (t0 == ticks), "finished", names << ": element " << in.id << " at " << t0 << " of " << ticks << " says " << done);
    c.Count("provider-frames");
  }
  c.Distinct(HashStr(names));
}
}  // namespace
V_MAIN({{"write", 18000, 60000, Write}, {"full", 4500, 15000, Full}, {"read", 15000, 50000, Read}, {"provider", 9000, 30000, Provider}})
