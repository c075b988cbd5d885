// C22: separate objects in several threads. Every case is a process of its own (so that tables filled on first use are
// filled under contention), in which threads started together run the same or different jobs on objects of their own;
// ThreadSanitizer watches, and every job's result has to be that of the same job run alone afterwards.
#include <sys/wait.h>

#include <atomic>
#include <filesystem>
#include <fstream>
#include <thread>

#include "harness/decwork.h"
#include "harness/encwork.h"
#include "iamf/cli/descriptor_obu_parser.h"
#include "iamf/cli/itu_1770_4/loudness_calculator_factory_itu_1770_4.h"
#include "iamf/cli/layout_renderer_factory.h"
#include "iamf/cli/obu_sequencer_iamf.h"
#include "iamf/cli/probe.h"
#include "iamf/cli/probe_json.h"
#include "iamf/cli/renderer/gains/get_gains.h"
#include "iamf/cli/wav_reader.h"
#include "iamf/cli/wav_writer.h"
#include "iamf/common/leb_generator.h"
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_thread_leaks=0:die_after_fork=0"; }
using namespace vlib;
using namespace decwork;
using namespace iamf_tools;
using ref::Bytes;
namespace {
Bytes Slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
void Spit(const std::string& p, const Bytes& b) { std::ofstream f(p, std::ios::binary); f.write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size())); }
struct Hash { uint64_t h = 1; void Add(uint64_t x) { h = Mix(h ^ x) + 1; } void Add(const Bytes& b) { Add(HashVec(b) ^ b.size()); } };

// Every job is a function of its seed; `dir` is its own directory.
uint64_t Decode(Rng& r, const std::string&) {
  Hash h;
  ref::GenOpt g; g.max_elems = 3; g.max_frame = r.Chance(1, 3) ? 64 : 24; g.max_tus = 4; g.expanded_all = true; g.lossy = r.Bool();
  ref::Stream st = ref::GenStream(r, g);
  for (int n = 0; n < 2; ++n) {
    Cfg k = GenCfg(r, st);
    auto sel = ref::Select(st, k.q);
    size_t cap = size_t{st.codec.nsamples} * 32 * 4;
    std::unique_ptr<D> d = r.Bool() ? F::CreateFromDescriptors(Settings(k), st.descriptors.data(), st.descriptors.size()) : nullptr;
    bool from = d != nullptr;
    if (!d) d = F::Create(Settings(k));
    if (!d) { h.Add(3); continue; }
    auto drain = [&] { while (d->IsTemporalUnitAvailable()) { auto o = Take(*d, cap); h.Add(o.ok); h.Add(o.data); if (!o.ok) break; } };
    if (!from) { h.Add(d->Decode(st.descriptors.data(), st.descriptors.size()).ok()); }
    for (auto& u : st.tu_bytes) { h.Add(d->Decode(u.data(), u.size()).ok()); drain(); }
    h.Add(d->SignalEndOfDecoding().ok()); drain();
    api::SelectedMix m{}; h.Add(d->GetOutputMix(m).ok()); h.Add(m.mix_presentation_id); h.Add(static_cast<uint64_t>(m.output_layout));
    (void)sel;
  }
  return h.h;
}
uint64_t Encode(Rng& r, const std::string& dir) {
  Hash h;
  enc::JobOpt o; o.max_chunks = 3; o.max_frame = 40; o.lossy_scalable = r.Chance(1, 3);
  enc::Job j = enc::GenJob(r, o);
  auto w = enc::Expect(j);
  enc::pb::UserMetadata u = enc::Metadata(j);
  bool full = r.Bool();
  LayoutRendererFactory renderers(TrimmingSettings{});
  LoudnessCalculatorFactoryItu1770_4 loudness;
  auto wavs = [&](DecodedUleb128 mix, int s, int l, const Layout&, int ch, int rate, int bits, size_t n) -> std::unique_ptr<SampleProcessorBase> {
    return WavWriter::Create(dir + "/o" + std::to_string(mix) + "_" + std::to_string(s) + "_" + std::to_string(l) + ".wav", ch, rate, bits <= 16 ? 16 : bits <= 24 ? 24 : 32, n);
  };
  auto files = [&] { std::vector<std::unique_ptr<ObuSequencerBase>> v; v.push_back(std::make_unique<ObuSequencerIamf>(dir + "/o.iamf", true, *LebGenerator::Create())); return v; };
  {
    auto e = full ? enc::Enc::Create(u, &renderers, &loudness, wavs, files) : enc::MakeEncoder(u);
    h.Add(e.ok());
    if (!e.ok()) return h.h;
    auto got = enc::Run(**e, j, w.ok ? w.frames : 4);
    h.Add(got.status.ok()); h.Add(got.first_descriptors); h.Add(got.descriptors);
    for (auto& t : got.tus) h.Add(t);
  }
  if (full) {
    std::vector<std::string> names; for (auto& f : std::filesystem::directory_iterator(dir)) names.push_back(f.path().filename());
    std::sort(names.begin(), names.end());
    for (auto& f : names) { h.Add(HashStr(f)); h.Add(Slurp(dir + "/" + f)); }
  }
  return h.h;
}
// The report lists what is in hash maps in their order: only the items count.
uint64_t Items(const std::string& json) {
  std::vector<std::string> v(1);
  for (char ch : json) if (strchr("{}[],", ch)) v.emplace_back(); else if (!isspace(static_cast<unsigned char>(ch))) v.back() += ch;
  std::sort(v.begin(), v.end());
  uint64_t h = 1; for (auto& x : v) h = Mix(h ^ HashStr(x));
  return h;
}
uint64_t ProbeIt(Rng& r, const std::string& dir) {
  Hash h;
  ref::GenOpt g; g.max_elems = 3; g.max_frame = 24; g.max_tus = 4; g.lossy = true; g.expanded_all = true;
  ref::Stream st = ref::GenStream(r, g);
  Bytes all = st.All();
  if (r.Chance(1, 4) && !all.empty()) all[r.Below(all.size())] ^= static_cast<uint8_t>(1 << r.Below(8));
  ProbeOptions o; o.scan_mode = r.Bool() ? ScanMode::kScanFull : ScanMode::kScanCounts;
  auto p = Probe(absl::MakeConstSpan(all), o);
  h.Add(p.ok()); if (p.ok()) h.Add(Items(ProbeReportToJson(*p)));
  Spit(dir + "/p.iamf", all);
  auto q = ProbeFile(dir + "/p.iamf", o);
  h.Add(q.ok()); if (q.ok()) h.Add(Items(ProbeReportToJson(*q)));
  return h.h;
}
uint64_t Gains(Rng& r, const std::string&) {
  Hash h;
  static const char* const ins[] = {"A0", "A1", "A2", "A3", "A4", "0+1+0", "0+2+0", "0+5+0", "2+5+0", "4+5+0", "0+7+0", "2+7+0", "4+7+0", "9+10+3", "7.1.2", "3.1.2", "Stereo", "nothing"};
  for (int k = 0; k < 12; ++k) {
    auto g = GetGainsForLayoutPair(ins[r.Below(18)], ins[r.Below(18)]);
    h.Add(g.ok()); if (g.ok()) for (auto& v : *g) h.Add(HashVec(v));
  }
  return h.h;
}
uint64_t Wav(Rng& r, const std::string& dir) {
  Hash h;
  int ch = static_cast<int>(r.Range(1, 12)), bits = r.Pick(std::vector<int>{16, 24, 32}); size_t n = r.Range(1, 64);
  std::string p = dir + "/w.wav";
  {
    auto w = WavWriter::Create(p, ch, 48000, bits, n);
    if (!w) return 7;
    for (int k = 0; k < 4; ++k) {
      ref::Mat m(ch, std::vector<double>(r.Below(n + 1))); for (auto& v : m) for (auto& x : v) x = 2.2 * r.Unit() - 1.1;
      std::vector<absl::Span<const double>> s; for (auto& v : m) s.push_back(absl::MakeConstSpan(v));
      h.Add(w->PushFrame(absl::MakeConstSpan(s)).ok());
    }
    h.Add(w->Flush().ok());
  }
  h.Add(Slurp(p));
  auto rd = WavReader::CreateFromFile(p, n);
  h.Add(rd.ok());
  if (rd.ok()) while (rd->ReadFrame()) for (auto& v : rd->buffers_) h.Add(HashVec(v));
  return h.h;
}
uint64_t Parse(Rng& r, const std::string&) {
  Hash h;
  ref::GenOpt g; g.max_elems = 3; g.max_mixes = 3; g.lossy = true; g.enhanced = true; g.expanded_all = true;
  ref::Stream st = ref::GenStream(r, g);
  Bytes all = st.All();
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(all));
  bool insufficient = false;
  auto d = DescriptorObuParser().ProcessDescriptorObus(st.tus.empty(), *rb, insufficient);
  h.Add(d.ok());
  if (!d.ok()) return h.h;
  WriteBitBuffer wb(0, *LebGenerator::Create());
  h.Add(d->ia_sequence_header.ValidateAndWriteObu(wb).ok());
  // The maps have no order.
  std::vector<uint32_t> ids; for (auto& [id, o] : d->codec_config_obus) ids.push_back(id);
  std::sort(ids.begin(), ids.end()); for (auto id : ids) h.Add(d->codec_config_obus.at(id).ValidateAndWriteObu(wb).ok());
  ids.clear(); for (auto& [id, o] : d->audio_elements) ids.push_back(id);
  std::sort(ids.begin(), ids.end()); for (auto id : ids) h.Add(d->audio_elements.at(id).obu.ValidateAndWriteObu(wb).ok());
  for (auto& m : d->mix_presentation_obus) h.Add(m.ValidateAndWriteObu(wb).ok());
  h.Add(wb.bit_buffer());
  return h.h;
}
struct Job { const char* name; uint64_t (*run)(Rng&, const std::string&); };
const Job kJobs[] = {{"decode", Decode}, {"encode", Encode}, {"decode", Decode}, {"probe", ProbeIt}, {"gains", Gains}, {"wav", Wav}, {"parse", Parse}, {"encode", Encode}};
constexpr int kKinds = sizeof kJobs / sizeof kJobs[0];

struct Plan { int kind; uint64_t seed; uint64_t hash = 0; };
uint64_t Do(const Plan& p, const std::string& dir) {
  std::filesystem::create_directories(dir);
  Rng r(p.seed);
  uint64_t h = kJobs[p.kind].run(r, dir);
  std::filesystem::remove_all(dir);
  return h;
}
// In the child: runs the plans of all threads at once, then each alone.
void Child(std::vector<std::vector<Plan>> plans, const std::string& dir, uint64_t jitter, FILE* out) {
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  const int n = static_cast<int>(plans.size());
  for (int t = 0; t < n; ++t) ts.emplace_back([&, t] {
    Rng r(Mix(jitter + t));
    // Relaxed, so that the start orders nothing between the threads.
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < n) {}
    for (uint64_t spin = jitter % 3 ? r.Below(2000) : 0, k = 0; k < spin; ++k) std::atomic_signal_fence(std::memory_order_seq_cst);
    for (size_t k = 0; k < plans[t].size(); ++k) { plans[t][k].hash = Do(plans[t][k], dir + "/t" + std::to_string(t)); if (r.Chance(1, 3)) std::this_thread::yield(); }
  });
  for (auto& t : ts) t.join();
  for (int t = 0; t < n; ++t) for (auto& p : plans[t]) {
    uint64_t h = Do(p, dir + "/alone");
    fprintf(out, "job %s %d\n", kJobs[p.kind].name, h == p.hash);
    if (h != p.hash) fprintf(out, "differs %s seed %llu of thread %d\n", kJobs[p.kind].name, (unsigned long long)p.seed, t);
  }
  fprintf(out, "end\n");
}
void Threads(Ctx& c) {
  Rng& r = c.rng;
  int n = static_cast<int>(r.Range(2, 6)), len = static_cast<int>(r.Range(1, 4));
  int style = static_cast<int>(r.Below(3));  // all the same job, the same kind with other contents, anything
  std::vector<std::vector<Plan>> plans(n);
  std::vector<Plan> common; for (int k = 0; k < len; ++k) common.push_back({static_cast<int>((c.index + k * 3) % kKinds), r.U64()});
  for (auto& v : plans) for (int k = 0; k < len; ++k) v.push_back(style == 0 ? common[k] : style == 1 ? Plan{common[k].kind, r.U64()} : Plan{static_cast<int>(r.Below(kKinds)), r.U64()});
  std::ostringstream what; what << n << " threads, style " << style << ":"; for (auto& p : plans[0]) what << " " << kJobs[p.kind].name;
  c.Eval();
  std::string dir = c.scratch + "/race" + std::to_string(c.index), res = dir + ".out", err = dir + ".err";
  std::filesystem::create_directories(dir);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) HarnessBug("fork");
  if (pid == 0) {
    if (!freopen(err.c_str(), "w", stderr)) _exit(3);
    FILE* f = fopen(res.c_str(), "w");
    if (!f) _exit(3);
    alarm(200);
    Child(plans, dir, r.U64(), f);
    fclose(f);
    _exit(0);
  }
  int st = 0;
  if (waitpid(pid, &st, 0) != pid) HarnessBug("waitpid");
  Bytes e = Slurp(err), o = Slurp(res);
  std::error_code ec; std::filesystem::remove_all(dir, ec); std::filesystem::remove(err, ec); std::filesystem::remove(res, ec);
  std::string report(e.begin(), e.end()), lines(o.begin(), o.end());
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { c.Fail("hang", what.str()); return; }
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    // Name the functions at fault.
    std::istringstream in(report); std::string l, key = "crash", text; int frames = 0;
    size_t from = report.find("WARNING: ThreadSanitizer");
    if (from != std::string::npos) { key = "race"; std::istringstream w(report.substr(from)); while (std::getline(w, l) && text.size() < 3000) { text += l + "\n"; if (frames < 1 && l.find("    #") != std::string::npos && l.find("/repo/") != std::string::npos) { size_t a = l.find("/repo/"); size_t b = l.find(':', a); key += ":" + l.substr(a + 6, b - a - 6); ++frames; } } }
    else text = report.substr(report.size() > 2500 ? report.size() - 2500 : 0);
    c.Fail(key, what.str() + "\n" + text); return;
  }
  std::istringstream in(lines); std::string l; bool end = false;
  while (std::getline(in, l)) {
    if (l == "end") end = true;
    else if (l.rfind("differs ", 0) == 0) { c.Fail("differs " + l.substr(8, l.find(' ', 8) - 8), what.str() + " " + l); return; }
    else { c.Count("jobs-" + l.substr(4, l.find(' ', 4) - 4)); c.Distinct(HashStr(what.str() + l) ^ plans[0][0].seed); }
  }
  V_CHECK(c, end, "no-end", what.str());
  c.Count("processes"); c.Count("threads", n); c.Count("style-" + std::to_string(style));
  if (c.WantSample()) c.Sample(what.str());
}
}  // namespace
V_MAIN({{"threads", 400, 6000, Threads}})
