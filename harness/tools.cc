// C36: the encoder and decoder programs as whole programs: files in, files out.
#include <filesystem>
#include <fstream>
#include "harness/decwork.h"
#include "harness/encwork.h"
#include "iamf/cli/iamf_components.h"
#include "iamf/cli/parameter_block_partitioner.h"
#include "iamf/cli/sample_processor_base.h"
#include "src/google/protobuf/text_format.h"
#define main encoder_tool_main
#include "iamf/cli/encoder_main.cc"
#undef main
#define main decoder_tool_main
#include "iamf/cli/decoder_main.cc"
#undef main
using namespace vlib;
using namespace iamf_tools;
namespace fs = std::filesystem;
namespace pb = iamf_tools_cli_proto;
namespace {
using Bytes = ref::Bytes;
Bytes Slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
void Spit(const std::string& p, const Bytes& b) { std::ofstream f(p, std::ios::binary); f.write(reinterpret_cast<const char*>(b.data()), b.size()); }
struct Dir {
  std::string d;
  Dir(Ctx& c, const char* n) : d(c.scratch + "/" + n + std::to_string(c.index)) { fs::remove_all(d); fs::create_directories(d); }
  ~Dir() { std::error_code e; fs::remove_all(d, e); }
};
int Call(int (*f)(int, char**), std::vector<std::string> a) {
  a.insert(a.begin(), "tool");
  std::vector<char*> v; for (auto& s : a) v.push_back(s.data());
  v.push_back(nullptr);
  return f(static_cast<int>(a.size()), v.data());
}
struct Wav { bool ok = false; int ch = 0, bits = 0; uint32_t rate = 0; Bytes data; };
Wav ReadWav(const Bytes& b) {
  Wav w;
  auto u = [&](size_t o, int n) { uint32_t v = 0; for (int k = 0; k < n && o + k < b.size(); ++k) v |= uint32_t{b[o + k]} << (8 * k); return v; };
  if (b.size() < 12 || memcmp(b.data(), "RIFF", 4) || memcmp(b.data() + 8, "WAVE", 4) || u(4, 4) + 8 != b.size()) return w;
  for (size_t o = 12; o + 8 <= b.size();) {
    uint32_t n = u(o + 4, 4);
    if (o + 8 + n > b.size()) return w;
    if (!memcmp(&b[o], "fmt ", 4)) { w.ch = u(o + 10, 2); w.rate = u(o + 12, 4); w.bits = u(o + 22, 2); }
    if (!memcmp(&b[o], "data", 4)) { w.data.assign(b.begin() + o + 8, b.begin() + o + 8 + n); w.ok = w.ch > 0; return w; }
    o += 8 + n + (n & 1);
  }
  return w;
}
Bytes MakeWav(int ch, uint32_t rate, int bits, const Bytes& data) {
  Bytes b;
  auto u = [&](uint32_t v, int n) { for (int k = 0; k < n; ++k) b.push_back(static_cast<uint8_t>(v >> (8 * k))); };
  auto s = [&](const char* t) { for (; *t; ++t) b.push_back(static_cast<uint8_t>(*t)); };
  s("RIFF"); u(36 + data.size(), 4); s("WAVE"); s("fmt "); u(16, 4); u(1, 2); u(ch, 2); u(rate, 4); u(rate * ch * bits / 8, 4); u(ch * bits / 8, 2); u(bits, 2); s("data"); u(data.size(), 4);
  b.insert(b.end(), data.begin(), data.end());
  return b;
}
// Keeps what the encoder sends to be written.
struct Seen { int ch, rate, bits; std::vector<std::vector<double>> v; };
struct Keep : SampleProcessorBase {
  Seen* s;
  Keep(size_t n, int ch, Seen* q) : SampleProcessorBase(n, ch, n), s(q) { s->v.resize(ch); }
  absl::Status PushFrameDerived(absl::Span<const absl::Span<const InternalSampleType>> in) override {
    for (size_t c = 0; c < in.size(); ++c) s->v[c].insert(s->v[c].end(), in[c].begin(), in[c].end());
    return absl::OkStatus();
  }
  absl::Status FlushDerived() override { return absl::OkStatus(); }
};

void EncodeTool(Ctx& c) {
  auto& r = c.rng;
  enc::JobOpt o; o.max_chunks = 4; o.max_frame = 60; o.lossy = r.Chance(1, 3); o.rich = r.Bool(); o.lossy_scalable = o.lossy && r.Bool();
  auto j = enc::GenJob(r, o);
  if (j.S == 0) { c.Count("without-audio"); return; }
  auto u = enc::Metadata(j);
  Dir in(c, "in"), outer(c, "out");
  std::string out = outer.d + (r.Bool() ? "/made/here" : "");
  // The input files.
  for (size_t i = 0; i < j.st.elems.size(); ++i) {
    auto codec = enc::CodecOf(j, j.st.elems[i]);
    int depth = enc::BitDepth(codec);
    std::vector<int> can; for (int b : {16, 24, 32}) if (b <= depth) can.push_back(b);
    if (can.empty()) { c.Count("too-shallow"); return; }
    int bits = r.Chance(2, 3) ? can.back() : r.Pick(can);
    auto* f = u.mutable_audio_frame_metadata(static_cast<int>(i));
    std::string name = "in put_" + std::to_string(i) + ".wav";
    f->set_wav_filename(name);
    int n = f->channel_metadatas_size(), ch = n + static_cast<int>(r.Below(3));
    if (ch == 0) ch = 1;
    std::vector<int> where(ch); for (int k = 0; k < ch; ++k) where[k] = k;
    if (r.Bool()) r.Shuffle(where);
    Bytes data(size_t{j.S} * ch * (bits / 8));
    for (auto& x : data) x = r.U8();
    int k = 0;
    for (auto& [l, v] : j.in[i]) {
      f->mutable_channel_metadatas(k)->set_channel_id(where[k]);
      for (size_t t = 0; t < v.size(); ++t) {
        int64_t q = std::clamp<int64_t>(std::llround(std::ldexp(std::clamp(v[t], -1.0, 1.0), bits - 1)), -(int64_t{1} << (bits - 1)), (int64_t{1} << (bits - 1)) - 1);
        v[t] = std::ldexp(static_cast<double>(q), 1 - bits);
        for (int b = 0; b < bits / 8; ++b) data[(t * ch + where[k]) * (bits / 8) + b] = static_cast<uint8_t>(q >> (8 * b));
      }
      ++k;
    }
    uint32_t rate = codec.fourcc == ref::kLpcm ? codec.lpcm.rate : codec.fourcc == ref::kFlac ? codec.flac.info.rate : 48000;
    if (codec.fourcc == ref::kAac) { static const uint32_t kHz[] = {96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}; rate = codec.aac.freq < 13 ? kHz[codec.aac.freq] : 0; }
    Spit(in.d + "/" + name, MakeWav(ch, rate, bits, data));
  }
  for (size_t k = 0; k < j.blocks.size(); ++k) for (size_t q = 0; q < j.blocks[k].size(); ++q) {
    auto* m = u.add_parameter_block_metadata();
    enc::ToBlock(j.blocks[k][q], static_cast<int64_t>(k) * j.N(), *m);
    if (!j.ext_block.empty() && j.ext_block[(k + q) % j.ext_block.size()]) enc::ToHeader(j.ext_block[(k + q) % j.ext_block.size()], m->mutable_obu_header());
  }
  std::string prefix = r.Chance(1, 12) ? "" : r.Pick<const char*>({"a", "out put", "x.y", "test_000"});
  u.mutable_test_vector_metadata()->set_file_name_prefix(prefix);
  u.mutable_test_vector_metadata()->set_is_valid(r.Bool());
  auto format = static_cast<pb::OutputAudioFormat>(r.Pick({1, 2, 3, 4, 5, 2, 4}));
  u.mutable_encoder_control_metadata()->set_output_rendered_file_format(format);
  bool partition = r.Chance(1, 6);
  u.mutable_test_vector_metadata()->set_partition_mix_gain_parameter_blocks(partition);
  // What the library makes of it.
  std::map<std::string, Seen> seen;
  auto keep = [&](DecodedUleb128 mix, size_t s, size_t l, const Layout&, int ch, int rate, int bits, size_t n) -> std::unique_ptr<SampleProcessorBase> {
    auto& q = seen[prefix + "_rendered_id_" + std::to_string(mix) + "_sub_mix_" + std::to_string(s) + "_layout_" + std::to_string(l) + ".wav"];
    q = {ch, rate, bits, {}};
    return std::make_unique<Keep>(n, ch, &q);
  };
  auto what = [&] { return "S=" + std::to_string(j.S) + " N=" + std::to_string(j.N()) + " elements=" + std::to_string(j.st.elems.size()) + " codec=" + std::to_string(j.st.codec.fourcc) + " format=" + std::to_string(format) + " partition=" + std::to_string(partition) + " prefix=" + prefix; };
  bool lib_ok = true; std::string lib_why; enc::Encoded got;
  {
    auto renderers = CreateLayoutRendererFactory(); auto loudness = CreateLoudnessCalculatorFactory();
    auto e = enc::Enc::Create(u, renderers.get(), loudness.get(), keep, enc::Enc::CreateNoObuSequencers);
    if (!e.ok()) { lib_ok = false; lib_why = e.status().ToString(); }
    else { got = enc::Run(**e, j, static_cast<uint32_t>(j.blocks.size())); lib_ok = got.status.ok(); lib_why = got.status.ToString(); }
  }
  // What the program makes of it.
  int how = static_cast<int>(r.Below(3));
  std::string meta = in.d + "/job" + (how == 0 ? ".binpb" : how == 1 ? ".textproto" : ".txtpb");
  if (how == 0) { std::string s = u.SerializeAsString(); Spit(meta, Bytes(s.begin(), s.end())); }
  else { std::string s; google::protobuf::TextFormat::PrintToString(u, &s); Spit(meta, Bytes(s.begin(), s.end())); }
  int rc = Call(encoder_tool_main, {"--user_metadata_filename=" + meta, "--input_wav_directory=" + in.d, "--output_iamf_directory", out});
  c.Eval(); c.Distinct(HashStr(u.SerializeAsString()));
  std::set<std::string> files; if (fs::exists(out)) for (auto& f : fs::directory_iterator(out)) files.insert(f.path().filename());
  if (!lib_ok) {
    if (partition) { c.Count("library-refused"); return; }
    V_CHECK(c, rc != 0, "encode-tool-accepted", "the library says " + lib_why + " " + what()); c.Count("library-refused"); return; }
  if (partition && rc != 0) { c.Count("partition-refused"); return; }
  V_CHECK(c, rc == 0, "encode-tool-refused", "exit " + std::to_string(rc) + " " + what());
  Bytes want = got.descriptors; for (auto& t : got.tus) want.insert(want.end(), t.begin(), t.end());
  std::set<std::string> expect; if (!prefix.empty()) expect.insert(prefix + ".iamf");
  std::map<std::string, int> bits;
  if (format >= 2) for (auto& [n, s] : seen) {
    int b = format == 2 ? s.bits : format == 3 ? 16 : format == 4 ? 24 : 32;
    if (b == 16 || b == 24 || b == 32) { expect.insert(n); bits[n] = b; } else { files.erase(n); c.Count("odd-depths"); }
  }
  auto list = [](const std::set<std::string>& s) { std::string t; for (auto& x : s) t += x + " "; return t; };
  V_CHECK(c, files == expect, "encode-tool-files", "made " + list(files) + "instead of " + list(expect) + what());
  if (!prefix.empty() && !partition) {
    Bytes file = Slurp(out + "/" + prefix + ".iamf");
    size_t at = 0; while (at < file.size() && at < want.size() && file[at] == want[at]) ++at;
    V_CHECK(c, file == want, "encode-tool-iamf", std::to_string(file.size()) + " bytes instead of " + std::to_string(want.size()) + ", first difference at " + std::to_string(at) + " (descriptors end at " + std::to_string(got.descriptors.size()) + ") " + what());
    c.Count("sequences-written"); c.Count("units", got.tus.size());
  }
  for (auto& [n, b] : bits) {
    auto& s = seen[n];
    Wav w = ReadWav(Slurp(out + "/" + n));
    size_t ticks = s.v.empty() ? 0 : s.v[0].size();
    V_CHECK(c, w.ok && w.ch == s.ch && w.bits == b && static_cast<int>(w.rate) == s.rate && w.data.size() == ticks * s.ch * (b / 8), "encode-tool-wav-format",
            n + " ch " + std::to_string(w.ch) + " bits " + std::to_string(w.bits) + " rate " + std::to_string(w.rate) + " data " + std::to_string(w.data.size()) + " instead of ch " + std::to_string(s.ch) + " bits " + std::to_string(b) + " rate " + std::to_string(s.rate) + " ticks " + std::to_string(ticks) + " " + what());
    if (partition) continue;
    for (size_t t = 0; t < ticks; ++t) for (int k = 0; k < s.ch; ++k) {
      uint32_t x = 0; for (int q = 0; q < b / 8; ++q) x |= uint32_t{w.data[(t * s.ch + k) * (b / 8) + q]} << (32 - b + 8 * q);
      double y = std::ldexp(static_cast<double>(static_cast<int32_t>(x)), -31), z = std::clamp(s.v[k][t], -1.0, 1.0);
      V_CHECK(c, std::abs(y - z) <= std::ldexp(1.001, 1 - b), "encode-tool-wav-sample", n + " tick " + std::to_string(t) + " channel " + std::to_string(k) + " is " + std::to_string(y) + " instead of " + std::to_string(z) + " " + what());
    }
    c.Count("wavs-compared");
  }
  if (c.WantSample()) c.Sample("encoder program: " + what() + " sequence " + std::to_string(want.size()) + " bytes, " + std::to_string(bits.size()) + " WAVs");
  c.Count(how == 0 ? "binary-metadata" : "text-metadata");
  if (partition) c.Count("partitioned");
}

const char* kNames[] = {"2.0", "5.1", "5.1.2", "5.1.4", "5+4+1", "3+7+0", "9.1.4", "22.0", "7.1", "7.1.4", "7.1.2", "3.1.2", "1.0", "9.1.6", "Binaural"};
void DecodeTool(Ctx& c) {
  auto& r = c.rng;
  ref::GenOpt o; o.max_frame = 60; if (r.Chance(1, 3)) o.identity = true;
  auto st = ref::GenStream(r, o);
  if (st.tus.empty()) { c.Count("without-units"); return; }
  auto cfg = decwork::GenCfg(r, st, false);
  cfg.android = false; cfg.ts = cfg.te = true;
  bool unset = !cfg.q.layout; if (unset) cfg.q.layout = 0;
  int type = static_cast<int>(r.Below(3)); cfg.bits16 = type == 1;
  auto sel = ref::Select(st, cfg.q);
  if (!ref::Renderable(st, sel)) { c.Count("unrenderable"); return; }
  Dir d(c, "dec");
  auto data = st.All();
  Spit(d.d + "/in.iamf", data);
  size_t block = r.Pick<size_t>({1, 3, 17, 100, 1024, 1 << 20, data.size(), data.size() + 1, std::max<size_t>(1, data.size() / 2), st.descriptors.size(), st.descriptors.size() + 1});
  std::vector<std::string> a{"--input_filename=" + d.d + "/in.iamf", "--output_filename=" + d.d + "/out.wav", "--block_size=" + std::to_string(block), "--mix_id=" + (cfg.q.mix ? std::to_string(*cfg.q.mix) : ""),
                             "--output_layout=" + std::string(kNames[*cfg.q.layout])};
  if (type) a.push_back(type == 1 ? "--output_sample_type=sle16" : "--output_sample_type=sle32");
  else absl::SetFlag(&FLAGS_output_sample_type, std::optional<api::OutputSampleType>());
  int rc = Call(decoder_tool_main, a);
  auto text = [&] { return decwork::Describe(st, cfg, sel) + " block " + std::to_string(block); };
  c.Eval(); c.Distinct(HashVec(data) ^ Mix(block));
  V_CHECK(c, rc == 0, "decode-tool-refused", text());
  Wav w = ReadWav(Slurp(d.d + "/out.wav"));
  int ch = decwork::OutChannels(sel), bits = cfg.bits16 ? 16 : 32;
  V_CHECK(c, w.ok && w.ch == ch && w.bits == bits && w.rate == st.codec.lpcm.rate, "decode-tool-format", "ch " + std::to_string(w.ch) + " bits " + std::to_string(w.bits) + " rate " + std::to_string(w.rate) + " " + text());
  size_t at = 0;
  for (size_t t = 0; t < st.tus.size(); ++t) {
    auto want = decwork::WantTu(st, cfg, sel, t);
    size_t n = want.v.size() * (bits / 8);
    V_CHECK(c, at + n <= w.data.size(), "decode-tool-short", "unit " + std::to_string(t) + " of " + std::to_string(st.tus.size()) + ": " + std::to_string(w.data.size()) + " bytes " + text());
    auto diff = decwork::Compare(want, Bytes(w.data.begin() + at, w.data.begin() + at + n), cfg.bits16);
    V_CHECK(c, diff.empty(), "decode-tool-pcm", "unit " + std::to_string(t) + ": " + diff + " " + text());
    at += n;
    c.Count("units-decoded");
  }
  V_CHECK(c, at == w.data.size(), "decode-tool-long", std::to_string(w.data.size()) + " instead of " + std::to_string(at) + " " + text());
  if (c.WantSample()) c.Sample("decoder program: " + text() + " PCM " + std::to_string(at) + " bytes");
  c.Count("decoded");
}
}  // namespace
V_MAIN({{"encode", 4000, 40000, EncodeTool}, {"decode", 4000, 40000, DecodeTool}})
