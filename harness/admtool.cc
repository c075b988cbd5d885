// C28: the ADM converter program and the ADM mode of the encoder program, files in and files out, against the library.
#include "harness/vlib.h"
#pragma push_macro("V_MAIN")
#undef V_MAIN
#define V_MAIN(...)
#include "harness/adm.cc"
#pragma pop_macro("V_MAIN")
#include "src/google/protobuf/text_format.h"
#define main encoder_tool_main
#include "iamf/cli/encoder_main.cc"
#undef main
#define FLAGS_adm_filename FLAGS_converter_adm_filename
#define main converter_tool_main
#include "iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main.cc"
#undef main
#undef FLAGS_adm_filename
namespace {
namespace fs = std::filesystem;
int Call(int (*f)(int, char**), std::vector<std::string> a) {
  a.insert(a.begin(), "tool");
  std::vector<char*> v; for (auto& s : a) v.push_back(s.data());
  v.push_back(nullptr);
  return f(static_cast<int>(a.size()), v.data());
}
std::map<std::string, Bytes> All(const std::string& d) {
  std::map<std::string, Bytes> m; std::error_code e;
  for (auto it = fs::directory_iterator(d, e); !e && it != fs::directory_iterator(); it.increment(e)) m[it->path().filename()] = Slurp(it->path());
  return m;
}
std::string Differ(const std::map<std::string, Bytes>& a, const std::map<std::string, Bytes>& b) {
  for (auto& [n, v] : a) if (!b.count(n)) return n + " was not made";
  for (auto& [n, v] : b) if (!a.count(n)) return n + " was made as well";
  for (auto& [n, v] : a) if (b.at(n) != v) { size_t k = 0; auto& w = b.at(n); while (k < v.size() && k < w.size() && v[k] == w[k]) ++k; return n + " differs at byte " + std::to_string(k) + ": " + std::to_string(w.size()) + " bytes instead of " + std::to_string(v.size()); }
  return "";
}
struct Dirs { std::string d; Dirs(const std::string& p) : d(p) { fs::remove_all(d); fs::create_directories(d); } ~Dirs() { std::error_code e; fs::remove_all(d, e); } };

void Programs(Ctx& c) {
  Rng& r = c.rng;
  bool dolby = r.Chance(1, 4);
  vext_wav_extensible = dolby || r.Bool();
  Doc d = dolby ? DolbyDoc(r) : DefaultDoc(r);
  std::string xml = Xml(r, d), prefix = r.Pick<const char*>({"p", "file name", "a.b", "x_1"});
  int threshold = r.Chance(1, 2) ? 0 : static_cast<int>(r.Range(-2, 12)), ms = static_cast<int>(r.Range(1, 40));
  auto profile = r.Bool() ? ProfileVersion::kIamfBaseProfile : ProfileVersion::kIamfBaseEnhancedProfile;
  std::string pname = profile == ProfileVersion::kIamfBaseProfile ? "base" : "enhanced";
  Bytes file = File(r, d, xml);
  if (r.Chance(1, 8)) { for (int k = static_cast<int>(r.Range(1, 4)); k > 0; --k) file[r.Below(file.size())] = r.U8(); }
  else if (r.Chance(1, 12)) file.resize(r.Below(file.size()));
  Dirs dir(c.scratch + "/p" + std::to_string(c.index));
  for (auto* s : {"lib", "conv", "tmp", "iamf1", "iamf2"}) fs::create_directories(dir.d + "/" + s);
  std::string path = dir.d + "/" + prefix + (r.Bool() ? ".wav" : ".adm");
  { std::ofstream f(path, std::ios::binary); f.write(reinterpret_cast<const char*>(file.data()), file.size()); }
  setenv("TMPDIR", (dir.d + "/tmp").c_str(), 1);
  std::string what = pname + " threshold " + std::to_string(threshold) + " ms " + std::to_string(ms) + " dolby " + std::to_string(dolby) + " prefix " + prefix + " samples " + std::to_string(d.samples) + ": " + xml.substr(0, 2000);
  c.Eval(); c.Distinct(HashVec(file));
  auto v = Convert(c, file, prefix, ms, threshold, profile, dir.d + "/lib");
  auto want = All(dir.d + "/lib");
  // The converter.
  bool binary = r.Bool(), full = r.Chance(1, 10);
  std::string meta = prefix + (binary ? ".binpb" : ".textproto"), conv = dir.d + "/conv";
  if (full) fs::create_symlink("/dev/full", conv + "/" + meta);
  std::vector<std::string> common{"--importance_threshold=" + std::to_string(threshold), "--profile_version=" + pname, "--frame_duration_ms=" + std::to_string(ms)};
  absl::SetFlag(&FLAGS_converter_adm_filename, path);
  auto args = common; args.push_back(std::string("--write_binary_proto=") + (binary ? "true" : "false")); args.push_back("--output_file_path=" + conv);
  int rc = Call(converter_tool_main, args);
  if (full) {
    fs::remove(conv + "/" + meta);
    V_CHECK(c, rc != 0, "converter-full", "success although the metadata could not be written " + what);
    c.Count("full"); return;
  }
  V_CHECK(c, (rc == 0) == v.u.ok(), "converter-exit", "exit " + std::to_string(rc) + " although the library says " + v.u.status().ToString() + " " + what);
  auto made = All(conv);
  if (!v.u.ok()) {
    V_CHECK(c, !made.count(meta), "converter-leftover", what);
    c.Count("refused");
  } else {
    V_CHECK(c, made.count(meta), "converter-no-metadata", what);
    pb::UserMetadata u; std::string text(made[meta].begin(), made[meta].end());
    bool ok = binary ? u.ParseFromString(text) : google::protobuf::TextFormat::ParseFromString(text, &u);
    V_CHECK(c, ok && google::protobuf::util::MessageDifferencer::Equals(u, *v.u), "converter-metadata", text.substr(0, 1500) + " " + what);
    made.erase(meta);
    auto diff = Differ(want, made);
    V_CHECK(c, diff.empty(), "converter-files", diff + " " + what);
    c.Count(binary ? "converted-binary" : "converted-text");
  }
  // Straight to a sequence, or over the files of the converter.
  absl::SetFlag(&FLAGS_user_metadata_filename, std::string());
  absl::SetFlag(&FLAGS_adm_filename, path);
  int straight = Call(encoder_tool_main, {"--adm_profile_version=" + pname, "--adm_importance_threshold=" + std::to_string(threshold), "--adm_frame_duration_ms=" + std::to_string(ms), "--output_iamf_directory=" + dir.d + "/iamf1"});
  if (!v.u.ok()) { V_CHECK(c, straight != 0 && All(dir.d + "/iamf1").empty(), "encoder-accepts", "exit " + std::to_string(straight) + " although the library says " + v.u.status().ToString() + " " + what); return; }
  absl::SetFlag(&FLAGS_adm_filename, std::string());
  int over = Call(encoder_tool_main, {"--user_metadata_filename=" + conv + "/" + meta, "--input_wav_directory=" + conv, "--output_iamf_directory=" + dir.d + "/iamf2"});
  V_CHECK(c, straight == over, "encoder-exit", "exit " + std::to_string(straight) + " from the ADM file and " + std::to_string(over) + " from the converted files " + what);
  auto diff = Differ(All(dir.d + "/iamf2"), All(dir.d + "/iamf1"));
  V_CHECK(c, diff.empty(), "encoder-files", diff + " " + what);
  if (straight != 0) { c.Count("not-encodable"); return; }
  V_CHECK(c, fs::exists(dir.d + "/iamf1/" + prefix + ".iamf"), "encoder-no-sequence", what);
  c.Count("encoded");
  if (c.WantSample()) c.Sample(what.substr(0, 400));
}
}  // namespace
V_MAIN({{"programs", 1500, 20000, Programs}})
