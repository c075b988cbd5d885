// C10: BW64/WAV chunk reader. The ADM parser is replaced by a recorder, so what reaches it is observed byte for byte.
#include <fstream>
#include <sstream>
#include "iamf/cli/adm_to_user_metadata/adm/adm_elements.h"
#include "iamf/cli/adm_to_user_metadata/adm/bw64_reader.h"
#include "iamf/cli/adm_to_user_metadata/adm/xml_to_adm.h"
#include "harness/alloc.h"
#include "harness/vlib.h"
using namespace vlib;
namespace {
struct Seen { int calls = 0; std::string text; int32_t threshold = 0; int type = -1; bool fail = false; } g_seen;
}
namespace iamf_tools::adm_to_user_metadata {
absl::StatusOr<ADM> ParseXmlToAdm(absl::string_view xml, int32_t importance_threshold, AdmFileType file_type) {
  g_seen.calls++; g_seen.text = std::string(xml); g_seen.threshold = importance_threshold; g_seen.type = file_type;
  if (g_seen.fail) return absl::DataLossError("injected");
  ADM a;
  a.audio_programmes.resize(3);
  a.audio_programmes[1].id = std::string(xml.substr(0, 50));
  return a;
}
}  // namespace iamf_tools::adm_to_user_metadata
using namespace iamf_tools::adm_to_user_metadata;
namespace {
void P32(std::string& s, uint32_t v) { for (int i = 0; i < 4; ++i) s += static_cast<char>(v >> (8 * i)); }
void P16(std::string& s, uint32_t v) { for (int i = 0; i < 2; ++i) s += static_cast<char>(v >> (8 * i)); }
uint32_t G32(const std::string& s, size_t p) { uint32_t v = 0; for (int i = 0; i < 4; ++i) v |= static_cast<uint32_t>(static_cast<uint8_t>(s[p + i])) << (8 * i); return v; }
uint32_t G16(const std::string& s, size_t p) { return static_cast<uint8_t>(s[p]) | static_cast<uint8_t>(s[p + 1]) << 8; }

std::string RandText(Rng& r, size_t n) { std::string s(n, 0); for (auto& ch : s) ch = r.Chance(1, 4) ? static_cast<char>(r.U8()) : static_cast<char>(r.Range(32, 126)); return s; }

std::string Fmt(Rng& r) {
  std::string f;
  P16(f, r.Pick<uint32_t>({1, 3, 0xfffe, 0}));
  P16(f, r.Chance(1, 8) ? static_cast<uint32_t>(r.Edge32()) & 0xffff : static_cast<uint32_t>(r.Range(1, 128)));
  P32(f, r.Chance(1, 8) ? r.Edge32() : r.Pick<uint32_t>({48000, 48000, 96000, 44100, 16000, 192000}));
  P32(f, r.U32()); P16(f, r.U32() & 0xffff);
  P16(f, r.Chance(1, 8) ? r.Pick<uint32_t>({0, 8, 12, 20, 23, 25, 48, 64, 65535}) : r.Pick<uint32_t>({16, 24, 24, 32}));
  const int extra = r.Pick<int>({0, 0, 2, 24, 3});
  for (int i = 0; i < extra; ++i) f += static_cast<char>(r.U8());
  if (r.Chance(1, 15)) f.resize(r.Below(16));
  return f;
}

std::string File(Rng& r, std::string& note) {
  std::vector<std::pair<std::string, std::string>> ch;
  if (!r.Chance(1, 20)) ch.emplace_back("fmt ", Fmt(r));
  if (!r.Chance(1, 20)) ch.emplace_back("axml", RandText(r, r.Chance(1, 20) ? r.Below(20000) : r.Below(60)));
  if (!r.Chance(1, 8)) ch.emplace_back("data", RandText(r, r.Below(200)));
  if (r.Chance(1, 3)) ch.emplace_back("dbmd", RandText(r, r.Below(9)));
  if (r.Chance(1, 2)) ch.emplace_back("chna", RandText(r, r.Below(60)));
  for (int i = r.Below(4); i > 0; --i) ch.emplace_back(RandText(r, 4), RandText(r, r.Below(30)));
  if (r.Chance(1, 10)) ch.emplace_back("fmt ", Fmt(r));
  if (r.Chance(1, 10)) ch.emplace_back("axml", RandText(r, r.Below(30)));
  if (r.Chance(1, 10)) ch.emplace_back("FMT ", Fmt(r));
  if (r.Chance(1, 10)) ch.emplace_back("dbm ", "x");
  r.Shuffle(ch);
  std::string s = r.Chance(1, 25) ? r.Pick<std::string>({std::string("RF64"), std::string("BW64"), std::string("riff"), std::string("RIFX"), std::string("RIF\0", 4)}) : "RIFF";
  P32(s, r.U32());
  s += r.Chance(1, 25) ? r.Pick<std::string>({std::string("WAV "), std::string("wave"), std::string("AVI "), std::string("\0\0\0\0", 4)}) : "WAVE";
  for (size_t i = 0; i < ch.size(); ++i) {
    s += ch[i].first;
    uint32_t n = static_cast<uint32_t>(ch[i].second.size());
    if (r.Chance(1, 40)) { n = r.Bool() ? r.Edge32() : n + static_cast<uint32_t>(r.Range(-3, 40)); note += " lied-size"; }
    P32(s, n);
    s += ch[i].second;
    if ((n & 1) && !(i + 1 == ch.size() && r.Bool())) s += static_cast<char>(r.Bool() ? 0 : r.U8());
  }
  if (r.Chance(1, 8)) { s.resize(r.Below(s.size() + 1)); note += " cut"; }
  if (r.Chance(1, 10)) for (int k = 1 + r.Below(3); k > 0 && !s.empty(); --k) s[r.Below(s.size())] ^= 1 << r.Below(8);
  if (r.Chance(1, 12)) s += RandText(r, r.Below(12));
  return s;
}

void Read(Ctx& c) {
  Rng& r = c.rng;
  std::string note;
  const std::string f = r.Chance(1, 100) ? RandText(r, r.Below(30)) : File(r, note);
  const int32_t threshold = static_cast<int32_t>(r.Edge32());
  // Reference index.
  std::map<std::string, std::vector<std::pair<size_t, size_t>>> idx;
  bool ok = f.size() >= 12 && f.compare(0, 4, "RIFF") == 0 && f.compare(8, 4, "WAVE") == 0;
  if (ok) for (size_t p = 12; p + 8 <= f.size();) { const uint64_t n = G32(f, p + 4); idx[f.substr(p, 4)].push_back({p, n}); p += 8 + n + (n & 1); }
  auto last = [&](const std::string& n) -> std::pair<size_t, size_t> { return idx[n].back(); };
  const bool dup = [&] { for (auto n : {"fmt ", "axml"}) if (idx.count(n) && idx[n].size() > 1) return true; return false; }();
  bool fmt_ok = ok && idx.count("fmt ");
  size_t fp = 0;
  if (fmt_ok) {
    auto [p, n] = last("fmt "); fp = p + 8;
    fmt_ok = n >= 16 && fp + 16 <= f.size() && G16(f, fp + 2) != 0 && G32(f, fp + 4) != 0;
    if (fmt_ok) { const uint32_t b = G16(f, fp + 14); fmt_ok = b == 16 || b == 24 || b == 32; }
  }
  bool axml_ok = ok && idx.count("axml"); std::string text;
  if (axml_ok) { auto [p, n] = last("axml"); axml_ok = p + 8 + n <= f.size() && n <= 256u * 1024 * 1024; if (axml_ok) text = f.substr(p + 8, n); }
  const bool dolby = ok && idx.count("dbmd");
  bool want = fmt_ok && axml_ok;
  if (want && dolby) want = G16(f, fp + 14) == 24 && (G32(f, fp + 4) == 48000 || G32(f, fp + 4) == 96000);
  g_seen = Seen{}; g_seen.fail = r.Chance(1, 20);
  std::unique_ptr<std::istream> in;
  if (r.Bool()) in = std::make_unique<std::istringstream>(f);
  else {
    const std::string path = c.scratch + "/f.wav";
    { std::ofstream o(path, std::ios::binary); o << f; }
    in = std::make_unique<std::ifstream>(path, std::ios::binary);
  }
  if (r.Chance(1, 3)) { std::string junk; junk.resize(r.Below(f.size() + 5)); in->read(junk.data(), junk.size()); }  // position and flags left by an earlier reader
  AllocWatch::Reset();
  auto got = Bw64Reader::BuildFromStream(threshold, *in);
  const size_t largest = AllocWatch::Largest();
  c.Eval();
  V_CHECK(c, largest <= 65536 + 8 * f.size(), "allocation", "largest allocation " << largest << " for a file of " << f.size() << " bytes");
  if (dup) { c.Count("duplicates"); }
  else {
    V_CHECK(c, got.ok() == (want && !g_seen.fail), "verdict", got.status() << " want " << want << " inject " << g_seen.fail << note << " file " << Hex(f, 300));
    V_CHECK(c, g_seen.calls == (want ? 1 : 0), "parser-calls", g_seen.calls);
  }
  if (g_seen.calls) {
    bool any = false;
    for (auto& [p, n] : idx["axml"]) any |= p + 8 + n <= f.size() && f.compare(p + 8, n, g_seen.text) == 0 && g_seen.text.size() == n;
    V_CHECK(c, any && (dup || g_seen.text == text), "axml-bytes", "got " << g_seen.text.size() << " bytes, want " << text.size());
    V_CHECK(c, g_seen.threshold == threshold, "threshold", g_seen.threshold << " " << threshold);
    V_CHECK(c, g_seen.type == (dolby ? kAdmFileTypeDolby : kAdmFileTypeDefault), "file-type", g_seen.type);
  }
  if (g_seen.fail && g_seen.calls) V_CHECK(c, absl::IsDataLoss(got.status()), "propagate", got.status());
  if (!got.ok()) { c.Count("refused"); c.Distinct(HashStr(f)); return; }
  c.Count("accepted");
  V_CHECK(c, got->adm_.audio_programmes.size() == 3 && got->adm_.audio_programmes[1].id == g_seen.text.substr(0, 50), "adm-carried", "");
  if (!dup) {
    auto& fi = got->format_info_;
    V_CHECK(c, fi.format_tag == G16(f, fp) && fi.num_channels == G16(f, fp + 2) && fi.samples_per_sec == G32(f, fp + 4) && fi.avg_bytes_per_sec == G32(f, fp + 8) && fi.block_align == G16(f, fp + 12) && fi.bits_per_sample == G16(f, fp + 14), "format-fields", fi.num_channels << " " << fi.samples_per_sec << " " << fi.bits_per_sample);
  }
  for (auto& [n, v] : idx) {
    auto info = got->GetChunkInfo(n);
    V_CHECK(c, info.ok(), "chunk-missing", Hex(n));
    bool any = false;
    for (auto& [p, sz] : v) any |= info->offset == p && info->size == sz;
    V_CHECK(c, any, "chunk-info", Hex(n) << " at " << info->offset << " size " << info->size << " want " << v[0].first << "," << v[0].second << note);
    c.Eval(); c.Count("chunks-compared");
  }
  for (int k = 0; k < 4; ++k) {
    std::string n = r.Bool() ? RandText(r, 4) : r.Pick<std::string>({std::string("fmt"), std::string("dbmd"), std::string("chna"), std::string("AXML"), std::string(""), std::string("data ")});
    auto info = got->GetChunkInfo(n);
    V_CHECK(c, info.ok() == (idx.count(n) > 0) && (info.ok() || absl::IsFailedPrecondition(info.status())), "chunk-absent", Hex(n) << info.status());
  }
  c.Distinct(HashStr(f));
  if (c.WantSample()) c.Sample("file " + Hex(f, 120) + " chunks=" + std::to_string(idx.size()));
}
}  // namespace
V_MAIN({{"read", 180000, 2000000, Read}})
