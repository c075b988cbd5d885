// C28: BW64 files with generated ADM documents and tagged audio converted to user metadata and WAV files; the files, the
// metadata and what the encoder makes of them are compared with what the document describes.
#include <filesystem>
#include <fstream>
#include <sstream>

#include "google/protobuf/util/message_differencer.h"
#include "harness/encwork.h"
#include "harness/vlib.h"
#include "iamf/cli/adm_to_user_metadata/app/adm_to_user_metadata_main_lib.h"
#include "iamf/cli/proto/user_metadata.pb.h"
#include "iamf/cli/proto_conversion/channel_label_utils.h"
#include "iamf/cli/wav_sample_provider.h"
extern int vext_wav_extensible;
using namespace vlib;
using namespace iamf_tools;
namespace pb = iamf_tools_cli_proto;
using ref::Bytes;
namespace {
using Ld = long double;
constexpr Ld kPi = 3.14159265358979323846264338327950288L;
Ld Fact(int n) { Ld r = 1; for (; n > 1; --n) r *= n; return r; }
Ld Legendre(int n, int m, Ld x) {
  Ld s = 0;
  for (int k = m; k <= n; ++k) { Ld c = 1; for (int i = 0; i < n; ++i) c *= ((n + k - 1) / 2.0L - i) / (i + 1); s += std::pow(Ld(2), n) / Fact(n - k) * Fact(n) * c / Fact(k - m) * std::pow(x, Ld(k - m)); }
  return std::pow(std::max<Ld>(0, 1 - x * x), m / 2.0L) * s;
}
// SN3D, ACN; azimuth to the left.
Ld Weight(int acn, Ld az, Ld el) {
  int n = 0; while ((n + 1) * (n + 1) <= acn) ++n;
  int m = acn - n * n - n, q = std::abs(m);
  return std::sqrt((q ? 2 : 1) * Fact(n - q) / Fact(n + q)) * Legendre(n, q, std::sin(el)) * (m >= 0 ? std::cos(m * az) : std::sin(-m * az));
}
Bytes Slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }

struct Wav { bool ok = false; int ch = 0, bits = 0; uint32_t rate = 0; Bytes data; };
Wav ReadWav(const std::string& p) {
  Wav w; Bytes b = Slurp(p);
  auto u = [&](size_t o, int n) { uint32_t v = 0; for (int k = 0; k < n && o + k < b.size(); ++k) v |= uint32_t{b[o + k]} << (8 * k); return v; };
  if (b.size() < 12 || memcmp(b.data(), "RIFF", 4) || memcmp(b.data() + 8, "WAVE", 4) || u(4, 4) + 8 != b.size()) return w;
  for (size_t o = 12; o + 8 <= b.size();) {
    uint32_t n = u(o + 4, 4);
    if (o + 8 + n > b.size()) return w;
    if (!memcmp(&b[o], "fmt ", 4)) { w.ch = u(o + 10, 2); w.rate = u(o + 12, 4); w.bits = u(o + 22, 2); }
    if (!memcmp(&b[o], "data", 4)) { w.data.assign(b.begin() + o + 8, b.begin() + o + 8 + n); w.ok = w.ch > 0; return w; }
    o += 8 + n + (n & 1);
  }
  return w;
}

// ---- documents ----
struct AdmLayout { const char* pack; int channels, substreams, coupled; bool ambisonics; pb::LoudspeakerLayout layout; std::vector<pb::ChannelLabel> labels; std::vector<int> sound; };
const std::vector<AdmLayout>& Layouts() {
  using namespace pb;
  auto acn = [](int n) { std::vector<pb::ChannelLabel> v; for (int k = 0; k < n; ++k) v.push_back(static_cast<pb::ChannelLabel>(CHANNEL_LABEL_A_0 + k)); return v; };
  static const auto* v = new std::vector<AdmLayout>{
      {"AP_00010001", 1, 1, 0, false, LOUDSPEAKER_LAYOUT_MONO, {CHANNEL_LABEL_MONO}, {SOUND_SYSTEM_12_0_1_0}},
      {"AP_00010002", 2, 1, 1, false, LOUDSPEAKER_LAYOUT_STEREO, {CHANNEL_LABEL_L_2, CHANNEL_LABEL_R_2}, {}},
      {"AP_00010003", 6, 4, 2, false, LOUDSPEAKER_LAYOUT_5_1_CH, {CHANNEL_LABEL_L_5, CHANNEL_LABEL_R_5, CHANNEL_LABEL_CENTRE, CHANNEL_LABEL_LFE, CHANNEL_LABEL_LS_5, CHANNEL_LABEL_RS_5}, {SOUND_SYSTEM_B_0_5_0}},
      {"AP_00010004", 8, 5, 3, false, LOUDSPEAKER_LAYOUT_5_1_2_CH, {CHANNEL_LABEL_L_5, CHANNEL_LABEL_R_5, CHANNEL_LABEL_CENTRE, CHANNEL_LABEL_LFE, CHANNEL_LABEL_LS_5, CHANNEL_LABEL_RS_5, CHANNEL_LABEL_LTF_2, CHANNEL_LABEL_RTF_2}, {SOUND_SYSTEM_C_2_5_0}},
      {"AP_00010005", 10, 6, 4, false, LOUDSPEAKER_LAYOUT_5_1_4_CH, {CHANNEL_LABEL_L_5, CHANNEL_LABEL_R_5, CHANNEL_LABEL_CENTRE, CHANNEL_LABEL_LFE, CHANNEL_LABEL_LS_5, CHANNEL_LABEL_RS_5, CHANNEL_LABEL_LTF_4, CHANNEL_LABEL_RTF_4, CHANNEL_LABEL_LTB_4, CHANNEL_LABEL_RTB_4}, {SOUND_SYSTEM_D_4_5_0}},
      {"AP_0001000f", 8, 5, 3, false, LOUDSPEAKER_LAYOUT_7_1_CH, {CHANNEL_LABEL_L_7, CHANNEL_LABEL_R_7, CHANNEL_LABEL_CENTRE, CHANNEL_LABEL_LFE, CHANNEL_LABEL_LSS_7, CHANNEL_LABEL_RSS_7, CHANNEL_LABEL_LRS_7, CHANNEL_LABEL_RRS_7}, {SOUND_SYSTEM_I_0_7_0}},
      {"AP_00010017", 12, 7, 5, false, LOUDSPEAKER_LAYOUT_7_1_4_CH, {CHANNEL_LABEL_L_7, CHANNEL_LABEL_R_7, CHANNEL_LABEL_CENTRE, CHANNEL_LABEL_LFE, CHANNEL_LABEL_LSS_7, CHANNEL_LABEL_RSS_7, CHANNEL_LABEL_LRS_7, CHANNEL_LABEL_RRS_7, CHANNEL_LABEL_LTF_4, CHANNEL_LABEL_RTF_4, CHANNEL_LABEL_LTB_4, CHANNEL_LABEL_RTB_4}, {SOUND_SYSTEM_J_4_7_0}},
      {"AP_00050001", 2, 1, 1, false, LOUDSPEAKER_LAYOUT_BINAURAL, {CHANNEL_LABEL_L_2, CHANNEL_LABEL_R_2}, {-1}},
      {"AP_00040001", 4, 4, 0, true, pb::LOUDSPEAKER_LAYOUT_INVALID, acn(4), {}},
      {"AP_00040002", 9, 9, 0, true, pb::LOUDSPEAKER_LAYOUT_INVALID, acn(9), {}},
      {"AP_00040003", 16, 16, 0, true, pb::LOUDSPEAKER_LAYOUT_INVALID, acn(16), {}},
      // Not of the common definitions: what the LFE channels of a Dolby file become.
      {"AP_00011FFF", 1, 1, 0, false, LOUDSPEAKER_LAYOUT_EXPANDED, {CHANNEL_LABEL_LFE}, {SOUND_SYSTEM_J_4_7_0}}};
  return *v;
}
constexpr int kToa = 10, kLfe = 11, kCommon = 11;

struct Block { int64_t start, length; double x, y, z; };
struct Chan { std::string id, name; std::vector<Block> blocks; };
struct Obj { std::string id, name, label, pack; int layout = -1; int importance = 10; bool set_importance = false, set_gain = false; int gain = 0; int tracks = 0; std::vector<std::string> comp; bool kept = true; std::vector<int> chans; };
struct Content { std::string id; std::vector<std::string> objects; };
struct Prog { std::string id; std::vector<std::string> contents; int loudness = 0; bool set_loudness = false; std::optional<int> peak, dialogue; };
struct Doc { bool dolby = false; std::vector<Prog> programmes; std::vector<Content> contents; std::vector<Obj> objects; std::vector<Chan> chans; int channels = 0, bits = 16; uint32_t rate = 48000; size_t samples = 0; Bytes audio; };
// A Q7.8 value as a decimal.
std::string Q(int v) { char b[40]; snprintf(b, sizeof b, "%.8f", v / 256.0); return b; }
std::string Time(double s) { char b[64]; snprintf(b, sizeof b, "%02d:%02d:%08.5f", static_cast<int>(s) / 3600, static_cast<int>(s) / 60 % 60, std::fmod(s, 60)); return b; }
std::string Escape(Rng& r, const std::string& s) {
  if (s.find('&') == std::string::npos) return s;
  if (r.Chance(1, 4)) return "<![CDATA[" + s + "]]>";
  std::string t;
  for (char c : s) switch (c) { case '&': t += r.Bool() ? "&amp;" : "&#38;"; break; case '<': t += r.Bool() ? "&lt;" : "&#x3c;"; break; default: t += c; }
  return t;
}
std::string Xml(Rng& r, const Doc& d) {
  std::ostringstream o;
  bool nl = r.Bool();
  auto gap = [&] { if (nl) o << "\n  "; if (r.Chance(1, 12)) o << "<!-- note & <audioObject> -->"; };
  auto attrs = [&](std::vector<std::pair<std::string, std::string>> a) { r.Shuffle(a); for (auto& [k, v] : a) o << ' ' << k << "=\"" << v << '"'; };
  auto leaf = [&](const char* n, const std::string& v) { gap(); o << '<' << n << '>' << v << "</" << n << '>'; };
  if (r.Bool()) o << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>";
  bool ebu = r.Bool();
  if (ebu) o << "<ebuCoreMain><coreMetadata><format>";
  o << "<audioFormatExtended>";
  for (auto& p : d.programmes) {
    gap(); o << "<audioProgramme"; attrs({{"audioProgrammeID", p.id}, {"audioProgrammeName", "P"}, {"start", "00:00:00.00000"}}); o << '>';
    for (auto& c : p.contents) leaf("audioContentIDRef", c);
    if (p.set_loudness || p.peak || p.dialogue || r.Chance(1, 3)) {
      gap(); o << "<loudnessMetadata loudnessMethod=\"ITU-R BS.1770\">";
      if (p.set_loudness) leaf("integratedLoudness", Q(p.loudness));
      if (p.peak) leaf("maxTruePeak", Q(*p.peak));
      if (p.dialogue) leaf("dialogueLoudness", Q(*p.dialogue));
      gap(); o << "</loudnessMetadata>";
    }
    gap(); o << "</audioProgramme>";
  }
  for (auto& c : d.contents) {
    gap(); o << "<audioContent"; attrs({{"audioContentID", c.id}, {"audioContentName", "C"}}); o << '>';
    for (auto& x : c.objects) leaf("audioObjectIDRef", x);
    if (r.Chance(1, 3)) { gap(); o << "<dialogue mixedContentKind=\"2\">2</dialogue>"; }
    gap(); o << "</audioContent>";
  }
  int uid = 0;
  for (auto& x : d.objects) {
    gap(); o << "<audioObject";
    std::vector<std::pair<std::string, std::string>> a = {{"audioObjectID", x.id}, {"audioObjectName", x.name}};
    if (x.set_importance) a.push_back({"importance", std::to_string(x.importance)});
    if (r.Chance(1, 3)) a.push_back({"start", "00:00:00.00000"});
    attrs(a); o << '>';
    leaf("audioPackFormatIDRef", x.pack);
    if (!x.label.empty()) leaf("audioObjectLabel", Escape(r, x.label));
    if (x.set_gain) leaf("gain", Q(x.gain));
    for (auto& q : x.comp) leaf("audioComplementaryObjectIDRef", q);
    for (int k = 0; k < x.tracks; ++k) { char b[20]; snprintf(b, sizeof b, "ATU_%08x", ++uid); leaf("audioTrackUIDRef", b); }
    gap(); o << "</audioObject>";
  }
  if (d.dolby) {
    for (auto& x : d.objects) {
      gap(); o << "<audioPackFormat"; attrs({{"audioPackFormatID", x.pack}, {"audioPackFormatName", x.name}, {"typeLabel", x.pack.substr(3, 4)}}); o << '>';
      for (int k : x.chans) leaf("audioChannelFormatIDRef", d.chans[k].id);
      gap(); o << "</audioPackFormat>";
    }
    for (auto& k : d.chans) {
      gap(); o << "<audioChannelFormat"; attrs({{"audioChannelFormatID", k.id}, {"audioChannelFormatName", k.name}, {"typeLabel", "0001"}}); o << '>';
      int n = 0;
      for (auto& b : k.blocks) {
        gap(); o << "<audioBlockFormat";
        std::vector<std::pair<std::string, std::string>> a = {{"audioBlockFormatID", "AB_" + std::to_string(++n)}};
        if (!(k.blocks.size() == 1 && b.length == 0)) { a.push_back({"rtime", Time(static_cast<double>(b.start) / d.rate)}); a.push_back({"duration", Time(static_cast<double>(b.length) / d.rate)}); }
        attrs(a); o << '>';
        if (r.Bool()) leaf("cartesian", "1");
        char t[80];
        auto pos = [&](const char* c, double v) { gap(); snprintf(t, sizeof t, "<position coordinate=\"%s\">%.6f</position>", c, v); o << t; };
        pos("X", b.x); pos("Y", b.y); pos("Z", b.z);
        gap(); o << "</audioBlockFormat>";
      }
      gap(); o << "</audioChannelFormat>";
    }
  }
  if (r.Bool()) for (int k = 1; k <= uid; ++k) { gap(); char b[90]; snprintf(b, sizeof b, "<audioTrackUID UID=\"ATU_%08x\" sampleRate=\"%u\" bitDepth=\"%d\"/>", k, d.rate, d.bits); o << b; }
  gap(); o << "</audioFormatExtended>";
  if (ebu) o << "</format></coreMetadata></ebuCoreMain>";
  if (nl) o << "\n";
  return o.str();
}
void P(Bytes& b, uint32_t v, int n) { for (int k = 0; k < n; ++k) b.push_back(v >> (8 * k)); }
Bytes File(Rng& r, const Doc& d, const std::string& xml) {
  Bytes b;
  auto str = [&](const std::string& s) { b.insert(b.end(), s.begin(), s.end()); };
  std::vector<std::pair<std::string, Bytes>> ch;
  Bytes f; int bytes = d.bits / 8; P(f, 1, 2); P(f, d.channels, 2); P(f, d.rate, 4); P(f, d.rate * bytes * d.channels, 4); P(f, bytes * d.channels, 2); P(f, d.bits, 2);
  ch.push_back({"fmt ", f}); ch.push_back({"axml", Bytes(xml.begin(), xml.end())}); ch.push_back({"data", d.audio});
  if (d.dolby) ch.push_back({"dbmd", Bytes(4)});
  if (r.Bool()) ch.push_back({"chna", Bytes(r.Below(50))});
  if (r.Bool()) ch.push_back({"JUNK", r.Bytes(r.Below(30))});
  r.Shuffle(ch);
  str("RIFF"); P(b, 0, 4); str("WAVE");
  for (auto& [n, v] : ch) { str(n); P(b, static_cast<uint32_t>(v.size()), 4); b.insert(b.end(), v.begin(), v.end()); if (v.size() & 1) b.push_back(0); }
  uint32_t n = static_cast<uint32_t>(b.size() - 8); for (int k = 0; k < 4; ++k) b[4 + k] = n >> (8 * k);
  return b;
}
void Programmes(Rng& r, Doc& d, bool dolby) {
  int np = static_cast<int>(dolby ? 1 : r.Chance(1, 5) ? 0 : r.Range(1, 3)), nc = 0;
  for (int p = 0; p < np; ++p) {
    Prog q; q.id = "APR_" + std::to_string(1001 + p);
    if (r.Bool()) { q.set_loudness = true; q.loudness = static_cast<int>(r.Range(-6000, 0)); }
    if (r.Bool()) q.peak = static_cast<int>(r.Range(-3000, 500));
    if (r.Bool()) q.dialogue = static_cast<int>(r.Range(-6000, 0));
    std::vector<size_t> refs;
    if (dolby) { for (size_t k = 0; k < d.objects.size(); ++k) refs.push_back(k); }
    else { for (size_t k = 0; k < d.objects.size(); ++k) if (r.Chance(2, 3)) refs.push_back(k); if (refs.size() > 2 && r.Chance(3, 4)) refs.resize(2); if (r.Chance(1, 8) && !refs.empty()) refs.push_back(refs[0]); if (r.Bool()) r.Shuffle(refs); }
    bool one = r.Bool();
    for (size_t k = 0; k < refs.size(); ++k) {
      if (k == 0 || !one) { d.contents.push_back({"ACO_" + std::to_string(1001 + nc++), {}}); q.contents.push_back(d.contents.back().id); }
      d.contents.back().objects.push_back(d.objects[refs[k]].id);
    }
    d.programmes.push_back(q);
  }
}
void Audio(Rng& r, Doc& d) {
  d.audio = r.Bytes(d.samples * d.channels * (d.bits / 8));
}
Doc DefaultDoc(Rng& r) {
  Doc d;
  d.bits = r.Pick<int>({16, 24, 32}); d.rate = r.Pick<uint32_t>({48000, 44100, 96000, 16000}); d.samples = r.Chance(1, 10) ? 0 : r.Chance(1, 4) ? r.Range(1, 5000) : r.Range(1, 600);
  int n = static_cast<int>(r.Range(1, 4));
  std::vector<int> number; for (int k = 0; k < n; ++k) number.push_back(1001 + k);
  if (r.Chance(1, 3)) r.Shuffle(number);
  for (int k = 0; k < n; ++k) {
    Obj o; o.id = (r.Chance(1, 10) ? "object " : "AO_") + std::to_string(number[k]); o.name = "O" + std::to_string(k);
    o.layout = static_cast<int>(r.Below(kCommon)); o.pack = Layouts()[o.layout].pack; o.tracks = Layouts()[o.layout].channels;
    if (r.Chance(1, 8)) { o.pack = r.Pick<std::string>({"AP_00031001", "AP_00010009", "AP_0004000a", "AP_1", "AP_00021001", "AP_00050002", "AP_0001001f", "AP_00011001"}); o.layout = -1; }
    if (r.Bool()) o.label = (r.Chance(1, 4) ? "R&B <live> " : "label ") + std::to_string(r.Below(100));
    if (r.Chance(1, 3)) { o.set_gain = true; o.gain = static_cast<int>(r.Range(-2560, 1024)); }
    if (r.Chance(1, 2)) { o.set_importance = true; o.importance = static_cast<int>(r.Below(11)); }
    d.channels += o.tracks;
    d.objects.push_back(o);
  }
  for (int k = 0; k + 1 < n; ++k) if (r.Chance(1, 4)) { d.objects[k].comp.push_back(d.objects[k + 1].id); if (k + 2 < n && r.Bool()) d.objects[k].comp.push_back(d.objects[k + 2].id); break; }
  Programmes(r, d, false);
  Audio(r, d);
  return d;
}
struct Bed { std::vector<const char*> names; };
Doc DolbyDoc(Rng& r) {
  static const std::vector<std::vector<const char*>> beds = {
      {"Left", "Right"}, {"Left", "Right", "Center"}, {"Left", "Right", "Center", "LeftSurround", "RightSurround"}, {"Left", "Right", "Center", "LFE", "LeftSurround", "RightSurround"},
      {"Left", "Right", "Center", "LeftSideSurround", "RightSideSurround", "LeftRearSurround", "RightRearSurround"}, {"Left", "Right", "Center", "LFE", "LeftSideSurround", "RightSideSurround", "LeftRearSurround", "RightRearSurround"},
      {"Left", "Right", "Center", "LeftSideSurround", "RightSideSurround", "LeftRearSurround", "RightRearSurround", "LeftTopSurround", "RightTopSurround"},
      {"Left", "Right", "Center", "LFE", "LeftSideSurround", "RightSideSurround", "LeftRearSurround", "RightRearSurround", "LeftTopSurround", "RightTopSurround"}};
  Doc d; d.dolby = true; d.bits = 24; d.rate = r.Bool() ? 48000 : 96000;
  const int64_t unit = d.rate / 4000;  // a whole number of the ticks of the timestamps, 10 us
  const int64_t units = r.Chance(1, 4) ? r.Range(1, 300) : r.Range(1, 40);
  d.samples = units * unit;
  auto pos = [&] { return r.Chance(1, 3) ? static_cast<double>(r.Pick<int>({-1, 0, 1})) : std::floor(r.Real(-1, 1) * 1e6) / 1e6; };
  int n = 0;
  auto add = [&](Obj& o, const std::string& name, bool moving) {
    Chan k; k.name = name; char b[20]; snprintf(b, sizeof b, "AC_%08x", 0x31001 + n); k.id = b;
    if (moving) {
      int64_t at = 0;
      while (at < units) { int64_t l = r.Chance(1, 4) ? units - at : r.Range(1, units - at); k.blocks.push_back({at * unit, l * unit, pos(), pos(), pos()}); at += l; }
    } else k.blocks.push_back({0, r.Bool() ? 0 : units * unit, pos(), pos(), pos()});
    ++n; ++o.tracks; o.chans.push_back(static_cast<int>(d.chans.size())); d.chans.push_back(k);
  };
  bool bed = r.Chance(3, 4);
  if (bed) {
    Obj o; o.id = "AO_1001"; o.name = "bed"; o.pack = "AP_00011001";
    for (auto* c : beds[r.Below(beds.size())]) add(o, std::string("RoomCentric") + c, r.Chance(1, 4));
    d.objects.push_back(o);
  }
  int objs = static_cast<int>(r.Range(bed ? 0 : 1, 5));
  for (int k = 0; k < objs; ++k) {
    Obj o; char b[20]; snprintf(b, sizeof b, "AP_%08x", 0x31001 + k); o.id = "AO_" + std::to_string(1002 + k); o.name = "obj" + std::to_string(k); o.pack = b;
    add(o, o.name, true); d.objects.push_back(o);
  }
  for (auto& o : d.objects) { if (r.Chance(1, 3)) { o.set_gain = true; o.gain = static_cast<int>(r.Range(-2560, 1024)); } if (r.Bool()) o.label = (r.Chance(1, 4) ? "R&B <live> " : "label ") + std::to_string(r.Below(100)); }
  d.channels = n;
  Programmes(r, d, true);
  Audio(r, d);
  return d;
}

struct Converted { absl::StatusOr<pb::UserMetadata> u = absl::UnknownError(""); std::string dir; std::map<std::string, Bytes> files; };
Converted Convert(Ctx& c, const Bytes& file, const std::string& prefix, int ms, int threshold, ProfileVersion profile, const std::string& out = "") {
  Converted v;
  v.dir = out.empty() ? c.scratch + "/adm" + std::to_string(c.index) : out;
  std::error_code ec;
  if (out.empty()) { std::filesystem::remove_all(v.dir, ec); std::filesystem::create_directories(v.dir); }
  std::istringstream in(std::string(file.begin(), file.end()));
  v.u = adm_to_user_metadata::GenerateUserMetadataAndSpliceWavFiles(prefix, ms, threshold, v.dir, in, profile);
  for (auto it = std::filesystem::directory_iterator(v.dir, ec); !ec && it != std::filesystem::directory_iterator(); it.increment(ec)) v.files[it->path().filename()] = {};
  return v;
}
// What each mix of the document is made of: indices into `kept` and the programme.
struct Mix_ { std::vector<size_t> objects; const Prog* prog; };
std::vector<Mix_> MixesOf(const Doc& d, const std::vector<const Obj*>& kept) {
  std::vector<Mix_> r;
  auto find = [&](const std::string& id) { for (size_t k = 0; k < kept.size(); ++k) if (kept[k]->id == id) return static_cast<int>(k); return -1; };
  for (auto& p : d.programmes) {
    std::vector<std::vector<size_t>> groups; std::set<std::string> ignore;
    for (auto& cid : p.contents) for (auto& ct : d.contents) if (ct.id == cid) for (auto& oid : ct.objects) {
      int k = find(oid);
      if (k < 0 || ignore.count(oid)) continue;
      // What complements it is one of its alternatives, wherever it is mentioned.
      std::vector<size_t> g{static_cast<size_t>(k)};
      ignore.insert(oid);
      for (auto& q : kept[k]->comp) { ignore.insert(q); if (find(q) >= 0) { g.push_back(find(q)); std::erase(groups, std::vector<size_t>{g.back()}); } }
      groups.push_back(g);
    }
    if (groups.empty() || groups.size() > 2) continue;
    std::vector<std::vector<size_t>> all{{}};
    for (auto& g : groups) { std::vector<std::vector<size_t>> next; for (auto& a : all) for (size_t k : g) { next.push_back(a); next.back().push_back(k); } all = next; }
    for (auto& a : all) r.push_back({a, &p});
  }
  return r;
}
// The metadata describes `kept`, whose audio is in the files converted1...
bool CheckMetadata(Ctx& c, const Doc& d, const std::vector<const Obj*>& kept, const std::vector<int>& layouts, const pb::UserMetadata& u, const std::string& prefix, int ms, ProfileVersion profile, const std::string& what) {
  auto text = [&] { return what + "\n" + u.ShortDebugString().substr(0, 3000); };
  V_CHECK_R(c, u.test_vector_metadata().file_name_prefix() == prefix, "prefix", text(), false);
  V_CHECK_R(c, u.ia_sequence_header_metadata_size() == 1 && u.ia_sequence_header_metadata(0).primary_profile() == (profile == ProfileVersion::kIamfBaseProfile ? pb::PROFILE_VERSION_BASE : pb::PROFILE_VERSION_BASE_ENHANCED), "header", text(), false);
  V_CHECK_R(c, u.codec_config_metadata_size() == 1, "codecs", text(), false);
  auto& cc = u.codec_config_metadata(0).codec_config();
  V_CHECK_R(c, cc.codec_id() == pb::CODEC_ID_LPCM && cc.decoder_config_lpcm().sample_size() == static_cast<uint32_t>(d.bits) && cc.decoder_config_lpcm().sample_rate() == d.rate && cc.num_samples_per_frame() == static_cast<uint64_t>(ms) * d.rate / 1000 && cc.audio_roll_distance() == 0 && cc.decoder_config_lpcm().sample_format_flags() == pb::LPCM_LITTLE_ENDIAN, "codec", text(), false);
  std::vector<Mix_> mixes = d.programmes.empty() ? std::vector<Mix_>{{{0}, nullptr}} : MixesOf(d, kept);
  std::set<size_t> used; for (auto& m : mixes) for (size_t k : m.objects) used.insert(k);
  // Elements and their audio.
  std::map<uint32_t, size_t> object;  // of an element
  V_CHECK_R(c, static_cast<size_t>(u.audio_frame_metadata_size()) == used.size() && static_cast<size_t>(u.audio_element_metadata_size()) == used.size(), "elements", std::to_string(used.size()) + " wanted " + text(), false);
  for (auto& f : u.audio_frame_metadata()) {
    size_t k = kept.size();
    for (size_t q = 0; q < kept.size(); ++q) if (f.wav_filename() == prefix + "_converted" + std::to_string(q + 1) + ".wav") k = q;
    V_CHECK_R(c, k < kept.size() && used.count(k) && object.emplace(f.audio_element_id(), k).second, "frames-file", f.ShortDebugString() + " in " + text(), false);
    auto& want = Layouts()[layouts[k]].labels;
    bool same = static_cast<size_t>(f.channel_metadatas_size()) == want.size();
    for (size_t i = 0; same && i < want.size(); ++i) same = f.channel_metadatas(i).channel_id() == i && f.channel_metadatas(i).channel_label() == want[i];
    V_CHECK_R(c, same && f.samples_to_trim_at_start() == 0 && f.samples_to_trim_at_end() == 0, "frames-labels", f.ShortDebugString() + " in " + text(), false);
  }
  std::set<size_t> seen; std::set<int64_t> substreams;
  for (auto& e : u.audio_element_metadata()) {
    V_CHECK_R(c, object.count(e.audio_element_id()) && seen.insert(object[e.audio_element_id()]).second, "element-id", e.ShortDebugString() + " in " + text(), false);
    auto& l = Layouts()[layouts[object[e.audio_element_id()]]];
    bool ok = e.codec_config_id() == u.codec_config_metadata(0).codec_config_id() && e.audio_substream_ids_size() == l.substreams && e.audio_element_params_size() == 0;
    for (auto s : e.audio_substream_ids()) ok = ok && substreams.insert(s).second;
    if (l.ambisonics) {
      auto& m = e.ambisonics_config().ambisonics_mono_config();
      ok = ok && e.audio_element_type() == pb::AUDIO_ELEMENT_SCENE_BASED && m.output_channel_count() == static_cast<uint32_t>(l.channels) && m.channel_mapping_size() == l.channels;
      for (int k = 0; ok && k < l.channels; ++k) ok = m.channel_mapping(k) == static_cast<uint32_t>(k);
    } else {
      ok = ok && e.audio_element_type() == pb::AUDIO_ELEMENT_CHANNEL_BASED && e.scalable_channel_layout_config().channel_audio_layer_configs_size() == 1;
      if (ok) { auto& q = e.scalable_channel_layout_config().channel_audio_layer_configs(0); ok = q.loudspeaker_layout() == l.layout && static_cast<int>(q.substream_count()) == l.substreams && static_cast<int>(q.coupled_substream_count()) == l.coupled && q.output_gain_is_present_flag() == 0 && q.recon_gain_is_present_flag() == 0 && (l.layout != pb::LOUDSPEAKER_LAYOUT_EXPANDED || q.expanded_loudspeaker_layout() == pb::EXPANDED_LOUDSPEAKER_LAYOUT_LFE); }
    }
    V_CHECK_R(c, ok, "element", e.ShortDebugString() + " for object " + std::to_string(object[e.audio_element_id()]) + " in " + text(), false);
  }
  // Mixes.
  V_CHECK_R(c, static_cast<size_t>(u.mix_presentation_metadata_size()) == mixes.size(), "mixes", std::to_string(mixes.size()) + " wanted " + text(), false);
  std::vector<char> taken(mixes.size()); std::set<uint32_t> ids;
  for (auto& m : u.mix_presentation_metadata()) {
    V_CHECK_R(c, ids.insert(m.mix_presentation_id()).second && m.sub_mixes_size() == 1, "mix-id", text(), false);
    auto& s = m.sub_mixes(0);
    std::string why = "no such elements";
    bool found = false;
    for (size_t i = 0; i < mixes.size() && !found; ++i) {
      if (taken[i]) continue;
      auto& w = mixes[i];
      std::multiset<size_t> a(w.objects.begin(), w.objects.end()), b;
      bool known = true;
      for (auto& e : s.audio_elements()) { if (!object.count(e.audio_element_id())) known = false; else b.insert(object[e.audio_element_id()]); }
      if (!known || a != b) continue;
      bool ok = true;
      for (auto& e : s.audio_elements()) {
        auto& o = *kept[object[e.audio_element_id()]];
        ok = ok && e.element_mix_gain().default_mix_gain() == o.gain && e.element_mix_gain().param_definition().parameter_rate() == d.rate && e.localized_element_annotations_size() == m.annotations_language_size() && (o.label.empty() || e.localized_element_annotations(0) == o.label);
      }
      if (!ok) { why = "gains or labels"; continue; }
      ok = s.output_mix_gain().default_mix_gain() == 0 && s.output_mix_gain().param_definition().parameter_rate() == d.rate;
      // Layouts: stereo first, then those of the elements as far as there is room.
      std::vector<int> want{pb::SOUND_SYSTEM_A_0_2_0};
      for (size_t k : w.objects) for (int v : Layouts()[layouts[k]].sound) if (want.size() < 4) want.push_back(v);
      std::vector<int> got; for (auto& l : s.layouts()) got.push_back(l.loudness_layout().layout_type() == pb::LAYOUT_TYPE_BINAURAL ? -1 : static_cast<int>(l.loudness_layout().ss_layout().sound_system()));
      ok = ok && got.size() == want.size() && got[0] == want[0];
      std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
      ok = ok && want == got;
      if (!ok) { why = "layouts"; continue; }
      for (auto& l : s.layouts()) {
        auto& q = l.loudness();
        std::multiset<int> types; for (auto t : q.info_type_bit_masks()) types.insert(t);
        std::multiset<int> wt; if (w.prog && w.prog->peak) wt.insert(pb::LOUDNESS_INFO_TYPE_TRUE_PEAK); if (w.prog && w.prog->dialogue) wt.insert(pb::LOUDNESS_INFO_TYPE_ANCHORED_LOUDNESS);
        ok = ok && types == wt && q.integrated_loudness() == (w.prog && w.prog->set_loudness ? w.prog->loudness : 0) && q.digital_peak() == 0 && (!w.prog || !w.prog->peak || q.true_peak() == *w.prog->peak) &&
             (!w.prog || !w.prog->dialogue || (q.anchored_loudness().anchor_elements_size() == 1 && q.anchored_loudness().anchor_elements(0).anchor_element() == pb::ANCHOR_TYPE_DIALOGUE && q.anchored_loudness().anchor_elements(0).anchored_loudness() == *w.prog->dialogue));
      }
      if (!ok) { why = "loudness"; continue; }
      taken[i] = 1; found = true;
    }
    V_CHECK_R(c, found, "mix", why + ": " + m.ShortDebugString() + " in " + text(), false);
    c.Count("mixes");
  }
  c.Count("elements", used.size());
  return true;
}
// The description and the files can be encoded as they are.
bool Encodes(Ctx& c, const Doc& d, const std::vector<int>& layouts, const std::vector<const Obj*>& kept, const pb::UserMetadata& u, const std::string& dir, ProfileVersion profile, const std::string& what) {
  if (u.mix_presentation_metadata_size() == 0 || u.codec_config_metadata(0).codec_config().num_samples_per_frame() == 0) { c.Count("nothing-to-encode"); return true; }
  for (auto& m : d.programmes.empty() ? std::vector<Mix_>{{{0}, nullptr}} : MixesOf(d, kept)) { int n = 0; for (size_t k : m.objects) n += Layouts()[layouts[k]].channels; if (n > (profile == ProfileVersion::kIamfBaseProfile ? 18 : 28)) { c.Count("beyond-profile"); return true; } }
  if (d.rate != 48000 && d.rate != 44100 && d.rate != 96000 && d.rate != 16000) return true;
  auto e = enc::Enc::Create(u, nullptr, nullptr, RenderingMixPresentationFinalizer::ProduceNoSampleProcessors, enc::Enc::CreateNoObuSequencers);
  V_CHECK_R(c, e.ok(), "not-encodable", std::string(e.status().message()) + " " + what + "\n" + u.ShortDebugString().substr(0, 3500), false);
  auto wavs = WavSampleProvider::Create(u.audio_frame_metadata(), dir, (*e)->GetAudioElements());
  V_CHECK_R(c, wavs.ok(), "not-readable", std::string(wavs.status().message()) + " " + what, false);
  uint32_t n = u.codec_config_metadata(0).codec_config().num_samples_per_frame(), units = 0;
  bool done = false;
  for (uint32_t k = 0; (*e)->GeneratingTemporalUnits() && k < 100000; ++k) {
    api::IamfTemporalUnitData t;
    std::map<uint32_t, LabelSamplesMap> s;
    if (!done) for (auto& f : u.audio_frame_metadata()) {
      bool fin = false;
      auto st = wavs->ReadFrames(f.audio_element_id(), s[f.audio_element_id()], fin);
      V_CHECK_R(c, st.ok(), "read-frames", std::string(st.message()) + " " + what, false);
      done |= fin;
      for (auto& [l, v] : s[f.audio_element_id()]) { pb::ChannelLabelMessage m; m.set_channel_label(*ChannelLabelUtils::LabelToProto(l)); t.audio_element_id_to_data[f.audio_element_id()][m.SerializeAsString()] = absl::MakeConstSpan(v); }
    }
    auto st = (*e)->Encode(t);
    V_CHECK_R(c, st.ok(), "encode", std::string(st.message()) + " " + what, false);
    if (done) { st = (*e)->FinalizeEncode(); V_CHECK_R(c, st.ok(), "finalize", std::string(st.message()) + " " + what, false); }
    Bytes tu; st = (*e)->OutputTemporalUnit(tu);
    V_CHECK_R(c, st.ok(), "unit", std::string(st.message()) + " " + what, false);
    if (!tu.empty()) ++units;
  }
  V_CHECK_R(c, units == (d.samples + n - 1) / n, "units", std::to_string(units) + " units of " + std::to_string(n) + " for " + std::to_string(d.samples) + " samples " + what, false);
  c.Count("encoded");
  return true;
}
void Default(Ctx& c) {
  Rng& r = c.rng;
  vext_wav_extensible = r.Bool();
  Doc d = DefaultDoc(r);
  std::string xml = Xml(r, d), prefix = r.Chance(1, 3) ? "p" : "file name";
  int threshold = r.Chance(1, 2) ? 0 : static_cast<int>(r.Range(-2, 12)), ms = static_cast<int>(r.Range(1, 40));
  auto profile = r.Bool() ? ProfileVersion::kIamfBaseProfile : ProfileVersion::kIamfBaseEnhancedProfile;
  std::vector<const Obj*> kept; std::vector<int> layouts; std::vector<int> first; int at = 0;
  for (auto& o : d.objects) { if (o.importance >= std::clamp(threshold, 0, 10) && o.layout >= 0) { kept.push_back(&o); layouts.push_back(o.layout); first.push_back(at); } at += o.tracks; }
  Bytes file = File(r, d, xml);
  std::string what = "threshold " + std::to_string(threshold) + " ms " + std::to_string(ms) + " " + std::to_string(d.channels) + " channels " + std::to_string(d.bits) + " bits " + std::to_string(d.samples) + " samples: " + xml;
  c.Eval();
  auto v = Convert(c, file, prefix, ms, threshold, profile);
  struct Clean { std::string d; ~Clean() { std::error_code e; std::filesystem::remove_all(d, e); } } clean{v.dir};
  if (kept.empty()) { V_CHECK(c, !v.u.ok(), "nothing-accepted", what); c.Count("nothing"); return; }
  V_CHECK(c, v.u.ok(), "refused", std::string(v.u.status().message()) + " " + what);
  int bytes = d.bits / 8;
  V_CHECK(c, v.files.size() == kept.size(), "file-count", std::to_string(v.files.size()) + " files " + what);
  for (size_t k = 0; k < kept.size(); ++k) {
    std::string name = prefix + "_converted" + std::to_string(k + 1) + ".wav";
    Wav w = ReadWav(v.dir + "/" + name);
    V_CHECK(c, w.ok && w.ch == kept[k]->tracks && w.bits == d.bits && w.rate == d.rate, "file-format", name + " " + what);
    Bytes want;
    for (size_t t = 0; t < d.samples; ++t) { auto p = d.audio.begin() + (t * d.channels + first[k]) * bytes; want.insert(want.end(), p, p + kept[k]->tracks * bytes); }
    V_CHECK(c, w.data == want, "file-data", name + " " + Hex(w.data, 40) + " want " + Hex(want, 40) + " " + what);
    c.Count("files"); c.Count("tracks", kept[k]->tracks);
    c.Distinct(HashVec(w.data) + layouts[k]);
  }
  if (kept.size() < d.objects.size()) c.Count("objects-removed");
  if (!CheckMetadata(c, d, kept, layouts, *v.u, prefix, ms, profile, what)) return;
  if (!Encodes(c, d, layouts, kept, *v.u, v.dir, profile, what)) return;
  c.Count("documents");
  if (c.WantSample()) c.Sample(xml.substr(0, 300));
}
void Dolby(Ctx& c) {
  Rng& r = c.rng;
  vext_wav_extensible = 1;
  Doc d = DolbyDoc(r);
  std::string xml = Xml(r, d), prefix = "dolby";
  int ms = static_cast<int>(r.Range(1, 40));
  auto profile = r.Bool() ? ProfileVersion::kIamfBaseProfile : ProfileVersion::kIamfBaseEnhancedProfile;
  bool separate = profile == ProfileVersion::kIamfBaseEnhancedProfile;
  Bytes file = File(r, d, xml);
  std::string what = std::string(separate ? "enhanced" : "base") + " " + std::to_string(d.rate) + " Hz " + std::to_string(d.samples) + " samples: " + xml;
  c.Eval();
  auto v = Convert(c, file, prefix, ms, 0, profile);
  struct Clean { std::string d; ~Clean() { std::error_code e; std::filesystem::remove_all(d, e); } } clean{v.dir};
  V_CHECK(c, v.u.ok(), "dolby-refused", std::string(v.u.status().message()) + " " + what);
  std::vector<int> lfe, rest;
  for (int k = 0; k < d.channels; ++k) (separate && d.chans[k].name == "RoomCentricLFE" ? lfe : rest).push_back(k);
  V_CHECK(c, v.files.size() == 1 + lfe.size(), "dolby-file-count", std::to_string(v.files.size()) + " files " + what);
  auto sample = [&](size_t t, int k) { const uint8_t* p = &d.audio[(t * d.channels + k) * 3]; return static_cast<int32_t>(uint32_t{p[0]} << 8 | uint32_t{p[1]} << 16 | uint32_t{p[2]} << 24); };
  Wav w = ReadWav(v.dir + "/" + prefix + "_converted1.wav");
  V_CHECK(c, w.ok && w.ch == 16 && w.bits == 24 && w.rate == d.rate && w.data.size() == d.samples * 48, "toa-format", std::to_string(w.data.size() / 48) + " samples " + what);
  // The weights of every block.
  std::map<std::pair<int, int>, std::array<Ld, 16>> weights;
  std::map<std::pair<int, int>, Ld> slack;  // 1 - sin^2 in single precision near the poles
  for (int k : rest) for (size_t b = 0; b < d.chans[k].blocks.size(); ++b) {
    auto& q = d.chans[k].blocks[b];
    auto f = [](double x) { return static_cast<Ld>(std::stof(([&] { char t[40]; snprintf(t, sizeof t, "%.6f", x); return std::string(t); })())); };
    Ld x = f(q.x), y = f(q.y), z = f(q.z), az = -std::atan2(x, y), el = std::atan2(z, std::hypot(x, y)), g = 1 / std::max<Ld>(std::sqrt(x * x + y * y + z * z), 0.5L);
    for (int a = 0; a < 16; ++a) weights[{k, static_cast<int>(b)}][a] = g * Weight(a, az, el);
    slack[{k, static_cast<int>(b)}] = g * 6 * std::min<Ld>(2e-7L / std::max<Ld>(std::cos(el), 1e-9L), 4e-4L);
  }
  auto block = [&](int k, int64_t t) { auto& q = d.chans[k].blocks; size_t b = 0; while (b + 1 < q.size() && q[b + 1].start <= t) ++b; return static_cast<int>(b); };
  for (size_t t = 0; t < d.samples; ++t) for (int a = 0; a < 16; ++a) {
    // Rounding of the times may move a change of blocks by one sample.
    bool ok = false; Ld lo = 0, hi = 0, more = 0;
    for (int k : rest) {
      Ld x = sample(t, k) / 2147483648.0L, m = 1e9, n = -1e9, wide = 0;
      for (int o = -1; o <= 1; ++o) { int64_t s = std::clamp<int64_t>(static_cast<int64_t>(t) + o, 0, d.samples - 1); Ld p = weights[{k, block(k, s)}][a] * x; m = std::min(m, p); n = std::max(n, p); wide = std::max(wide, slack[{k, block(k, s)}]); }
      lo += m; hi += n; more += wide * std::abs(x);
    }
    const uint8_t* p = &w.data[(t * 16 + a) * 3];
    Ld got = static_cast<int32_t>(uint32_t{p[0]} << 8 | uint32_t{p[1]} << 16 | uint32_t{p[2]} << 24) / 2147483648.0L;
    Ld tol = 3e-6L + 4e-6L * rest.size() + more;
    ok = got >= std::clamp<Ld>(lo, -1, 1) - tol && got <= std::clamp<Ld>(hi, -1, 1) + tol;
    V_CHECK(c, ok, "toa-sample", "tick " + std::to_string(t) + " ACN " + std::to_string(a) + " is " + std::to_string(static_cast<double>(got)) + ", want " + std::to_string(static_cast<double>(lo)) + ".." + std::to_string(static_cast<double>(hi)) + " " + what);
    c.Count("toa-samples");
    if (lo == hi) c.Count("toa-samples-inside");
  }
  for (size_t k = 0; k < lfe.size(); ++k) {
    Wav l = ReadWav(v.dir + "/" + prefix + "_converted" + std::to_string(k + 2) + ".wav");
    Bytes want; for (size_t t = 0; t < d.samples; ++t) { auto p = d.audio.begin() + (t * d.channels + lfe[k]) * 3; want.insert(want.end(), p, p + 3); }
    V_CHECK(c, l.ok && l.ch == 1 && l.bits == 24 && l.rate == d.rate && l.data == want, "lfe-file", Hex(l.data, 30) + " want " + Hex(want, 30) + " " + what);
    c.Count("lfe-files");
  }
  c.Distinct(HashVec(w.data));
  // One mix of the ambisonics and the LFE, with the names and gains of the objects that stand for them.
  Doc e = d;
  while (e.objects.size() < 1 + lfe.size()) { Obj o = e.objects[0]; o.id += "_LFE"; e.objects.push_back(o); for (auto& ct : e.contents) for (size_t i = 0; i < ct.objects.size(); ++i) if (ct.objects[i] == e.objects[0].id) { ct.objects.push_back(o.id); break; } c.Count("bed-only-lfe"); }
  e.objects.resize(1 + lfe.size());
  std::vector<const Obj*> kept; std::vector<int> layouts;
  for (size_t k = 0; k < e.objects.size(); ++k) { kept.push_back(&e.objects[k]); layouts.push_back(k ? kLfe : kToa); }
  if (!CheckMetadata(c, e, kept, layouts, *v.u, prefix, ms, profile, what)) return;
  if (!Encodes(c, e, layouts, kept, *v.u, v.dir, profile, what)) return;
  c.Count("dolby-documents"); c.Count(separate ? "dolby-enhanced" : "dolby-base");
  if (c.WantSample()) c.Sample(xml.substr(0, 300));
}
// Anything must be refused or converted, never crash, and leave no temporary files.
void Hostile(Ctx& c) {
  Rng& r = c.rng;
  vext_wav_extensible = r.Chance(7, 8);
  Doc d = r.Bool() ? DolbyDoc(r) : DefaultDoc(r);
  if (d.samples > 300) { d.samples = 12 * r.Range(1, 20); Audio(r, d); }
  std::string xml = Xml(r, d);
  if (r.Chance(1, 6)) d.dolby = !d.dolby;
  if (r.Chance(1, 6)) d.channels = static_cast<int>(r.Range(1, 20));
  if (r.Chance(1, 12)) d.bits = r.Pick<int>({16, 24, 32});
  if (r.Chance(1, 8)) d.audio.resize(r.Below(d.audio.size() + 30));
  int n = static_cast<int>(r.Below(4));
  static const std::vector<std::string> words = {"nan", "inf", "-1e30", "1e39", "", " ", "0", "00:00:00.00000", "00:00:00.00001", "99:99:99", "00:00:01", "RoomCentricLFE", "RoomCentricLeft", "AO_1001", "AO_1002", "AP_00010002", "AP_00040003", "AP_00011FFF", "AP_00031001", "AC_00031001", "x", "&amp;", "00:00:-1.0", "-1:00:00.0"};
  for (int k = 0; k < n && !xml.empty(); ++k) {
    auto near = [&](const char* set) { size_t p = r.Below(xml.size()); while (p < xml.size() && !strchr(set, xml[p])) ++p; return std::min(p, xml.size() - 1); };
    switch (r.Below(7)) {
      case 0: { size_t a = near("<"), b = xml.find('>', a); if (b != std::string::npos) xml.erase(a, b - a + 1); break; }
      // A whole element, with all that is in it or without.
      case 1: case 2: {
        size_t a = near("<"); if (a + 1 >= xml.size() || strchr("/?!", xml[a + 1])) break;
        size_t e = a + 1; while (e < xml.size() && isalpha(static_cast<unsigned char>(xml[e]))) ++e;
        std::string name = xml.substr(a + 1, e - a - 1); size_t b = xml.find("</" + name + ">", e);
        if (b == std::string::npos) break;
        b += name.size() + 3;
        if (r.Bool()) xml.erase(a, b - a); else { std::string copy = xml.substr(a, b - a); xml.insert(r.Bool() ? a : b, copy); }
        break;
      }
      case 3: { size_t a = near("\""), b = xml.find('"', a + 1); if (b != std::string::npos) xml.replace(a + 1, b - a - 1, r.Pick(words)); break; }
      case 4: case 5: { size_t a = near(">"), b = xml.find('<', a); if (b != std::string::npos) xml.replace(a + 1, b - a - 1, r.Pick(words)); break; }
      default: { size_t a = r.Below(xml.size()); xml[a] = static_cast<char>(r.U8()); break; }
    }
  }
  Bytes file = File(r, d, xml);
  if (r.Chance(1, 8)) { for (int k = 0; k < 3; ++k) file[r.Below(file.size())] = r.U8(); }
  if (r.Chance(1, 15)) file.resize(r.Below(file.size()));
  auto profile = r.Chance(1, 20) ? ProfileVersion::kIamfSimpleProfile : r.Bool() ? ProfileVersion::kIamfBaseProfile : ProfileVersion::kIamfBaseEnhancedProfile;
  int ms = r.Chance(1, 6) ? r.Pick<int>({0, -1, 1000000, 5}) : 10;
  c.Eval();
  std::string out = r.Chance(1, 12) ? c.scratch + "/none" : "";
  auto v = Convert(c, file, "h", ms, static_cast<int>(r.Range(0, 10)), profile, out);
  if (!out.empty()) { V_CHECK(c, !v.u.ok(), "no-directory-accepted", xml); c.Count("no-directory"); }
  c.Count(v.u.ok() ? "hostile-converted" : "hostile-refused");
  if (v.u.ok()) {
    // What was converted names files that are there.
    for (auto& f : v.u->audio_frame_metadata()) V_CHECK(c, v.files.count(f.wav_filename()), "names-missing-file", f.wav_filename() + " of " + xml);
    c.Distinct(HashStr(v.u->ShortDebugString()));
  } else c.Distinct(HashStr(std::string(v.u.status().message())));
  std::error_code ec;
  if (out.empty()) std::filesystem::remove_all(v.dir, ec);
}

void InTmp(Ctx& c, void (*f)(Ctx&)) { std::string t = c.scratch + "/tmp"; std::filesystem::create_directories(t); setenv("TMPDIR", t.c_str(), 1); f(c); }
void G1(Ctx& c) { InTmp(c, Default); }
void G2(Ctx& c) { InTmp(c, Dolby); }
void G3(Ctx& c) { InTmp(c, Hostile); }
}  // namespace
V_MAIN({{"default", 1500, 30000, G1}, {"dolby", 1200, 20000, G2}, {"hostile", 6000, 150000, G3}})
