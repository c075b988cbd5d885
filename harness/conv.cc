// C31: conversions between API types, proto enumerations, channel labels and OBU values.
#include <algorithm>
#include "absl/strings/ascii.h"
#include "harness/vlib.h"
#include "iamf/api/conversion/mix_presentation_conversion.h"
#include "iamf/api/conversion/profile_conversion.h"
#include "iamf/cli/channel_label.h"
#include "iamf/cli/proto_conversion/channel_label_utils.h"
#include "iamf/cli/proto_conversion/codec_config_utils.h"
#include "iamf/cli/proto_conversion/lookup_tables.h"
#include "iamf/cli/proto_conversion/obu_to_proto/ia_sequence_header_metadata_generator.h"
#include "iamf/cli/proto_conversion/obu_to_proto/obu_header_metadata_generator.h"
#include "iamf/cli/proto_conversion/obu_to_proto/parameter_block_metadata_generator.h"
#include "iamf/cli/proto_conversion/proto_to_obu/ia_sequence_header_generator.h"
#include "iamf/cli/proto_conversion/proto_utils.h"
#include "iamf/cli/renderer/gains/get_gains.h"
#include "iamf/cli/renderer/renderer_utils.h"
#include "iamf/common/utils/map_utils.h"
#include "iamf/include/iamf_tools/iamf_tools_api_types.h"
#include "iamf/obu/extension_parameter_data.h"
#include "iamf/obu/mix_gain_parameter_data.h"
using namespace vlib;
using namespace iamf_tools;
namespace pb = iamf_tools_cli_proto;
typedef ChannelLabel::Label L;
namespace {
typedef LoudspeakersSsConventionLayout SS;
Layout Loud(int ss) { Layout l; l.layout_type = Layout::kLayoutTypeLoudspeakersSsConvention; l.specific_layout = SS{.sound_system = static_cast<SS::SoundSystem>(ss)}; return l; }
Layout Other(Layout::LayoutType t, int r = 0) { Layout l; l.layout_type = t; l.specific_layout = LoudspeakersReservedOrBinauralLayout{.reserved = static_cast<uint8_t>(r)}; return l; }

// Sound system code -> number of channels and table key (Rec. ITU-R BS.2051-3, IAMF 3.7.3.2).
const std::vector<std::pair<int, std::string>> kSystems = {{2, "0+2+0"}, {6, "0+5+0"}, {8, "2+5+0"}, {10, "4+5+0"}, {11, "4+5+1"}, {12, "3+7+0"}, {14, "4+9+0"}, {24, "9+10+3"}, {8, "0+7+0"}, {12, "4+7+0"}, {10, "7.1.2"}, {6, "3.1.2"}, {1, "0+1+0"}, {16, "9.1.6"}, {17, "7.1.5.4"}};

void ApiLayouts(Ctx& c) {
  c.Eval();
  // API value i (0..13) is sound system i, 14 is binaural.
  std::set<int> seen;
  for (int i = 0; i <= 14; ++i) {
    auto api = static_cast<api::OutputLayout>(i);
    auto l = ApiToInternalType(std::optional<api::OutputLayout>(api));
    c.Count("api-layouts"); c.Distinct(i);
    V_CHECK(c, l.has_value(), "api-layout-absent", i);
    Layout want = i == 14 ? Other(Layout::kLayoutTypeBinaural) : Loud(i);
    V_CHECK(c, *l == want, "api-layout-value", i);
    auto back = InternalToApiType(*l);
    V_CHECK(c, back.ok() && *back == api, "api-layout-back", i);
    int32_t n = -1;
    V_CHECK(c, MixPresentationObu::GetNumChannelsFromLayout(*l, n).ok(), "api-layout-channels", i);
    V_CHECK(c, n == (i == 14 ? 2 : kSystems[i].first), "api-layout-channel-count", i << " " << n);
  }
  V_CHECK(c, !ApiToInternalType(std::nullopt).has_value(), "api-nullopt", "");
  for (int i = 0; i < 256; ++i) {
    auto r = InternalToApiType(Loud(i));
    V_CHECK(c, r.ok() == (i <= 13), "internal-sound-system", i << " " << r.ok());
    if (r.ok()) V_CHECK(c, seen.insert(static_cast<int>(*r)).second && static_cast<int>(*r) == i, "internal-one-to-one", i);
    int32_t n = -7;
    auto s = MixPresentationObu::GetNumChannelsFromLayout(Loud(i), n);
    V_CHECK(c, s.ok() == (i <= 14), "channels-known", i);
    if (s.ok()) V_CHECK(c, n == kSystems[i].first, "channels-count", i << " " << n);
    auto key = LookupOutputKeyFromPlaybackLayout(Loud(i));
    V_CHECK(c, key.ok() == (i <= 14), "key-known", i);
    if (key.ok()) {
      V_CHECK(c, *key == kSystems[i].second, "key-value", i << " " << *key);
      auto g = GetGainsForLayoutPair("A1", *key);
      V_CHECK(c, g.ok() && (*g)[0].size() == (size_t)n, "key-gains", i);
    }
  }
  for (auto t : {Layout::kLayoutTypeReserved0, Layout::kLayoutTypeReserved1}) {
    V_CHECK(c, !InternalToApiType(Other(t)).ok(), "reserved-layout", t);
    int32_t n; V_CHECK(c, !MixPresentationObu::GetNumChannelsFromLayout(Other(t), n).ok(), "reserved-channels", t);
    V_CHECK(c, !LookupOutputKeyFromPlaybackLayout(Other(t)).ok(), "reserved-key", t);
  }
  V_CHECK(c, !LookupOutputKeyFromPlaybackLayout(Other(Layout::kLayoutTypeBinaural)).ok(), "binaural-key", "");
  for (int r = 0; r < 64; ++r) { auto b = InternalToApiType(Other(Layout::kLayoutTypeBinaural, r)); V_CHECK(c, b.ok() && *b == api::OutputLayout::kIAMF_Binaural, "binaural", r); }
  // The layout type and its contents have to agree.
  Layout mixed = Loud(0); mixed.layout_type = Layout::kLayoutTypeBinaural;
  V_CHECK(c, !InternalToApiType(mixed).ok(), "mismatch-binaural", "");
  mixed = Other(Layout::kLayoutTypeBinaural); mixed.layout_type = Layout::kLayoutTypeLoudspeakersSsConvention;
  V_CHECK(c, !InternalToApiType(mixed).ok(), "mismatch-loudspeakers", "");
  for (int i = 0; i <= 2; ++i) {
    auto p = static_cast<api::ProfileVersion>(i);
    V_CHECK(c, static_cast<int>(ApiToInternalType(p)) == i, "profile", i);
  }
  for (int i = 0; i < 256; ++i) {
    auto b = InternalToApiType(static_cast<ProfileVersion>(i));
    V_CHECK(c, b.ok() == (i <= 2), "profile-domain", i);
    if (b.ok()) V_CHECK(c, static_cast<int>(*b) == i, "profile-back", i);
  }
}
void Status(Ctx& c) {
  std::string msg; for (size_t i = c.rng.Below(40); i-- > 0;) msg += static_cast<char>(c.rng.U8());
  auto e = api::IamfStatus::ErrorStatus(msg);
  c.Eval(); c.Distinct(HashStr(msg));
  V_CHECK(c, !e.ok() && !e.success && e.error_message == msg, "error-status", Hex(msg));
  std::ostringstream o; o << e;
  V_CHECK(c, o.str() == "Failure: " + msg + "\n", "error-text", o.str());
  auto ok = api::IamfStatus::OkStatus();
  std::ostringstream o2; o2 << ok;
  V_CHECK(c, ok.ok() && ok.success && ok.error_message.empty() && o2.str() == "Success\n", "ok-status", o2.str());
  auto copy = e; V_CHECK(c, !copy.ok() && copy.error_message == msg, "copy-status", "");
  c.Count("statuses");
}

std::string Norm(std::string s) { std::string r; for (char ch : s) if (ch != '_') r += absl::ascii_tolower(ch); return r; }
const int kLabels = static_cast<int>(ChannelLabel::kA24) + 1;

void Labels(Ctx& c) {
  c.Eval();
  std::set<std::string> names;
  for (int i = 0; i < kLabels; ++i) {
    L l = static_cast<L>(i);
    std::string n = ChannelLabel::LabelToStringForDebugging(l);
    V_CHECK(c, names.insert(n).second, "label-name-unique", n);
    auto p = ChannelLabelUtils::LabelToProto(l);
    bool wire = l != ChannelLabel::kOmitted && n.rfind("Demixed", 0) != 0;
    V_CHECK(c, p.ok() == wire, "label-to-proto-domain", n);
    c.Count("labels"); c.Distinct(i);
    if (p.ok()) {
      std::string pn = Norm(pb::ChannelLabel_Name(*p).substr(strlen("CHANNEL_LABEL_")));
      if (pn == "mono") pn = "m";
      if (pn == "centre") pn = "c";
      V_CHECK(c, pn == Norm(n), "label-proto-name", n << " " << pb::ChannelLabel_Name(*p));
      auto b = ChannelLabelUtils::ProtoToLabel(*p);
      V_CHECK(c, b.ok() && *b == l, "label-round-trip", n);
    }
    auto d = ChannelLabel::GetDemixedLabel(l);
    static const std::set<std::string> kDemixable = {"R2", "L3", "R3", "L5", "R5", "Ls5", "Rs5", "Ltf2", "Rtf2", "Ltb4", "Rtb4", "L7", "R7", "Lrs7", "Rrs7"};
    V_CHECK(c, d.ok() == (kDemixable.count(n) > 0), "demixed-domain", n);
    if (d.ok()) V_CHECK(c, ChannelLabel::LabelToStringForDebugging(*d) == "Demixed" + n, "demixed-value", n);
  }
  for (int v = 0; v < pb::ChannelLabel_ARRAYSIZE + 40; ++v) {
    if (!pb::ChannelLabel_IsValid(v) || v == 0) { auto r = ChannelLabelUtils::ProtoToLabel(static_cast<pb::ChannelLabel>(v)); V_CHECK(c, !r.ok(), "proto-label-domain", v); continue; }
    auto r = ChannelLabelUtils::ProtoToLabel(static_cast<pb::ChannelLabel>(v));
    V_CHECK(c, r.ok(), "proto-label-known", pb::ChannelLabel_Name(static_cast<pb::ChannelLabel>(v)));
    auto b = ChannelLabelUtils::LabelToProto(*r);
    V_CHECK(c, b.ok() && *b == v, "proto-label-back", v);
  }
  for (int i = -300; i < 600; ++i) {
    auto r = ChannelLabel::AmbisonicsChannelNumberToLabel(i);
    V_CHECK(c, r.ok() == (i >= 0 && i <= 24), "ambisonics-domain", i);
    if (r.ok()) V_CHECK(c, ChannelLabel::LabelToStringForDebugging(*r) == "A" + std::to_string(i), "ambisonics-label", i);
  }
}
std::vector<std::string> Split(const std::string& s) { std::vector<std::string> r; std::istringstream i(s); std::string w; while (i >> w) r.push_back(w); return r; }
// EAR channel orders, written from BS.2051-3 and the IAMF layout tables ("-" is an omitted slot).
const std::vector<std::string> kOrders = {"M", "L2 R2", "L5 R5 C LFE Ls5 Rs5", "L5 R5 C LFE Ls5 Rs5 Ltf2 Rtf2", "L5 R5 C LFE Ls5 Rs5 Ltf4 Rtf4 Ltb4 Rtb4",
    "L7 R7 C LFE Lss7 Rss7 Lrs7 Rrs7", "L7 R7 C LFE Lss7 Rss7 Lrs7 Rrs7 Ltf2 Rtf2", "L7 R7 C LFE Lss7 Rss7 Lrs7 Rrs7 Ltf4 Rtf4 Ltb4 Rtb4", "L3 R3 C LFE Ltf3 Rtf3", "L2 R2"};
const std::string k714 = "L7 R7 C LFE Lss7 Rss7 Lrs7 Rrs7 Ltf4 Rtf4 Ltb4 Rtb4", k514 = "L5 R5 C LFE Ls5 Rs5 Ltf4 Rtf4 Ltb4 Rtb4", k916 = "FL FR FC LFE BL BR FLc FRc SiL SiR TpFL TpFR TpBL TpBR TpSiL TpSiR",
    kH = "FL FR FC LFE BL BR FLc FRc BC LFE2 SiL SiR TpFL TpFR TpFC TpC TpBL TpBR TpSiL TpSiR TpBC BtFC BtFL BtFR", k7154 = "L7 R7 C LFE Lss7 Rss7 Lrs7 Rrs7 Ltf4 Rtf4 Ltb4 Rtb4 TpC BtFL BtFR BtBL BtBR";
const std::vector<std::pair<std::string, std::string>> kExpanded = {{k714, "LFE"}, {k514, "Ls5 Rs5"}, {k714, "Lss7 Rss7"}, {k714, "Lrs7 Rrs7"}, {k714, "Ltf4 Rtf4"}, {k714, "Ltb4 Rtb4"}, {k714, "Ltf4 Rtf4 Ltb4 Rtb4"}, {k714, "L7 R7 C"}, {k916, ""}, {k916, "FL FR"}, {k916, "SiL SiR"}, {k916, "TpSiL TpSiR"}, {k916, "TpFL TpFR TpSiL TpSiR TpBL TpBR"}, {kH, ""}, {kH, "LFE LFE2"}, {kH, "BtFC BtFL BtFR"}, {k7154, ""}, {k7154, "BtFL BtFR BtBL BtBR"}, {k7154, "TpC"}, {k7154, "Ltf4 Rtf4 Ltb4 Rtb4 TpC"}};

void Orders(Ctx& c) {
  c.Eval();
  typedef ChannelAudioLayerConfig CL;
  for (int i = 0; i < 256; ++i) {
    auto ll = static_cast<CL::LoudspeakerLayout>(i);
    if (i == 15) {
      V_CHECK(c, !ChannelLabel::LookupEarChannelOrderFromScalableLoudspeakerLayout(ll, std::nullopt).ok(), "expanded-missing", "");
      V_CHECK(c, !ChannelLabel::LookupLabelsToReconstructFromScalableLoudspeakerLayout(ll, std::nullopt).ok(), "expanded-missing-reconstruct", "");
      for (int e = 0; e < 256; ++e) {
        auto ee = static_cast<CL::ExpandedLoudspeakerLayout>(e);
        auto r = ChannelLabel::LookupEarChannelOrderFromScalableLoudspeakerLayout(ll, ee);
        c.Count("expanded");
        V_CHECK(c, r.ok() == (e < 20), "expanded-domain", e);
        if (!r.ok()) continue;
        auto all = Split(kExpanded[e].first), keep = Split(kExpanded[e].second);
        V_CHECK(c, r->size() == all.size(), "expanded-size", e << " " << r->size());
        for (size_t k = 0; k < all.size(); ++k) {
          bool kept = keep.empty() || std::find(keep.begin(), keep.end(), all[k]) != keep.end();
          V_CHECK(c, ChannelLabel::LabelToStringForDebugging((*r)[k]) == (kept ? all[k] : "Omitted"), "expanded-order", e << " slot " << k << " " << ChannelLabel::LabelToStringForDebugging((*r)[k]));
        }
        auto q = ChannelLabel::LookupLabelsToReconstructFromScalableLoudspeakerLayout(ll, ee);
        V_CHECK(c, q.ok() && q->empty(), "expanded-reconstruct", e);
      }
      continue;
    }
    for (int e = -1; e < 3; ++e) {  // the expanded layout is irrelevant
      std::optional<CL::ExpandedLoudspeakerLayout> ee; if (e >= 0) ee = static_cast<CL::ExpandedLoudspeakerLayout>(e * 9);
      auto r = ChannelLabel::LookupEarChannelOrderFromScalableLoudspeakerLayout(ll, ee);
      auto q = ChannelLabel::LookupLabelsToReconstructFromScalableLoudspeakerLayout(ll, ee);
      c.Count("orders");
      V_CHECK(c, r.ok() == (i <= 9) && q.ok() == r.ok(), "order-domain", i);
      if (!r.ok()) continue;
      auto want = Split(kOrders[i]);
      V_CHECK(c, r->size() == want.size() && q->size() == want.size(), "order-size", i);
      for (size_t k = 0; k < want.size(); ++k) {
        V_CHECK(c, ChannelLabel::LabelToStringForDebugging((*r)[k]) == want[k], "order-label", i << " slot " << k);
        V_CHECK(c, q->contains((*r)[k]), "reconstruct-label", i << " slot " << k);
      }
    }
  }
  // Recon gain flags: L C R Ls Rs Ltf Rtf Lrs Rrs Ltb Rtb LFE.
  const char* want[12] = {"L", "", "R", "Ls5", "Rs5", "Ltf2", "Rtf2", "Lrs7", "Rrs7", "Ltb4", "Rtb4", ""};
  for (int i = 0; i < 10; ++i) {
    std::string suffix = i == 1 ? "2" : (i >= 2 && i <= 4) ? "5" : (i >= 5 && i <= 7) ? "7" : i == 8 ? "3" : "";
    for (int b = 0; b < 16; ++b) {
      auto r = ChannelLabel::GetDemixedChannelLabelForReconGain(static_cast<CL::LoudspeakerLayout>(i), static_cast<ReconGainElement::ReconGainFlagBitmask>(1u << b));
      c.Count("recon-labels");
      std::string w = b < 12 ? want[b] : "";
      if (b == 0 || b == 2) { w = suffix.empty() ? "" : w + suffix; if (b == 0 && i == 1) w = ""; }
      V_CHECK(c, r.ok() == !w.empty(), "recon-label-domain", i << " bit " << b << " " << r.ok());
      if (r.ok()) V_CHECK(c, ChannelLabel::LabelToStringForDebugging(*r) == "Demixed" + w, "recon-label", i << " bit " << b << " " << ChannelLabel::LabelToStringForDebugging(*r));
    }
  }
}

// Name of the proto enumerator -> code in the bitstream, from the IAMF, FLAC and AAC specifications.
template <class Table, class NameFn>
void CheckTable(Ctx& c, const char* what, const Table& table, NameFn name, const std::map<std::string, int64_t>& want) {
  std::set<int64_t> in, out;
  for (const auto& [p, v] : table) {
    std::string n(name(p));
    auto it = want.find(n);
    c.Count("table-rows"); c.Distinct(HashStr(std::string(what) + n));
    V_CHECK(c, it != want.end(), std::string("table-name:") + what, n);
    V_CHECK(c, it->second == static_cast<int64_t>(v), std::string("table-value:") + what, n << " " << static_cast<int64_t>(v));
    V_CHECK(c, in.insert(static_cast<int64_t>(p)).second && out.insert(static_cast<int64_t>(v)).second, std::string("table-unique:") + what, n);
  }
  // Aliases share a code.
  std::set<int64_t> codes; for (auto& [n, v] : want) codes.insert(v);
  V_CHECK(c, out == codes && in.size() == codes.size(), std::string("table-complete:") + what, in.size());
  auto fwd = BuildStaticMapFromPairs(table);
  auto inv = BuildStaticMapFromInvertedPairs(table);
  V_CHECK(c, fwd->size() == codes.size() && inv->size() == codes.size(), std::string("table-map:") + what, fwd->size());
  for (const auto& [p, v] : table) { auto a = LookupInMap(*fwd, p, "x"); auto b = LookupInMap(*inv, v, "x"); V_CHECK(c, a.ok() && *a == v && b.ok() && *b == p, std::string("table-lookup:") + what, static_cast<int64_t>(v)); }
}
void Tables(Ctx& c) {
  c.Eval();
  typedef LookupTables T;
  CheckTable(c, "profile", T::kProtoAndInternalProfileVersions, [](auto p) { return pb::ProfileVersion_Name(p); },
             {{"PROFILE_VERSION_SIMPLE", 0}, {"PROFILE_VERSION_BASE", 1}, {"PROFILE_VERSION_BASE_ENHANCED", 2}, {"PROFILE_VERSION_BASE_ADVANCED", 3}, {"PROFILE_VERSION_ADVANCED1", 4}, {"PROFILE_VERSION_ADVANCED2", 5}, {"PROFILE_VERSION_RESERVED_255", 255}});
  CheckTable(c, "dmixp", T::kProtoAndInternalDMixPModes, [](auto p) { return pb::DMixPMode_Name(p); },
             {{"DMIXP_MODE_1", 0}, {"DMIXP_MODE_2", 1}, {"DMIXP_MODE_3", 2}, {"DMIXP_MODE_RESERVED_A", 3}, {"DMIXP_MODE_1_N", 4}, {"DMIXP_MODE_2_N", 5}, {"DMIXP_MODE_3_N", 6}, {"DMIXP_MODE_RESERVED_B", 7}});
  CheckTable(c, "codec", T::kProtoAndInternalCodecIds, [](auto p) { return pb::CodecId_Name(p); },
             {{"CODEC_ID_OPUS", 0x4f707573}, {"CODEC_ID_FLAC", 0x664c6143}, {"CODEC_ID_AAC_LC", 0x6d703461}, {"CODEC_ID_LPCM", 0x6970636d}});
  CheckTable(c, "flac", T::kProtoAndInternalFlacBlockTypes, [](auto p) { return pb::FlacBlockType_Name(p); },
             {{"FLAC_BLOCK_TYPE_STREAMINFO", 0}, {"FLAC_BLOCK_TYPE_PADDING", 1}, {"FLAC_BLOCK_TYPE_APPLICATION", 2}, {"FLAC_BLOCK_TYPE_SEEKTABLE", 3}, {"FLAC_BLOCK_TYPE_VORBIS_COMMENT", 4}, {"FLAC_BLOCK_TYPE_CUESHEET", 5}, {"FLAC_BLOCK_TYPE_PICTURE", 6}});
  std::map<std::string, int64_t> freq; int k = 0;
  for (const char* s : {"96000", "88200", "64000", "48000", "44100", "32000", "24000", "22050", "16000", "12000", "11025", "8000", "7350", "RESERVED_A", "RESERVED_B"}) freq["AAC_SAMPLE_FREQUENCY_INDEX_" + std::string(s)] = k++;
  CheckTable(c, "aac-frequency", T::kProtoAndInternalSampleFrequencyIndices, [](auto p) { return pb::SampleFrequencyIndex_Name(p); }, freq);
  CheckTable(c, "loudspeaker", T::kProtoAndInternalLoudspeakerLayouts, [](auto p) { return pb::LoudspeakerLayout_Name(p).substr(strlen("LOUDSPEAKER_LAYOUT_")); },
             {{"MONO", 0}, {"STEREO", 1}, {"5_1_CH", 2}, {"5_1_2_CH", 3}, {"5_1_4_CH", 4}, {"7_1_CH", 5}, {"7_1_2_CH", 6}, {"7_1_4_CH", 7}, {"3_1_2_CH", 8}, {"BINAURAL", 9}, {"RESERVED_10", 10}, {"RESERVED_14", 14}, {"EXPANDED", 15}});
  std::map<std::string, int64_t> ex; k = 0;
  for (const char* s : {"LFE", "STEREO_S", "STEREO_SS", "STEREO_RS", "STEREO_TF", "STEREO_TB", "TOP_4_CH", "3_0_CH", "9_1_6_CH", "STEREO_F", "STEREO_SI", "STEREO_TP_SI", "TOP_6_CH", "10_2_9_3_CH", "LFE_PAIR", "BOTTOM_3_CH", "7_1_5_4_CH", "BOTTOM_4_CH", "TOP_1_CH", "TOP_5_CH"}) ex[s] = k++;
  CheckTable(c, "expanded", T::kProtoAndInternalExpandedLoudspeakerLayouts, [](auto p) { return pb::ExpandedLoudspeakerLayout_Name(p).substr(strlen("EXPANDED_LOUDSPEAKER_LAYOUT_")); }, ex);
  std::map<std::string, int64_t> ss; k = 0;
  for (const char* s : {"A_0_2_0", "B_0_5_0", "C_2_5_0", "D_4_5_0", "E_4_5_1", "F_3_7_0", "G_4_9_0", "H_9_10_3", "I_0_7_0", "J_4_7_0", "10_2_7_0", "11_2_3_0", "12_0_1_0", "13_6_9_0", "14_5_7_4"}) ss["SOUND_SYSTEM_" + std::string(s)] = k++;
  CheckTable(c, "sound-system", T::kProtoAndInternalSoundSystems, [](auto p) { return pb::SoundSystem_Name(p); }, ss);
  CheckTable(c, "info-type", T::kProtoAndInternalInfoTypeBitmasks, [](auto p) { return pb::LoudnessInfoTypeBitMask_Name(p).substr(strlen("LOUDNESS_INFO_TYPE_")); },
             {{"TRUE_PEAK", 1}, {"ANCHORED_LOUDNESS", 2}, {"LIVE", 4}, {"RESERVED_4", 4}, {"RESERVED_8", 8}, {"RESERVED_16", 16}, {"RESERVED_32", 32}, {"RESERVED_64", 64}, {"RESERVED_128", 128}});
  std::map<std::string, int64_t> obu = {{"OBU_IA_CODEC_CONFIG", 0}, {"OBU_IA_AUDIO_ELEMENT", 1}, {"OBU_IA_MIX_PRESENTATION", 2}, {"OBU_IA_PARAMETER_BLOCK", 3}, {"OBU_IA_TEMPORAL_DELIMITER", 4}, {"OBU_IA_AUDIO_FRAME", 5}, {"OBU_IA_METADATA", 24}, {"OBU_IA_RESERVED_24", 24}, {"OBU_IA_SEQUENCE_HEADER", 31}};
  for (int i = 0; i < 18; ++i) obu["OBU_IA_AUDIO_FRAME_ID_" + std::to_string(i)] = 6 + i;
  for (int i = 25; i <= 30; ++i) obu["OBU_IA_RESERVED_" + std::to_string(i)] = i;
  CheckTable(c, "obu-type", T::kProtoArbitraryObuTypeAndInternalObuTypes, [](auto p) { return pb::ArbitraryObuType_Name(p); }, obu);
  CheckTable(c, "preset", T::kProtoAndInternalAmbisonicsPresets, [](auto p) { return pb::AmbisonicsPreset_Name(p); },
             {{"AMBISONICS_PRESET_BEST_PRACTICE_FOR_ORDER0", (int)AmbisonicsMixer::Preset::kBestPracticeForOrder0}, {"AMBISONICS_PRESET_BEST_PRACTICE_FOR_ORDER1", (int)AmbisonicsMixer::Preset::kBestPracticeForOrder1},
              {"AMBISONICS_PRESET_BEST_PRACTICE_FOR_ORDER2", (int)AmbisonicsMixer::Preset::kBestPracticeForOrder2}, {"AMBISONICS_PRESET_BEST_PRACTICE_FOR_ORDER3", (int)AmbisonicsMixer::Preset::kBestPracticeForOrder3}});
  for (int i = 0; i < 40; ++i) {
    auto r = ProtoToAmbisonicsPreset(static_cast<pb::AmbisonicsPreset>(i));
    V_CHECK(c, r.ok() == (pb::AmbisonicsPreset_IsValid(i) && i != 0), "preset-domain", i);
  }
}
// Container of labels: order kept, duplicates and unknown labels refused.
void FillLabels(Ctx& c) {
  std::vector<pb::ChannelLabel> in;
  bool dup = false, bad = false;
  std::set<int> seen;
  for (size_t n = c.rng.Below(14); n-- > 0;) {
    int v = c.rng.Chance(1, 25) ? (c.rng.Bool() ? 0 : 4000) : 1 + (int)c.rng.Below(pb::ChannelLabel_ARRAYSIZE - 1);
    if (!pb::ChannelLabel_IsValid(v) && v != 4000) v = 1;
    if (v == 0 || v == 4000) bad = true; else if (!seen.insert(v).second) dup = true;
    in.push_back(static_cast<pb::ChannelLabel>(v));
  }
  std::vector<L> out;
  auto s = ChannelLabelUtils::ConvertAndFillLabels(in, out);
  c.Eval(); c.Distinct(HashVec(in.empty() ? std::vector<pb::ChannelLabel>{pb::ChannelLabel_MAX} : in));
  bool valid_all = true; for (auto p : in) if (!ChannelLabelUtils::ProtoToLabel(p).ok()) valid_all = false;
  V_CHECK(c, s.ok() == (valid_all && !dup), "fill-verdict", in.size() << " dup " << dup << " bad " << bad << " ok " << s.ok());
  if (s.ok()) {
    c.Count("filled");
    V_CHECK(c, out.size() == in.size(), "fill-size", out.size());
    for (size_t i = 0; i < in.size(); ++i) V_CHECK(c, out[i] == *ChannelLabelUtils::ProtoToLabel(in[i]), "fill-order", i);
  } else c.Count("fill-refused");
}
// OBU header and IA sequence header: value -> proto -> value.
void Headers(Ctx& c) {
  ObuHeader h;
  h.obu_redundant_copy = c.rng.Bool(); h.type_specific_flag = c.rng.Bool();
  h.num_samples_to_trim_at_end = c.rng.Bool() ? 0 : c.rng.Edge32(); h.num_samples_to_trim_at_start = c.rng.Bool() ? 0 : c.rng.Edge32();
  if (c.rng.Bool()) h.extension_header_bytes = c.rng.Bytes(c.rng.Below(20));
  auto p = ObuHeaderMetadataGenerator::Generate(h);
  c.Eval(); c.Distinct(HashStr(p.ok() ? p->SerializeAsString() : "x"));
  V_CHECK(c, p.ok(), "header-to-proto", p.status().message());
  V_CHECK(c, p->obu_redundant_copy() == h.obu_redundant_copy && p->obu_trimming_status_flag() == h.type_specific_flag && p->obu_extension_flag() == h.extension_header_bytes.has_value() &&
             p->num_samples_to_trim_at_end() == h.num_samples_to_trim_at_end && p->num_samples_to_trim_at_start() == h.num_samples_to_trim_at_start, "header-proto-fields", p->DebugString());
  if (h.extension_header_bytes) V_CHECK(c, std::string(h.extension_header_bytes->begin(), h.extension_header_bytes->end()) == p->extension_header_bytes(), "header-proto-extension", p->DebugString());
  V_CHECK(c, GetHeaderFromMetadata(*p) == h, "header-round-trip", p->DebugString());
  c.Count("headers");
  int pp = c.rng.Pick({0, 1, 2, 3, 4, 5, 255, (int)c.rng.U8()}), ap = c.rng.Pick({0, 1, 2, 3, 4, 5, 255, (int)c.rng.U8()});
  IASequenceHeaderObu obu(h, static_cast<ProfileVersion>(pp), static_cast<ProfileVersion>(ap));
  auto m = IaSequenceHeaderMetadataGenerator::Generate(obu);
  V_CHECK(c, m.ok() == (pp <= 5 && ap <= 5), "sequence-header-domain", pp << " " << ap << " " << m.ok());
  if (m.ok()) {
    std::optional<IASequenceHeaderObu> back;
    auto s = IaSequenceHeaderGenerator(*m).Generate(back);
    V_CHECK(c, s.ok() && back.has_value() && *back == obu, "sequence-header-round-trip", m->DebugString());
    c.Count("sequence-headers");
  }
}
void ParamData(Ctx& c) {
  c.Eval();
  std::optional<DecodedUleb128> dur; if (c.rng.Bool()) dur = c.rng.Edge32();
  typedef ParamDefinition PD;
  int kind = c.rng.Below(4);
  absl::StatusOr<pb::ParameterSubblock> r;
  if (kind == 0) {
    MixGainParameterData d;
    int16_t a = c.rng.U32(), b = c.rng.U32(), e = c.rng.U32(); uint8_t t = c.rng.U8();
    int k = c.rng.Below(3);
    if (k == 0) d.param_data = AnimationStepInt16{a};
    else if (k == 1) d.param_data = AnimationLinearInt16{a, b};
    else d.param_data = AnimationBezierInt16{a, b, e, t};
    r = ParameterBlockMetadataGenerator::GenerateParameterSubblockMetadata(PD::kParameterDefinitionMixGain, dur, d);
    V_CHECK(c, r.ok(), "mix-gain-metadata", r.status().message());
    const auto& p = r->mix_gain_parameter_data().param_data();
    V_CHECK(c, p.has_step() == (k == 0) && p.has_linear() == (k == 1) && p.has_bezier() == (k == 2), "mix-gain-kind", r->DebugString());
    if (k == 0) V_CHECK(c, p.step().start_point_value() == a, "mix-gain-step", r->DebugString());
    if (k == 1) V_CHECK(c, p.linear().start_point_value() == a && p.linear().end_point_value() == b, "mix-gain-linear", r->DebugString());
    if (k == 2) { auto& z = std::get<AnimationBezierInt16>(d.param_data); V_CHECK(c, p.bezier().start_point_value() == z.start_point_value && p.bezier().end_point_value() == z.end_point_value && p.bezier().control_point_value() == z.control_point_value && p.bezier().control_point_relative_time() == z.control_point_relative_time, "mix-gain-bezier", r->DebugString()); }
  } else if (kind == 1) {
    DemixingInfoParameterData d; int m = c.rng.Below(9); d.dmixp_mode = static_cast<DemixingInfoParameterData::DMixPMode>(m); d.reserved = c.rng.Below(32);
    r = ParameterBlockMetadataGenerator::GenerateParameterSubblockMetadata(PD::kParameterDefinitionDemixing, dur, d);
    V_CHECK(c, r.ok() == (m < 8), "demixing-domain", m);
    if (!r.ok()) return;
    DemixingInfoParameterData back;
    V_CHECK(c, CopyDemixingInfoParameterData(r->demixing_info_parameter_data(), back).ok() && back.dmixp_mode == d.dmixp_mode && back.reserved == d.reserved, "demixing-round-trip", r->DebugString());
  } else if (kind == 2) {
    ReconGainInfoParameterData d;
    for (size_t n = c.rng.Below(7); n-- > 0;) {
      if (c.rng.Chance(1, 4)) { d.recon_gain_elements.push_back(std::nullopt); continue; }
      ReconGainElement e; e.recon_gain_flag = c.rng.Below(4096); for (auto& g : e.recon_gain) g = c.rng.U8();
      d.recon_gain_elements.push_back(e);
    }
    r = ParameterBlockMetadataGenerator::GenerateParameterSubblockMetadata(PD::kParameterDefinitionReconGain, dur, d);
    V_CHECK(c, r.ok() && (size_t)r->recon_gain_info_parameter_data().recon_gains_for_layer_size() == d.recon_gain_elements.size(), "recon-gain-layers", d.recon_gain_elements.size());
    for (size_t i = 0; i < d.recon_gain_elements.size(); ++i) {
      const auto& m = r->recon_gain_info_parameter_data().recon_gains_for_layer(i).recon_gain();
      std::map<uint32_t, uint32_t> got(m.begin(), m.end()), want;
      if (auto& e = d.recon_gain_elements[i]) for (int b = 0; b < 12; ++b) if (e->recon_gain_flag >> b & 1) want[b] = e->recon_gain[b];
      V_CHECK(c, got == want, "recon-gain-values", "layer " << i << " " << r->DebugString());
    }
  } else {
    ExtensionParameterData d; d.parameter_data_bytes = c.rng.Bytes(c.rng.Below(30));
    r = ParameterBlockMetadataGenerator::GenerateParameterSubblockMetadata(static_cast<PD::ParameterDefinitionType>(3 + c.rng.Below(1000)), dur, d);
    V_CHECK(c, r.ok(), "extension-metadata", "");
    V_CHECK(c, r->parameter_data_extension().parameter_data_bytes() == std::string(d.parameter_data_bytes.begin(), d.parameter_data_bytes.end()), "extension-bytes", "");
  }
  c.Count("parameter-data"); c.Distinct(HashStr(r->SerializeAsString()));
  V_CHECK(c, r->has_subblock_duration() == dur.has_value() && (!dur || r->subblock_duration() == *dur), "subblock-duration", r->DebugString());
}
// Opus encoder settings follow the documented bitrate rules.
void Opus(Ctx& c) {
  pb::OpusEncoderMetadata m;
  int app = c.rng.Pick({0, 1, 2, 3, 1, 2, 3}); if (pb::OpusApplicationFlag_IsValid(app)) m.set_application(static_cast<pb::OpusApplicationFlag>(app));
  m.set_use_float_api(c.rng.Bool());
  auto rate = [&]() -> int32_t { return c.rng.Pick<int32_t>({-1, -1000, 0, 5999, 6000, 6001, 48000, 512000, 512001, (int32_t)c.rng.Range(6000, 512000), (int32_t)c.rng.U32(), INT32_MAX, INT32_MIN}); };
  m.set_target_bitrate_per_channel(rate());
  float adj = c.rng.Pick<float>({1.0f, 0.5f, 0.75f, 0.49999f, 1.00001f, NAN, INFINITY, (float)c.rng.Real(0.5, 1.0), -1.0f});
  m.set_coupling_rate_adjustment(adj);
  uint32_t id = c.rng.Below(3);
  for (uint32_t k = 0; k < 3; ++k) if (c.rng.Chance(1, 4)) (*m.mutable_substream_id_to_bitrate_override())[k] = rate();
  int ch = 1 + c.rng.Below(2);
  auto r = CreateOpusEncoderSettings(m, ch == 1 ? SubstreamChannelCount::MakeSingular() : SubstreamChannelCount::MakeCoupled(), id);
  bool ok = true; int64_t want = 0;
  auto it = m.substream_id_to_bitrate_override().find(id);
  bool over = it != m.substream_id_to_bitrate_override().end();
  int32_t base = over ? it->second : m.target_bitrate_per_channel();
  std::string app_name = pb::OpusApplicationFlag_Name(m.application());
  ok = app_name == "APPLICATION_VOIP" || app_name == "APPLICATION_AUDIO" || app_name == "APPLICATION_RESTRICTED_LOWDELAY";
  if (!over && ch == 2 && !(adj >= 0.5f && adj <= 1.0f)) ok = false;
  if (base != -1 && base != -1000 && (base < 6000 || base > 512000)) ok = false;
  c.Eval(); c.Distinct(HashStr(m.SerializeAsString()) ^ ch ^ id << 2);
  V_CHECK(c, r.ok() == ok, "opus-verdict", m.DebugString() << " channels " << ch << " id " << id << " got " << r.ok());
  if (!ok) { c.Count("opus-refused"); return; }
  c.Count("opus-settings");
  if (base == -1 || base == -1000) want = base;
  else want = (over || ch == 1) ? base : static_cast<int64_t>(std::floor(base * (double)(adj * 2.0f) + 0.5));
  V_CHECK(c, std::llabs(r->target_substream_bitrate - want) <= 1, "opus-bitrate", m.DebugString() << " channels " << ch << " got " << r->target_substream_bitrate << " want " << want);
  V_CHECK(c, r->use_float_api == m.use_float_api(), "opus-float", "");
  int want_app = app_name == "APPLICATION_VOIP" ? 2048 : app_name == "APPLICATION_AUDIO" ? 2049 : 2051;
  V_CHECK(c, r->libopus_application_mode == want_app, "opus-application", r->libopus_application_mode);
}
}  // namespace
V_MAIN({{"api", 2, 2, ApiLayouts}, {"status", 1200, 3000, Status}, {"labels", 2, 2, Labels}, {"orders", 2, 2, Orders}, {"tables", 2, 2, Tables}, {"fill", 80000, 400000, FillLabels},
        {"headers", 80000, 400000, Headers}, {"params", 80000, 400000, ParamData}, {"opus", 80000, 400000, Opus}})
