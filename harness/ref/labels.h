// Reference label names to the code's labels, and what an element's substreams carry.
#ifndef VERIF_REF_LABELS_H_
#define VERIF_REF_LABELS_H_
#include "harness/ref/stream.h"
#include "iamf/cli/channel_label.h"
namespace ref {
using CLabel = iamf_tools::ChannelLabel::Label;
inline CLabel LabelOf(const std::string& n) {
  using L = iamf_tools::ChannelLabel;
  static const std::map<std::string, CLabel> m{
      {"", L::kOmitted}, {"Mono", L::kMono}, {"L2", L::kL2}, {"R2", L::kR2}, {"C", L::kCentre}, {"LFE", L::kLFE}, {"L3", L::kL3}, {"R3", L::kR3},
      {"Ltf3", L::kLtf3}, {"Rtf3", L::kRtf3}, {"L5", L::kL5}, {"R5", L::kR5}, {"Ls5", L::kLs5}, {"Rs5", L::kRs5}, {"Ltf2", L::kLtf2}, {"Rtf2", L::kRtf2},
      {"Ltf4", L::kLtf4}, {"Rtf4", L::kRtf4}, {"Ltb4", L::kLtb4}, {"Rtb4", L::kRtb4}, {"L7", L::kL7}, {"R7", L::kR7}, {"Lss7", L::kLss7}, {"Rss7", L::kRss7},
      {"Lrs7", L::kLrs7}, {"Rrs7", L::kRrs7}, {"FLc", L::kFLc}, {"FC", L::kFC}, {"FRc", L::kFRc}, {"FL", L::kFL}, {"FR", L::kFR}, {"SiL", L::kSiL}, {"SiR", L::kSiR},
      {"BL", L::kBL}, {"BR", L::kBR}, {"TpFL", L::kTpFL}, {"TpFR", L::kTpFR}, {"TpSiL", L::kTpSiL}, {"TpSiR", L::kTpSiR}, {"TpBL", L::kTpBL}, {"TpBR", L::kTpBR},
      {"BC", L::kBC}, {"LFE2", L::kLFE2}, {"TpFC", L::kTpFC}, {"TpC", L::kTpC}, {"TpBC", L::kTpBC}, {"BtFC", L::kBtFC}, {"BtFL", L::kBtFL}, {"BtFR", L::kBtFR},
      {"BtBL", L::kBtBL}, {"BtBR", L::kBtBR}, {"OC0", L::kObjectChannel0}, {"OC1", L::kObjectChannel1},
      {"D:R2", L::kDemixedR2}, {"D:L3", L::kDemixedL3}, {"D:R3", L::kDemixedR3}, {"D:L5", L::kDemixedL5}, {"D:R5", L::kDemixedR5}, {"D:Ls5", L::kDemixedLs5}, {"D:Rs5", L::kDemixedRs5},
      {"D:Ltf2", L::kDemixedLtf2}, {"D:Rtf2", L::kDemixedRtf2}, {"D:Ltb4", L::kDemixedLtb4}, {"D:Rtb4", L::kDemixedRtb4}, {"D:L7", L::kDemixedL7}, {"D:R7", L::kDemixedR7},
      {"D:Lrs7", L::kDemixedLrs7}, {"D:Rrs7", L::kDemixedRrs7}};
  if (n.size() > 1 && n[0] == 'A') return static_cast<CLabel>(L::kA0 + atoi(n.c_str() + 1));
  auto i = m.find(n);
  if (i == m.end()) vlib::HarnessBug("label name " + n);
  return i->second;
}
// The labels of each substream of an element. `el.subs` names ambisonics channels
// by substream; here they are ambisonics channel numbers.
inline std::vector<std::vector<CLabel>> SubstreamLabels(const Elem& el) {
  std::vector<std::vector<CLabel>> r;
  for (size_t i = 0; i < el.subs.size(); ++i) {
    std::vector<CLabel> v;
    if (!el.Ambisonics()) for (auto& n : el.subs[i]) v.push_back(LabelOf(n));
    else if (el.e.amb_mode == 0) { for (size_t c = 0; c < el.e.mapping.size(); ++c) if (el.e.mapping[c] == i) v.push_back(LabelOf("A" + std::to_string(c))); }
    else if (i < el.e.M) { v.push_back(LabelOf("A" + std::to_string(2 * i))); v.push_back(LabelOf("A" + std::to_string(2 * i + 1))); }
    else v.push_back(LabelOf("A" + std::to_string(el.e.M + i)));
    r.push_back(v);
  }
  return r;
}
}  // namespace ref
#endif
