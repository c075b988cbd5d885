// C08: what a probe reports, field by field, against the generated sequence;
// scans of whole, cut, cancelled and damaged input against a walk of its OBUs.
#include <cstdio>
#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include "harness/ref/obus.h"
#include "harness/ref/stream.h"
#include "harness/vlib.h"
#include "iamf/cli/probe.h"
using namespace iamf_tools;
using namespace vlib;
using ref::Lp;
using Bytes = std::vector<uint8_t>;
using KV = std::map<std::string, std::string>;
namespace {

std::string F(double v) { char b[64]; snprintf(b, sizeof b, "%a", v); return b; }
template <class T> std::string N(T v) { return std::to_string(static_cast<long long>(v)); }
std::string Q(const std::string& s) { return "'" + s + "'"; }
template <class V> std::string L(const V& v) { std::string s; for (auto x : v) s += N(x) + ","; return s; }
std::string Diff(const KV& got, const KV& want) {
  for (auto& [k, v] : want) { auto i = got.find(k); if (i == got.end()) return k + " missing, want " + v; if (i->second != v) return k + " = " + i->second + ", want " + v; }
  for (auto& [k, v] : got) if (!want.count(k)) return k + " = " + v + " is extra";
  return "";
}
std::string At(const std::string& p, size_t i) { return p + "[" + std::to_string(i) + "]"; }

// ---- what a report says ----
void FlatPd(KV& o, const std::string& p, const ParamDefinitionReport& d) { o[p] = N(d.parameter_id) + " " + N(d.parameter_rate) + " " + N(d.param_definition_mode) + " " + N(d.duration) + " " + N(d.constant_subblock_duration); }
void FlatGain(KV& o, const std::string& p, const MixGainParamDefinitionReport& g) { FlatPd(o, p + ".pd", g.param_definition); o[p + ".gain"] = N(g.default_mix_gain_q7_8) + " " + F(g.default_mix_gain); }
KV FlatDescriptors(const ProbeReport& r) {
  KV o;
  o["profiles"] = r.primary_profile + " " + N(r.primary_profile_raw) + " " + r.additional_profile + " " + N(r.additional_profile_raw);
  o["descriptor-bytes"] = N(r.descriptor_bytes_consumed);
  o["codecs"] = N(r.codec_configs.size());
  for (auto& c : r.codec_configs) {
    std::string p = "codec" + N(c.id);
    o[p] = c.codec_id + " " + N(c.codec_id_raw) + " " + N(c.num_samples_per_frame) + " " + N(c.audio_roll_distance) + " " + N(c.output_sample_rate) + " " + N(c.input_sample_rate) + " " + N(c.bit_depth);
    if (c.opus) { auto& x = *c.opus; o[p + ".opus"] = N(x.version) + " " + N(x.output_channel_count) + " " + N(x.pre_skip) + " " + N(x.input_sample_rate) + " " + N(x.output_gain_q7_8) + " " + F(x.output_gain) + " " + N(x.mapping_family); }
    if (c.lpcm) { auto& x = *c.lpcm; o[p + ".lpcm"] = x.sample_format + " " + N(x.sample_format_raw) + " " + N(x.sample_size) + " " + N(x.sample_rate); }
    if (c.aac) { auto& x = *c.aac; o[p + ".aac"] = N(x.object_type_indication) + " " + N(x.stream_type) + " " + N(x.upstream) + " " + N(x.reserved) + " " + N(x.buffer_size_db) + " " + N(x.max_bitrate) + " " + N(x.average_bit_rate) + " " + N(x.audio_object_type) + " " + x.sample_frequency_index + " " + N(x.sample_frequency_index_raw) + " " + N(x.channel_configuration); }
    if (c.flac) {
      o[p + ".flac"] = N(c.flac->metadata_blocks.size());
      for (size_t i = 0; i < c.flac->metadata_blocks.size(); ++i) {
        auto& b = c.flac->metadata_blocks[i];
        o[At(p + ".flac", i)] = b.block_type + " " + N(b.block_type_raw) + " " + N(b.is_stream_info);
        if (b.is_stream_info) o[At(p + ".flac", i) + ".info"] = N(b.minimum_block_size) + " " + N(b.maximum_block_size) + " " + N(b.minimum_frame_size) + " " + N(b.maximum_frame_size) + " " + N(b.sample_rate) + " " + N(b.number_of_channels) + " " + N(b.bits_per_sample) + " " + N(b.total_samples_in_stream);
      }
    }
  }
  o["elements"] = N(r.audio_elements.size());
  for (auto& e : r.audio_elements) {
    std::string p = "element" + N(e.id);
    o[p] = e.type + " " + N(e.type_raw) + " codec " + N(e.codec_config_id) + " substreams " + N(e.num_substreams) + " " + L(e.substream_ids);
    o[p + ".params"] = N(e.params.size());
    for (size_t i = 0; i < e.params.size(); ++i) { auto& q = e.params[i]; o[At(p + ".param", i)] = q.param_type + " " + N(q.param_type_raw) + (q.param_type_raw > 2 ? "" : " " + N(q.parameter_id) + " " + N(q.parameter_rate) + " " + N(q.param_definition_mode) + " " + N(q.duration) + " " + N(q.constant_subblock_duration)); }
    o[p + ".layers"] = N(e.scalable_layers.size());
    for (size_t i = 0; i < e.scalable_layers.size(); ++i) {
      auto& l = e.scalable_layers[i];
      o[At(p + ".layer", i)] = l.loudspeaker_layout + " " + N(l.loudspeaker_layout_raw) + " " + l.expanded_loudspeaker_layout.value_or("-") + " " + (l.expanded_loudspeaker_layout_raw ? N(*l.expanded_loudspeaker_layout_raw) : "-") + " " + N(l.output_gain_is_present_flag) + N(l.recon_gain_is_present_flag) + " " + N(l.substream_count) + " " + N(l.coupled_substream_count);
      if (l.output_gain_is_present_flag) o[At(p + ".layer", i) + ".gain"] = N(l.output_gain_flag) + " " + N(l.output_gain_q7_8) + " " + F(l.output_gain);
    }
    if (e.ambisonics) {
      auto& a = *e.ambisonics;
      o[p + ".ambisonics"] = a.mode + " " + N(a.mode_raw) + " order " + (a.order ? N(*a.order) : "-");
      if (a.mono) o[p + ".mono"] = N(a.mono->output_channel_count) + " " + N(a.mono->substream_count) + " " + L(a.mono->channel_mapping);
      if (a.projection) o[p + ".projection"] = N(a.projection->output_channel_count) + " " + N(a.projection->substream_count) + " " + N(a.projection->coupled_substream_count) + " " + L(a.projection->demixing_matrix);
    }
    o[p + ".summary"] = e.channel_layout.value_or("-") + " " + (e.channel_layout_raw ? N(*e.channel_layout_raw) : "-") + " " + (e.expanded_channel_layout_raw ? N(*e.expanded_channel_layout_raw) : "-") + " order " + (e.ambisonics_order ? N(*e.ambisonics_order) : "-") + " " + (e.ambisonics_channels ? N(*e.ambisonics_channels) : "-") + " channels " + (e.num_channels ? N(*e.num_channels) : "-");
  }
  o["mixes"] = N(r.mix_presentations.size());
  for (size_t i = 0; i < r.mix_presentations.size(); ++i) {
    auto& m = r.mix_presentations[i];
    std::string p = At("mix", i);
    o[p] = N(m.id) + " labels " + N(m.count_label) + " sub-mixes " + N(m.num_sub_mixes) + " " + N(m.sub_mixes.size());
    for (size_t k = 0; k < m.annotations.size(); ++k) o[At(p + ".label", k)] = Q(m.annotations[k].first) + Q(m.annotations[k].second);
    for (size_t k = 0; k < m.tags.size(); ++k) o[At(p + ".tag", k)] = Q(m.tags[k].tag_name) + Q(m.tags[k].tag_value);
    for (size_t s = 0; s < m.sub_mixes.size(); ++s) {
      auto& x = m.sub_mixes[s]; std::string ps = At(p + ".sub", s);
      o[ps] = N(x.audio_elements.size()) + " " + N(x.layouts.size());
      for (size_t k = 0; k < x.audio_elements.size(); ++k) {
        auto& a = x.audio_elements[k]; std::string pa = At(ps + ".element", k);
        std::string notes; for (auto& n : a.localized_element_annotations) notes += Q(n);
        o[pa] = N(a.audio_element_id) + " " + notes + " " + a.rendering_config.headphones_rendering_mode + " " + N(a.rendering_config.headphones_rendering_mode_raw) + " " + a.rendering_config.binaural_filter_profile + " " + N(a.rendering_config.binaural_filter_profile_raw);
        FlatGain(o, pa + ".gain", a.element_mix_gain);
      }
      FlatGain(o, ps + ".out", x.output_mix_gain);
      for (size_t k = 0; k < x.layouts.size(); ++k) {
        auto& l = x.layouts[k]; std::string pl = At(ps + ".layout", k);
        o[pl] = l.loudness_layout.layout_type + " " + N(l.loudness_layout.layout_type_raw) + " " + l.loudness_layout.sound_system.value_or("-") + " " + (l.loudness_layout.sound_system_raw ? N(*l.loudness_layout.sound_system_raw) : "-");
        auto& q = l.loudness;
        o[pl + ".loudness"] = N(q.info_type) + " " + N(q.true_peak_present) + N(q.anchored_loudness_present) + N(q.has_layout_extension) + " " + F(q.integrated_loudness) + " " + F(q.digital_peak) + " " + (q.true_peak ? F(*q.true_peak) : "-");
        for (size_t t = 0; t < q.anchored_loudness_elements.size(); ++t) { auto& a = q.anchored_loudness_elements[t]; o[At(pl + ".anchor", t)] = a.anchor_element + " " + N(a.anchor_element_raw) + " " + N(a.anchored_loudness_q7_8) + " " + F(a.anchored_loudness); }
      }
    }
    std::string ls; for (auto& s : m.layouts) ls += s + ",";
    o[p + ".summary"] = ls + " " + (m.integrated_loudness_lkfs ? F(*m.integrated_loudness_lkfs) : "-") + " " + (m.digital_peak_dbfs ? F(*m.digital_peak_dbfs) : "-") + " " + (m.true_peak_dbfs ? F(*m.true_peak_dbfs) : "-");
  }
  return o;
}
// `counts_only` leaves out what only a full scan tells.
KV FlatScan(const TemporalUnitScanReport& s, bool counts_only = false) {
  KV o;
  o["units"] = N(s.temporal_unit_count); o["frames"] = N(s.audio_frame_count); o["delimiters"] = N(s.temporal_delimiter_count);
  o["frame-errors"] = N(s.audio_frame_parse_errors);
  o["consumed"] = N(s.bytes_consumed); o["stopped"] = s.stopped_reason; o["samples"] = s.total_samples ? std::to_string(*s.total_samples) : "-";
  o["substreams"] = N(s.audio_frames_by_substream.size());
  for (size_t i = 0; i < s.audio_frames_by_substream.size(); ++i) { auto& a = s.audio_frames_by_substream[i]; o[At("substream", i)] = N(a.substream_id) + " codec " + N(a.codec_config_id) + " " + N(a.frame_count) + " " + std::to_string(a.total_samples); }
  if (counts_only) return o;
  o["blocks"] = N(s.parameter_block_count); o["block-errors"] = N(s.parameter_block_parse_errors);
  o["listed"] = N(s.temporal_units.size());
  for (size_t i = 0; i < s.temporal_units.size(); ++i) { auto& t = s.temporal_units[i]; o[At("unit", i)] = "at " + N(t.byte_offset_from_scan_start) + " time " + std::to_string(t.start_timestamp) + " samples " + std::to_string(t.num_samples) + " trims " + N(t.samples_to_trim_at_start) + " " + N(t.samples_to_trim_at_end); }
  o["listed-blocks"] = N(s.parameter_blocks.size());
  for (size_t i = 0; i < s.parameter_blocks.size(); ++i) {
    auto& b = s.parameter_blocks[i]; std::string p = At("block", i);
    o[p] = N(b.parameter_id) + " " + b.param_type + " " + N(b.param_type_raw) + " from " + std::to_string(b.start_timestamp) + " to " + std::to_string(b.end_timestamp) + " duration " + N(b.duration) + " " + N(b.constant_subblock_duration) + " subblocks " + N(b.subblocks.size());
    for (size_t k = 0; k < b.subblocks.size(); ++k) {
      auto& q = b.subblocks[k]; std::string& t = o[At(p, k)];
      t = N(q.subblock_duration);
      if (q.mix_gain) { auto& g = *q.mix_gain; t += " gain " + g.animation_type + " " + N(g.animation_type_raw) + " " + N(g.start_point_value_q7_8) + " " + F(g.start_point_value) + " " + (g.end_point_value_q7_8 ? N(*g.end_point_value_q7_8) + " " + F(*g.end_point_value) : "-") + " " + (g.control_point_value_q7_8 ? N(*g.control_point_value_q7_8) + " " + F(*g.control_point_value) : "-") + " " + (g.control_point_relative_time ? N(*g.control_point_relative_time) : "-"); }
      if (q.demixing) t += " demixing " + q.demixing->dmixp_mode + " " + N(q.demixing->dmixp_mode_raw) + " " + N(q.demixing->reserved);
      if (q.recon_gain) { t += " recon"; for (auto& l : q.recon_gain->layers) t += " layer " + N(l.layer_index) + " " + N(l.recon_gain_flag) + " " + L(l.recon_gain); }
    }
  }
  return o;
}

// ---- what was put in ----
std::string Reserved(int v) { return "reserved(" + std::to_string(v) + ")"; }
std::string Name(const std::vector<const char*>& t, int v) { return v >= 0 && v < static_cast<int>(t.size()) && t[static_cast<size_t>(v)] ? t[static_cast<size_t>(v)] : Reserved(v); }
std::string ProfileName(int v) { static const std::vector<const char*> t{"simple", "base", "base_enhanced", "base_advanced", "advanced1", "advanced2"}; return Name(t, v); }
std::string LayoutName(int v) { static const std::vector<const char*> t{"Mono", "Stereo", "5.1", "5.1.2", "5.1.4", "7.1", "7.1.2", "7.1.4", "3.1.2", "Binaural", nullptr, nullptr, nullptr, nullptr, nullptr, "Expanded"}; return Name(t, v); }
std::string ExpandedName(int v) { static const std::vector<const char*> t{"LFE", "StereoS", "StereoSS", "StereoRS", "StereoTF", "StereoTB", "Top4Ch", "3.0", "9.1.6", "StereoF", "StereoSi", "StereoTpSi", "Top6Ch", "10.2.9.3", "LfePair", "Bottom3Ch", "7.1.5.4", "Bottom4Ch", "Top1Ch", "Top5Ch"}; return Name(t, v); }
std::string SystemName(int v) { static const std::vector<const char*> t{"Stereo", "5.1", "5.1.2", "5.1.4", "5+4+1", "3+7+0", "9.1.4", "22.2", "7.1", "7.1.4", "7.1.2", "3.1.2", "Mono", "9.1.6", "7.1.5.4"}; return Name(t, v); }
std::string TypeName(uint32_t v) { static const std::vector<const char*> t{"mix_gain", "demixing", "recon_gain", "polar", "cart8", "cart16", "dual_polar", "dual_cart8", "dual_cart16"}; return v < 9 ? t[v] : Reserved(static_cast<int>(v)); }
std::string FlacName(int v) { static const std::vector<const char*> t{"StreamInfo", "Padding", "Application", "Seektable", "VorbisComment", "Cuesheet", "Picture"}; return v == 127 ? "Invalid" : Name(t, v); }

struct Want { uint32_t out, in; int depth; };
Want Derived(const ref::Codec& m) {
  switch (m.fourcc) {
    case ref::kLpcm: return {m.lpcm.rate, m.lpcm.rate, m.lpcm.size};
    case ref::kOpus: return {48000, m.opus.rate, 32};
    case ref::kFlac: return {m.flac.info.rate, m.flac.info.rate, m.flac.info.bits + 1};
    default: return {ref::AacRates()[m.aac.freq], ref::AacRates()[m.aac.freq], 16};
  }
}
struct Frame { uint32_t sub; };
// One OBU of the data part.
enum Kind { kFrame, kBlock, kUnknownBlock, kBadBlock, kDelimiter, kOther };
struct Piece { Kind kind; Bytes obu; size_t unit = 0; uint32_t sub = 0, ts = 0, te = 0; ref::PBlock block; };
struct World {
  uint8_t profiles[2] = {};
  std::vector<ref::Codec> codecs; std::vector<ref::Elem> elems; std::vector<ref::Mix> mixes;
  Bytes descriptors; std::vector<Piece> pieces; bool delimiters = false;
  Bytes Data() const { Bytes b; for (auto& p : pieces) b.insert(b.end(), p.obu.begin(), p.obu.end()); return b; }
  Bytes All() const { Bytes b = descriptors, d = Data(); b.insert(b.end(), d.begin(), d.end()); return b; }
};

std::string PdText(const ref::Pd& d) { return N(d.id) + " " + N(d.rate) + " " + N(d.mode1) + " " + N(d.mode1 ? 0 : d.s.dur) + " " + N(d.mode1 ? 0 : d.s.csd); }
void WantGain(KV& o, const std::string& p, const ref::Pd& d) { o[p + ".pd"] = PdText(d); o[p + ".gain"] = N(d.mix) + " " + F(d.mix / 256.0); }
KV WantDescriptors(const World& w) {
  KV o;
  o["profiles"] = ProfileName(w.profiles[0]) + " " + N(w.profiles[0]) + " " + ProfileName(w.profiles[1]) + " " + N(w.profiles[1]);
  o["descriptor-bytes"] = N(w.descriptors.size());
  o["codecs"] = N(w.codecs.size());
  for (auto& c : w.codecs) {
    std::string p = "codec" + N(c.id);
    Want d = Derived(c);
    o[p] = std::string(c.fourcc == ref::kLpcm ? "LPCM" : c.fourcc == ref::kOpus ? "Opus" : c.fourcc == ref::kFlac ? "FLAC" : "AAC LC") + " " + N(c.fourcc) + " " + N(c.nsamples) + " " + N(c.roll) + " " + N(d.out) + " " + N(d.in) + " " + N(d.depth);
    if (c.fourcc == ref::kOpus) { auto& x = c.opus; o[p + ".opus"] = N(x.version) + " " + N(x.channels) + " " + N(x.preskip) + " " + N(x.rate) + " " + N(x.gain) + " " + F(x.gain / 256.0) + " " + N(x.family); }
    if (c.fourcc == ref::kLpcm) { auto& x = c.lpcm; o[p + ".lpcm"] = std::string(x.flags & 1 ? "little_endian" : x.flags == 0 ? "big_endian" : Reserved(x.flags)) + " " + N(x.flags) + " " + N(x.size) + " " + N(x.rate); }
    if (c.fourcc == ref::kAac) { auto& x = c.aac; o[p + ".aac"] = N(x.oti) + " " + N(x.stream) + " " + N(x.up) + " " + N(x.res) + " " + N(x.buf) + " " + N(x.maxb) + " " + N(x.avgb) + " " + N(x.aot) + " " + N(ref::AacRates()[x.freq]) + " " + N(x.freq) + " " + N(x.ch); }
    if (c.fourcc == ref::kFlac) {
      auto& i = c.flac.info;
      o[p + ".flac"] = N(c.flac.rest.size() + 1);
      o[At(p + ".flac", 0)] = "StreamInfo 0 1";
      o[At(p + ".flac", 0) + ".info"] = N(i.min) + " " + N(i.max) + " " + N(i.minf) + " " + N(i.maxf) + " " + N(i.rate) + " " + N(i.ch) + " " + N(i.bits) + " " + N(i.total);
      for (size_t k = 0; k < c.flac.rest.size(); ++k) o[At(p + ".flac", k + 1)] = FlacName(c.flac.rest[k].type) + " " + N(c.flac.rest[k].type) + " 0";
    }
  }
  o["elements"] = N(w.elems.size());
  for (auto& el : w.elems) {
    auto& e = el.e;
    std::string p = "element" + N(e.id);
    o[p] = std::string(e.type == 0 ? "channel_based" : e.type == 1 ? "scene_based" : "object_based") + " " + N(e.type) + " codec " + N(e.codec) + " substreams " + N(e.subs.size()) + " " + L(e.subs);
    o[p + ".params"] = N(e.params.size());
    for (size_t i = 0; i < e.params.size(); ++i) { auto& q = e.params[i]; o[At(p + ".param", i)] = TypeName(q.type) + " " + N(q.type) + (q.type > 2 ? "" : " " + PdText(q)); }
    o[p + ".layers"] = N(e.type == 0 ? e.layers.size() : 0);
    std::string sum = "- - - order - - channels -";
    if (e.type == 0) {
      for (size_t i = 0; i < e.layers.size(); ++i) {
        auto& l = e.layers[i];
        o[At(p + ".layer", i)] = LayoutName(l.layout) + " " + N(l.layout) + " " + (l.layout == 15 ? ExpandedName(l.expanded) + " " + N(l.expanded) : "- -") + " " + N(l.og) + N(l.rg) + " " + N(l.sub) + " " + N(l.coupled);
        if (l.og) o[At(p + ".layer", i) + ".gain"] = N(l.og_flags) + " " + N(l.gain) + " " + F(l.gain / 256.0);
      }
      auto& t = e.layers.back();
      sum = LayoutName(t.layout) + " " + N(t.layout) + " " + (t.layout == 15 ? N(t.expanded) : "-") + " order - - channels " + N(el.Channels());
    } else if (e.type == 1) {
      int order = 0; while ((order + 1) * (order + 1) < e.C) ++order;
      o[p + ".ambisonics"] = std::string(e.amb_mode ? "projection 1" : "mono 0") + " order " + N(order);
      if (e.amb_mode) o[p + ".projection"] = N(e.C) + " " + N(e.N) + " " + N(e.M) + " " + L(e.matrix);
      else o[p + ".mono"] = N(e.C) + " " + N(e.N) + " " + L(e.mapping);
      sum = "- - - order " + N(order) + " " + N(e.C) + " channels " + N(e.C);
    }
    o[p + ".summary"] = sum;
  }
  o["mixes"] = N(w.mixes.size());
  for (size_t i = 0; i < w.mixes.size(); ++i) {
    auto& m = w.mixes[i];
    std::string p = At("mix", i);
    o[p] = N(m.id) + " labels " + N(m.lang.size()) + " sub-mixes " + N(m.sm.size()) + " " + N(m.sm.size());
    for (size_t k = 0; k < m.lang.size(); ++k) o[At(p + ".label", k)] = Q(m.lang[k]) + Q(m.note[k]);
    if (m.tags) for (size_t k = 0; k < m.tags->size(); ++k) o[At(p + ".tag", k)] = Q((*m.tags)[k].first) + Q((*m.tags)[k].second);
    std::string ls;
    for (size_t s = 0; s < m.sm.size(); ++s) {
      auto& x = m.sm[s]; std::string ps = At(p + ".sub", s);
      o[ps] = N(x.el.size()) + " " + N(x.layouts.size());
      for (size_t k = 0; k < x.el.size(); ++k) {
        auto& a = x.el[k]; std::string pa = At(ps + ".element", k);
        std::string notes; for (auto& n : a.notes) notes += Q(n);
        static const char* hm[] = {"stereo", "binaural_world_locked", "binaural_head_locked", "reserved_3"};
        static const char* bf[] = {"ambient", "direct", "reverberant", "reserved_3"};
        o[pa] = N(a.id) + " " + notes + " " + hm[a.rc.mode] + " " + N(a.rc.mode) + " " + bf[a.rc.profile] + " " + N(a.rc.profile);
        WantGain(o, pa + ".gain", a.gain);
      }
      WantGain(o, ps + ".out", x.out);
      for (size_t k = 0; k < x.layouts.size(); ++k) {
        auto& l = x.layouts[k]; std::string pl = At(ps + ".layout", k);
        static const char* lt[] = {"reserved_0", "reserved_1", "loudspeakers_ss_convention", "binaural"};
        o[pl] = std::string(lt[l.type]) + " " + N(l.type) + " " + (l.type == 2 ? SystemName(l.ss) + " " + N(l.ss) : "- -");
        if (s == 0) ls += (l.type == 2 ? SystemName(l.ss) : std::string(lt[l.type])) + ",";
        o[pl + ".loudness"] = N(l.info) + " " + N((l.info & 1) != 0) + N((l.info & 2) != 0) + N((l.info & 0xfc) != 0) + " " + F(l.il / 256.0) + " " + F(l.dp / 256.0) + " " + (l.info & 1 ? F(l.tp / 256.0) : "-");
        if (l.info & 2) for (size_t t = 0; t < l.anchors.size(); ++t) { auto& a = l.anchors[t]; static const std::vector<const char*> an{"unknown", "dialogue", "album"}; o[At(pl + ".anchor", t)] = Name(an, a.what) + " " + N(a.what) + " " + N(a.v) + " " + F(a.v / 256.0); }
      }
    }
    auto& f = m.sm[0].layouts[0];
    o[p + ".summary"] = ls + " " + F(f.il / 256.0) + " " + F(f.dp / 256.0) + " " + (f.info & 1 ? F(f.tp / 256.0) : "-");
  }
  return o;
}
// The scan of the first `count` pieces.
KV WantScan(const World& w, size_t count, bool full, const std::string& stopped, bool counts_only = false) {
  TemporalUnitScanReport s;  // only as a record to flatten
  std::map<uint32_t, std::pair<uint32_t, uint32_t>> of;  // substream -> codec, frame size
  for (auto& e : w.elems) for (auto& c : w.codecs) if (c.id == e.e.codec) for (auto id : e.e.subs) of[id] = {c.id, c.nsamples};
  std::map<uint32_t, AudioFrameSummaryReport> per;
  std::map<uint32_t, uint64_t> clock;
  struct U { size_t at; uint64_t samples = 0; uint32_t ts = 0, te = 0; bool frames = false; };
  std::map<size_t, U> units;
  size_t pos = 0;
  for (size_t i = 0; i < count; ++i) {
    auto& p = w.pieces[i];
    if (p.kind != kOther) units.emplace(p.unit, U{pos});
    switch (p.kind) {
      case kFrame: {
        auto& u = units[p.unit];
        if (!u.frames) { u.frames = true; u.ts = p.ts; u.te = p.te; }
        auto& a = per[p.sub]; a.substream_id = p.sub; auto k = of.find(p.sub);
        if (k != of.end()) { a.codec_config_id = k->second.first; a.total_samples += k->second.second; u.samples = std::max<uint64_t>(u.samples, k->second.second); }
        a.frame_count++; s.audio_frame_count++;
        break;
      }
      case kBlock: case kBadBlock: {
        if (p.kind == kBadBlock && full) { s.parameter_block_parse_errors++; break; }
        s.parameter_block_count++;
        if (!full) break;
        ParameterBlockReport b;
        auto& q = p.block; auto& sc = q.def.mode1 ? q.s : q.def.s;
        b.parameter_id = q.def.id; b.param_type = TypeName(q.def.type); b.param_type_raw = q.def.type;
        b.start_timestamp = clock[q.def.id]; clock[q.def.id] += sc.dur; b.end_timestamp = clock[q.def.id];
        b.duration = sc.dur; b.constant_subblock_duration = sc.csd;
        for (uint32_t k = 0; k < q.data.size(); ++k) {
          ParameterSubblockReport r; r.subblock_duration = sc.At(k);
          auto& d = q.data[k];
          if (q.def.type == 0) {
            MixGainAnimationReport g; static const char* an[] = {"step", "linear", "bezier"};
            g.animation_type = an[d.anim]; g.animation_type_raw = d.anim; g.start_point_value_q7_8 = d.a; g.start_point_value = static_cast<float>(d.a / 256.0);
            if (d.anim >= 1) { g.end_point_value_q7_8 = d.b; g.end_point_value = static_cast<float>(d.b / 256.0); }
            if (d.anim == 2) { g.control_point_value_q7_8 = d.c; g.control_point_value = static_cast<float>(d.c / 256.0); g.control_point_relative_time = d.t; }
            r.mix_gain = g;
          } else if (q.def.type == 1) {
            static const char* dm[] = {"mode1", "mode2", "mode3", "reserved_1", "mode1_n", "mode2_n", "mode3_n", "reserved_2"};
            r.demixing = DemixingInfoReport{dm[d.dmode], d.dmode, d.dres};
          } else if (q.def.type == 2) {
            ReconGainInfoReport g;
            for (size_t l = 0; l < d.recon.size(); ++l) if (d.recon[l]) { ReconGainForLayerReport x{static_cast<uint8_t>(l), d.recon[l]->flags, {}}; for (int t = 0; t < 12; ++t) if (d.recon[l]->flags >> t & 1) x.recon_gain.push_back(d.recon[l]->g[t]); g.layers.push_back(x); }
            r.recon_gain = g;
          }
          b.subblocks.push_back(r);
        }
        s.parameter_blocks.push_back(b);
        break;
      }
      case kUnknownBlock: s.parameter_block_parse_errors++; break;
      case kDelimiter: s.temporal_delimiter_count++; break;
      case kOther: break;
    }
    pos += p.obu.size();
  }
  uint64_t t = 0; uint32_t most = 0; uint64_t samples = 0;
  if (full) for (auto& [k, u] : units) if (u.frames) { s.temporal_units.push_back({t, u.samples, u.at, u.ts, u.te}); t += u.samples; }
  for (auto& [k, a] : per) { s.audio_frames_by_substream.push_back(a); most = std::max(most, a.frame_count); samples = std::max(samples, a.total_samples); }
  s.temporal_unit_count = std::max(most, s.temporal_delimiter_count);
  if (samples) s.total_samples = samples;
  s.bytes_consumed = pos; s.stopped_reason = stopped;
  return FlatScan(s, counts_only);
}

struct Opt { bool big = false; bool data = true; };
World Gen(Rng& r, const Opt& opt) {
  World w;
  w.profiles[0] = static_cast<uint8_t>(r.Chance(1, 2) ? r.Below(3) : r.Below(6)); w.profiles[1] = static_cast<uint8_t>(r.Chance(1, 2) ? r.Below(3) : r.Below(6));
  std::set<uint32_t> ids, subids, pids;
  auto fresh = [&](std::set<uint32_t>& s, uint32_t small) { for (;;) { uint32_t v = r.Chance(1, 6) ? r.Edge32() : static_cast<uint32_t>(r.Below(small)); if (s.insert(v).second) return v; } };
  int nc = static_cast<int>(r.Chance(2, 3) ? 1 : r.Range(2, 3));
  std::set<uint32_t> cids;
  for (int i = 0; i < nc; ++i) { auto c = ref::GenCodec(r); c.id = fresh(cids, 9); w.codecs.push_back(c); }
  int ne = static_cast<int>(r.Range(1, 4));
  ref::GenOpt g; g.expanded_all = true;
  std::vector<ref::PBlock> defs;  // declared parameters, as empty blocks
  auto declare = [&](const ref::Pd& d, std::vector<bool> recon = {}) { ref::PBlock b; b.def = d; b.recon_flags = recon; defs.push_back(b); };
  for (int i = 0; i < ne; ++i) {
    ref::Elem el;
    if (r.Chance(1, 8)) { el.e.type = 2; el.e.num_objects = static_cast<uint8_t>(r.Range(1, 2)); el.e.obj_ext = r.Bytes(r.Below(6)); el.subs = {{"o"}}; }
    else el = ref::GenElem(r, g, 28);
    auto& e = el.e;
    e.id = fresh(ids, 40); e.codec = r.Pick(w.codecs).id; e.res = r.U8() & 31;
    for (size_t k = 0; k < el.subs.size(); ++k) e.subs.push_back(fresh(subids, 40));
    for (auto& l : e.layers) { l.og = r.Chance(1, 3); l.og_flags = r.U8() & 63; l.gain = ref::GenS16(r); l.rg = r.Chance(1, 3); l.res_a = r.U8() & 3; l.res_b = r.U8() & 3; }
    uint32_t ns = 0; for (auto& c : w.codecs) if (c.id == e.codec) ns = c.nsamples;
    std::set<uint32_t> types;
    for (int k = static_cast<int>(r.Below(4)); k > 0; --k) {
      uint32_t t = r.Chance(2, 3) ? static_cast<uint32_t>(r.Range(1, 2)) : static_cast<uint32_t>(r.Range(9, 300));
      if (t == 2 && e.type != 0) t = 1;
      if (!types.insert(t).second) continue;
      auto p = ref::GenPd(r, t);
      p.id = fresh(pids, 100);
      if (t <= 2) { p.s.dur = p.s.csd = ns; p.s.subs.clear(); p.s.num.reset(); std::vector<bool> rg; for (auto& l : e.layers) rg.push_back(l.rg); declare(p, rg); }
      else p.ext = r.Bytes(r.Below(20));
      e.params.push_back(p);
    }
    e.num_params.reset();
    w.elems.push_back(el);
  }
  std::set<uint32_t> mids;
  auto pd = [&](ref::Pd& p) { p.id = fresh(pids, 100); declare(p); };
  for (int i = static_cast<int>(r.Range(1, 3)); i > 0; --i) {
    auto m = ref::GenMix(r);
    m.id = fresh(mids, 60);
    // Its elements are the declared ones, each once.
    std::vector<uint32_t> all; for (auto& e : w.elems) all.push_back(e.e.id);
    r.Shuffle(all);
    std::vector<ref::SubMix> kept;
    for (auto& s : m.sm) {
      std::vector<ref::MixElement> el;
      for (auto& e : s.el) if (!all.empty()) { e.id = all.back(); all.pop_back(); pd(e.gain); for (auto& q : e.rc.params) { q.id = fresh(pids, 100); declare(q); } el.push_back(e); }
      s.el = el;
      if (el.empty()) continue;
      pd(s.out);
      kept.push_back(s);
    }
    m.sm = kept;
    w.mixes.push_back(m);
  }
  Lp lp{r.Chance(1, 3) ? -1 : 0, &r};
  auto make = [&](int type, const Bytes& payload, bool redundant = false) {
    ref::Hdr h; h.type = type; h.redundant = redundant;
    if (r.Chance(1, 10)) { h.ext = true; h.ext_bytes = r.Bytes(r.Below(6)); }
    return ref::EncodeObu(h, payload, lp);
  };
  auto add = [&](const Bytes& b) { w.descriptors.insert(w.descriptors.end(), b.begin(), b.end()); };
  ref::Bits ia; ia.Put(0x69616d66, 32); ia.Put(w.profiles[0], 8); ia.Put(w.profiles[1], 8);
  add(make(31, ia.Bytes()));
  for (auto& c : w.codecs) add(make(0, ref::EncodeCodec(c, lp)));
  for (auto& e : w.elems) add(make(1, ref::EncodeElement(e.e, lp)));
  for (auto& m : w.mixes) add(make(2, ref::EncodeMix(m, lp)));
  if (r.Chance(1, 8)) add(make(static_cast<int>(r.Range(24, 30)), r.Bytes(r.Below(20))));
  if (!opt.data) return w;
  // The data.
  w.delimiters = r.Chance(1, 2);
  std::vector<uint32_t> subs; for (auto& e : w.elems) subs.insert(subs.end(), e.e.subs.begin(), e.e.subs.end());
  if (r.Chance(1, 6)) subs.push_back(fresh(subids, 60));  // nobody declared it
  r.Shuffle(subs);
  size_t nt = r.Range(1, opt.big ? 30 : 6);
  size_t payload = opt.big ? 9000 : 24;
  for (size_t u = 0; u < nt; ++u) {
    auto put = [&](Piece p) { p.unit = u; w.pieces.push_back(std::move(p)); };
    auto noise = [&] {
      if (w.pieces.empty() || !r.Chance(1, 12)) return;  // before the first temporal OBU it would belong to the descriptors
      Piece p{kOther};
      switch (r.Below(3)) {
        case 0: p.obu = make(static_cast<int>(r.Range(24, 30)), r.Bytes(r.Below(opt.big ? 70000 : 20)), r.Bool()); break;
        case 1: p.obu = make(31, ia.Bytes(), true); break;
        default: p.obu = r.Bool() ? make(0, ref::EncodeCodec(w.codecs[0], lp), true) : make(1, ref::EncodeElement(w.elems[0].e, lp), true); break;
      }
      put(p);
    };
    noise();
    if (w.delimiters) { Piece p{kDelimiter}; p.obu = make(4, r.Chance(1, 8) ? r.Bytes(r.Below(5)) : Bytes()); put(p); }
    auto block = [&] {
      Piece p{kBlock};
      if (r.Chance(1, 10)) {
        p.kind = kUnknownBlock;
        uint32_t id; do id = r.Chance(1, 2) ? r.Edge32() : static_cast<uint32_t>(r.Below(200)); while (pids.count(id));
        ref::Bits b; lp(b, id); b.PutBytes(r.Bytes(r.Below(10)));
        p.obu = make(3, b.Bytes());
        put(p); return;
      }
      p.block = r.Pick(defs);
      auto& b = p.block;
      auto x = ref::GenPBlock(r, b.def.type);
      b.s = b.def.mode1 ? ref::GenSched(r, 12) : b.def.s;
      for (uint32_t i = 0; i < b.s.Count(); ++i) {
        auto d = x.data[r.Below(x.data.size())];
        d.recon.clear(); for (bool f : b.recon_flags) { if (!f) { d.recon.push_back(std::nullopt); continue; } ref::Recon q; q.flags = r.U32() & 0xfff; for (auto& v : q.g) v = r.U8(); d.recon.push_back(q); }
        d.a = ref::GenS16(r); d.b = ref::GenS16(r); d.anim = static_cast<uint32_t>(r.Below(3));
        b.data.push_back(d);
      }
      Bytes body = ref::EncodePBlock(b, lp);
      if (b.def.type >= 3) return;  // positions are C04's business
      if (r.Chance(1, 10) && (b.def.type == 0 || b.def.type == 1)) {
        ref::Bits q; lp(q, b.def.id); p.kind = kBadBlock; body = q.Bytes();
      } else if (r.Chance(1, 8)) { Bytes tail = r.Bytes(r.Below(6)); body.insert(body.end(), tail.begin(), tail.end()); }
      p.obu = make(3, body);
      put(p);
    };
    for (int k = static_cast<int>(r.Chance(1, 3) ? 0 : r.Below(5)); k > 0; --k) { block(); noise(); }
    uint32_t ts = 0, te = 0; bool flag = r.Chance(1, 4);
    if (flag) { ts = ref::GenId(r); te = ref::GenId(r); }
    if (r.Chance(1, 3)) r.Shuffle(subs);
    for (size_t k = 0; k < subs.size(); ++k) {
      if (k && r.Chance(1, 20)) block();  // between the frames
      Piece p{kFrame}; p.sub = subs[k]; p.ts = ts; p.te = te;
      p.obu = ref::FrameObu(r, subs[k], r.Bytes(r.Below(payload)), flag, te, ts, lp);
      put(p);
      if (k + 1 < subs.size()) noise();
    }
  }
  return w;
}
std::string Text(const World& w) {
  static const char* n[] = {"F", "P", "U", "B", "T", "o"};
  std::string s = "descriptors " + std::to_string(w.descriptors.size()) + " pieces";
  for (auto& p : w.pieces) { if (s.size() > 1500) break; s += std::string(" ") + n[p.kind] + (p.kind == kFrame ? std::to_string(p.sub) : "") + ":" + std::to_string(p.obu.size()); }
  return s;
}
ProbeOptions Mode(ScanMode m) { ProbeOptions o; o.scan_mode = m; return o; }
std::string File(Ctx& c, const Bytes& b) { std::string f = c.scratch + "/probe.iamf"; std::ofstream(f, std::ios::binary).write(reinterpret_cast<const char*>(b.data()), static_cast<std::streamsize>(b.size())); return f; }
absl::StatusOr<ProbeReport> Run(const Bytes& b, const ProbeOptions& o) { Bytes x(b); x.shrink_to_fit(); return Probe(absl::MakeConstSpan(x), o); }

bool CheckDuration(Ctx& c, const World& w, const TemporalUnitScanReport& s) {
  if (!s.total_samples) { V_CHECK_R(c, !s.duration_seconds && !s.output_sample_rate, "duration-without-samples", Text(w), false); return true; }
  bool known = false;
  for (auto& k : w.codecs) known |= s.output_sample_rate && Derived(k).out == *s.output_sample_rate;
  bool zero = false; for (auto& k : w.codecs) zero |= Derived(k).out == 0;
  if (zero) return true;
  V_CHECK_R(c, known, "duration-rate", Text(w), false);
  V_CHECK_R(c, s.duration_seconds && *s.duration_seconds == static_cast<double>(*s.total_samples) / *s.output_sample_rate, "duration", Text(w), false);
  return true;
}
bool CheckReport(Ctx& c, const World& w, const absl::StatusOr<ProbeReport>& got, const std::string& how) {
  V_CHECK_R(c, got.ok(), "refused", how + " " + got.status().ToString() + " " + Text(w), false);
  std::string d = Diff(FlatDescriptors(*got), WantDescriptors(w));
  V_CHECK_R(c, d.empty(), "descriptors", how + " " + d + " " + Text(w), false);
  // The estimate from FLAC headers alone.
  std::set<std::pair<uint64_t, uint32_t>> est;
  for (auto& k : w.codecs) if (k.fourcc == ref::kFlac && k.flac.info.total) est.insert({k.flac.info.total, k.flac.info.rate});
  V_CHECK_R(c, got->descriptor_total_samples.has_value() == !est.empty(), "estimate-present", how + " " + Text(w), false);
  if (!est.empty()) {
    bool ok = false;
    for (auto& [t, rate] : est) ok |= *got->descriptor_total_samples == t && got->descriptor_duration_seconds && *got->descriptor_duration_seconds == static_cast<double>(t) / rate;
    V_CHECK_R(c, ok, "estimate", how + " " + Text(w), false);
    c.Count("flac-estimates");
  }
  return true;
}
uint64_t Key(const World& w) { return HashVec(w.descriptors) ^ HashVec(w.Data()); }

// Every field of every descriptor, and of a full and a counting scan.
void Describe(Ctx& c) {
  Rng& r = c.rng;
  World w = Gen(r, {.big = r.Chance(1, 40)});
  Bytes all = w.All();
  c.Eval(); c.Distinct(Key(w));
  auto none = Run(all, Mode(ScanMode::kDescriptorsOnly));
  if (!CheckReport(c, w, none, "descriptors only")) return;
  V_CHECK(c, !none->temporal_unit_scan, "scan-unasked", Text(w));
  std::string tail = "eof"; Bytes extra;
  switch (r.Below(6)) {
    case 0: { ref::Bits ia; ia.Put(0x69616d66, 32); ia.Put(0, 16); extra = ref::EncodeObu(ref::Hdr{31}, ia.Bytes(), Lp{}); Bytes x = r.Bytes(r.Below(9)); extra.insert(extra.end(), x.begin(), x.end()); tail = "next_ia_sequence"; break; }
    case 1: { Bytes x = ref::EncodeObu(ref::Hdr{static_cast<int>(r.Pick({0, 1, 3, 4, 5, 9, 25}))}, r.Bytes(r.Range(2, 30)), Lp{}); x.resize(r.Range(1, static_cast<int64_t>(x.size()) - 1)); extra = x; tail = "truncated"; break; }
    case 2: { extra = Bytes(12, 0xff); extra[0] = static_cast<uint8_t>(r.Range(0, 30) << 3); tail = "malformed"; break; }
    default: break;
  }
  all.insert(all.end(), extra.begin(), extra.end());
  c.Count("ends-" + tail);
  for (bool full : {true, false}) {
    auto got = Run(all, Mode(full ? ScanMode::kScanFull : ScanMode::kScanCounts));
    if (!CheckReport(c, w, got, full ? "full" : "counts")) return;
    V_CHECK(c, got->temporal_unit_scan.has_value(), "scan-missing", Text(w));
    std::string d = Diff(FlatScan(*got->temporal_unit_scan), WantScan(w, w.pieces.size(), full, tail));
    V_CHECK(c, d.empty(), "scan", std::string(full ? "full: " : "counts: ") + d + " " + Text(w));
    if (!CheckDuration(c, w, *got->temporal_unit_scan)) return;
    auto file = ProbeFile(File(c, all), Mode(full ? ScanMode::kScanFull : ScanMode::kScanCounts));
    if (!CheckReport(c, w, file, "file")) return;
    d = Diff(FlatScan(*file->temporal_unit_scan), FlatScan(*got->temporal_unit_scan));
    V_CHECK(c, d.empty(), "file-scan", d + " " + Text(w));
    if (all.size() > 70000) c.Count("files-past-window");
    c.Count("scans"); c.Count("units", got->temporal_unit_scan->temporal_units.size()); c.Count("blocks", got->temporal_unit_scan->parameter_blocks.size());
  }
  if (c.WantSample()) c.Sample(Text(w));
}
// Descriptors that stop early: more bytes are asked for, except of a file.
void Short(Ctx& c) {
  Rng& r = c.rng;
  World w = Gen(r, {});
  Bytes all = w.All();
  for (int k = 0; k < 12; ++k) {
    size_t n = k == 0 ? w.descriptors.size() : k == 1 ? w.descriptors.size() + 1 : r.Below(all.size() + 1);
    Bytes cut(all.begin(), all.begin() + static_cast<long>(n));
    bool done = n >= w.descriptors.size() + 2;  // the header of the first unit tells them complete
    c.Eval();
    auto got = Run(cut, Mode(r.Bool() ? ScanMode::kDescriptorsOnly : ScanMode::kScanFull));
    if (n < w.descriptors.size() + 1) {
      V_CHECK(c, got.status().code() == absl::StatusCode::kResourceExhausted, "short-code", std::to_string(n) + " " + got.status().ToString() + " " + Text(w));
      auto f = ProbeFile(File(c, cut), {});
      V_CHECK(c, f.status().code() == absl::StatusCode::kInvalidArgument, "short-file-code", f.status().ToString());
      c.Count("short");
    } else if (done && w.pieces[0].obu[1] < 0x80) {
      V_CHECK(c, got.ok(), "complete-refused", std::to_string(n) + " " + got.status().ToString() + " " + Text(w));
      c.Count("complete");
    } else V_CHECK(c, got.ok() || got.status().code() == absl::StatusCode::kResourceExhausted, "border-code", got.status().ToString());
  }
  V_CHECK(c, ProbeFile(c.scratch + "/absent.iamf", {}).status().code() == absl::StatusCode::kNotFound, "absent-file", "");
  Bytes junk = r.Bytes(r.Range(20, 60)); junk[0] = static_cast<uint8_t>(r.Below(31) << 3); junk[1] = 4;
  auto got = Run(junk, {});
  V_CHECK(c, got.status().code() == absl::StatusCode::kInvalidArgument, "junk-code", got.status().ToString() + " " + Hex(junk));
  c.Distinct(Key(w));
}
// Cut at any byte, stopped by the budget or by the caller: a prefix of the whole.
void Stop(Ctx& c) {
  Rng& r = c.rng;
  World w = Gen(r, {});
  Bytes all = w.All();
  c.Distinct(Key(w));
  const size_t D = w.descriptors.size(), n = w.pieces.size();
  std::vector<size_t> ends{0}; for (auto& p : w.pieces) ends.push_back(ends.back() + p.obu.size());
  // The caller sees every border.
  {
    ProbeOptions o = Mode(ScanMode::kScanFull); std::vector<ScanProgress> seen;
    o.should_continue = [&](const ScanProgress& p) { seen.push_back(p); return true; };
    auto got = Run(all, o);
    V_CHECK(c, got.ok(), "refused", Text(w));
    std::vector<size_t> at; for (auto& p : seen) at.push_back(p.bytes_consumed);
    if (at.size() == ends.size() + 1) at.pop_back();
    V_CHECK(c, at == ends || at == std::vector<size_t>(ends.begin(), ends.end() - 1), "progress-bytes", Text(w) + " seen " + L(at));
    uint32_t last = 0;
    for (auto& p : seen) { V_CHECK(c, p.temporal_unit_count >= last && p.temporal_unit_count <= got->temporal_unit_scan->temporal_units.size(), "progress-units", Text(w)); last = p.temporal_unit_count; }
    for (size_t i = 0; i < seen.size() && i < n; ++i) {
      // Units finished by then: those before the one the last frame is in.
      std::set<size_t> begun; for (size_t k = 0; k < i; ++k) if (w.pieces[k].kind == kFrame) begun.insert(w.pieces[k].unit);
      V_CHECK(c, seen[i].temporal_unit_count == begun.size() || seen[i].temporal_unit_count + 1 == begun.size(), "progress-units-at", Text(w) + " at piece " + std::to_string(i) + " says " + std::to_string(seen[i].temporal_unit_count));
    }
    c.Count("progress-calls", seen.size());
  }
  for (int t = 0; t < 8; ++t) {
    bool full = r.Bool();
    size_t k = r.Below(n + 1);
    c.Eval();
    int how = static_cast<int>(r.Below(3));
    ProbeOptions o = Mode(full ? ScanMode::kScanFull : ScanMode::kScanCounts);
    Bytes in = all; std::string want = "eof";
    if (how == 0) {
      size_t cut = r.Bool() ? ends[k] : r.Below(all.size() - D + 1);
      in.resize(D + cut);
      k = 0; while (k < n && ends[k + 1] <= cut) ++k;
      want = ends[k] == cut ? "eof" : "truncated";
      if (cut < 2 || (k == 0 && cut < 10)) continue;  // descriptors not known complete
      if (k < n && w.pieces[k].obu.size() > 2 && cut > ends[k] && want == "truncated") c.Count("cut-inside");
      c.Count("cuts");
    } else if (how == 1) { o.max_scan_obu_iterations = k; want = "scan_budget_exceeded"; c.Count("budgets"); }
    else { size_t left = k; o.should_continue = [left](const ScanProgress&) mutable { return left-- > 0; }; want = "cancelled"; c.Count("cancels"); }
    bool file = r.Chance(1, 3);
    auto got = file ? ProbeFile(File(c, in), o) : Run(in, o);
    V_CHECK(c, got.ok(), "refused", got.status().ToString() + " cut " + std::to_string(in.size()) + " " + Text(w));
    auto& s = *got->temporal_unit_scan;
    if (k == n && how != 0 && s.stopped_reason == "eof") want = "eof";  // every OBU was within the budget
    std::string d = Diff(FlatScan(s), WantScan(w, k, full, want));
    V_CHECK(c, d.empty(), "stopped-scan", want + " after " + std::to_string(k) + " pieces" + (full ? " full: " : " counts: ") + d + " " + Text(w));
  }
}
// Damaged data: nothing may differ between ways of asking, nor contradict itself.
void Damaged(Ctx& c) {
  Rng& r = c.rng;
  World w = Gen(r, {.big = r.Chance(1, 60)});
  Bytes all = w.All();
  size_t from = r.Chance(1, 4) ? 0 : w.descriptors.size();
  for (int k = static_cast<int>(r.Range(1, 6)); k > 0; --k) {
    size_t at = from + r.Below(all.size() - from);
    switch (r.Below(4)) {
      case 0: all[at] ^= static_cast<uint8_t>(1 << r.Below(8)); break;
      case 1: all[at] = r.U8(); break;
      case 2: all.erase(all.begin() + static_cast<long>(at)); break;
      default: all.insert(all.begin() + static_cast<long>(at), r.U8()); break;
    }
    if (all.size() <= from + 1) return;
  }
  c.Eval(); c.Distinct(HashVec(all));
  auto full = Run(all, Mode(ScanMode::kScanFull)), counts = Run(all, Mode(ScanMode::kScanCounts)), none = Run(all, {});
  auto file = ProbeFile(File(c, all), Mode(ScanMode::kScanFull));
  std::string text = Text(w) + " data " + Hex(all, 3000);
  V_CHECK(c, full.ok() == counts.ok() && full.ok() == none.ok() && full.ok() == file.ok(), "verdicts-differ", text);
  if (!full.ok()) {
    c.Count("damaged-refused");
    auto k = full.status().code();
    V_CHECK(c, k == absl::StatusCode::kInvalidArgument || k == absl::StatusCode::kResourceExhausted, "error-code", full.status().ToString() + " " + text);
    V_CHECK(c, file.status().code() == absl::StatusCode::kInvalidArgument, "file-error-code", file.status().ToString() + " " + text);
    return;
  }
  c.Count("damaged-scanned");
  KV d0 = FlatDescriptors(*none);
  for (auto* x : {&*full, &*counts, &*file}) { std::string d = Diff(FlatDescriptors(*x), d0); V_CHECK(c, d.empty(), "descriptors-differ", d + " " + text); }
  auto& s = *full->temporal_unit_scan;
  std::string d = Diff(FlatScan(*file->temporal_unit_scan), FlatScan(s));
  V_CHECK(c, d.empty(), "file-differs", d + " " + text);
  d = Diff(FlatScan(*counts->temporal_unit_scan, true), FlatScan(s, true));
  // A block whose body is broken may claim bytes; a counting scan steps over it by size.
  V_CHECK(c, d.empty(), "counts-differ", d + " " + text);
  V_CHECK(c, counts->temporal_unit_scan->parameter_block_count + counts->temporal_unit_scan->parameter_block_parse_errors == s.parameter_block_count + s.parameter_block_parse_errors, "block-totals", text);
  V_CHECK(c, full->descriptor_bytes_consumed + s.bytes_consumed <= all.size(), "consumed-too-much", text);
  static const std::set<std::string> why{"eof", "truncated", "malformed", "next_ia_sequence"};
  V_CHECK(c, why.count(s.stopped_reason), "stop-reason", s.stopped_reason + " " + text);
  V_CHECK(c, (s.stopped_reason == "eof") == (full->descriptor_bytes_consumed + s.bytes_consumed == all.size()), "eof-early", s.stopped_reason + " " + text);
  c.Count("stopped-" + s.stopped_reason);
  uint64_t time = 0, frames = 0; int64_t at = -1;
  for (auto& u : s.temporal_units) { V_CHECK(c, u.start_timestamp == time, "unit-time", text); time += u.num_samples; V_CHECK(c, static_cast<int64_t>(u.byte_offset_from_scan_start) > at && u.byte_offset_from_scan_start < s.bytes_consumed, "unit-offset", text); at = static_cast<int64_t>(u.byte_offset_from_scan_start); }
  for (auto& a : s.audio_frames_by_substream) frames += a.frame_count;
  V_CHECK(c, frames == s.audio_frame_count, "frame-sum", text);
  V_CHECK(c, s.temporal_units.size() <= s.audio_frame_count, "too-many-units", text);
  V_CHECK(c, s.parameter_blocks.size() == s.parameter_block_count, "block-list", text);
  std::map<uint32_t, uint64_t> clock;
  for (auto& b : s.parameter_blocks) { V_CHECK(c, b.start_timestamp == clock[b.parameter_id] && b.end_timestamp == b.start_timestamp + b.duration, "block-time", text); clock[b.parameter_id] = b.end_timestamp; uint64_t sum = 0; for (auto& q : b.subblocks) sum += q.subblock_duration; V_CHECK(c, sum == b.duration || b.subblocks.empty(), "block-durations", text); }
}
}  // namespace
V_MAIN({{"describe", 2500, 60000, Describe}, {"short", 700, 15000, Short}, {"stop", 1500, 40000, Stop}, {"damaged", 3000, 100000, Damaged}})
