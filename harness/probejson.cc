// C09: probe JSON carries the report, well formed, for any report.
#include <cstring>
#include <optional>
#include "iamf/cli/probe.h"
#include "iamf/cli/probe_json.h"
#include "harness/ref/json.h"
#include "harness/vlib.h"
using namespace iamf_tools;
using namespace vlib;
using ref::J;
namespace {
std::string S(Rng& r) {
  std::string s;
  switch (r.Below(7)) {
    case 0: return "";
    case 1: return r.Pick<std::string>({"LPCM", "reserved(7)", "7.1.4", "en-us", "mix_gain"});
    case 2: { const int n = r.Below(6); for (int i = 0; i < n; ++i) s += static_cast<char>(r.Below(0x20)); return s; }
    case 3: { const int n = 1 + r.Below(8); for (int i = 0; i < n; ++i) s += r.Pick<char>({'"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 'u', '0', '\x7f', '\0', '\x1f', ' '}); return s; }
    case 4: { const int n = 1 + r.Below(4); for (int i = 0; i < n; ++i) s += r.Pick<std::string>({"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x8e\xb5", "\xe2\x80\xa8"}); return s; }
    case 5: { const int n = r.Below(130); for (int i = 0; i < n; ++i) s += static_cast<char>(r.U8()); return s; }
    default: { const int n = r.Below(12); for (int i = 0; i < n; ++i) s += static_cast<char>(r.Range(32, 126)); return s; }
  }
}
float F(Rng& r) {
  switch (r.Below(4)) {
    case 0: return static_cast<int16_t>(r.U32()) / 256.f;
    case 1: return r.Pick<float>({0.f, -0.f, 1.f, -128.f, 127.99609375f, 1.f / 256, -1.f / 256, 1e6f, 123456.7f});
    default: return static_cast<float>(r.Real(-130, 130));
  }
}
double D(Rng& r) { switch (r.Below(5)) { case 0: return 0; case 1: return r.Real(0, 1e-6); case 2: return r.Real(0, 1e9); case 3: return static_cast<double>(r.U64()) / 48000.0; default: return r.Real(0, 400); } }
// Coverage of members: each setter writes a random value in the report and the same in the model.
struct B {
  Rng& r; J& j;
  template <class T> void Num(const char* k, T& f) {
    if constexpr (std::is_signed_v<T>) { f = static_cast<T>(r.Bool() ? static_cast<int64_t>(r.U64()) : r.Range(-3, 3)); j[k] = J::Int(f); }
    else { f = static_cast<T>(r.Bool() ? r.U64() : r.Bool() ? r.Edge32() : r.Below(4)); if (r.Chance(1, 12)) f = static_cast<T>(-1); j[k] = J::UInt(f); }
  }
  void Str(const char* k, std::string& f) { f = S(r); j[k] = J::Str(f); }
  void Bool(const char* k, bool& f) { f = r.Bool(); j[k] = J::Bool(f); }
  void Real(const char* k, float& f) { f = F(r); j[k] = J::Real(f); }
  template <class T> void OptNum(const char* k, std::optional<T>& f) { if (r.Bool()) { T v; Num(k, v); f = v; } }
  void OptStr(const char* k, std::optional<std::string>& f) { if (r.Bool()) { std::string v; Str(k, v); f = v; } }
  void OptReal(const char* k, std::optional<float>& f) { if (r.Bool()) { float v; Real(k, v); f = v; } }
  void OptDouble(const char* k, std::optional<double>& f) { if (r.Bool()) { f = D(r); j[k] = J::Real(*f); } }
  template <class T> void Vec(const char* k, std::vector<T>& f) {
    j[k] = J::Arr();
    for (int i = r.Bool() ? 0 : r.Below(6); i > 0; --i) { f.push_back(static_cast<T>(r.Bool() ? r.U64() : r.Below(3))); j[k].Add(std::is_signed_v<T> ? J::Int(static_cast<int64_t>(f.back())) : J::UInt(static_cast<uint64_t>(f.back()))); }
  }
  void StrVec(const char* k, std::vector<std::string>& f) { j[k] = J::Arr(); for (int i = r.Below(4); i > 0; --i) { f.push_back(S(r)); j[k].Add(J::Str(f.back())); } }
  // A list of objects.
  template <class T, class Fn> void List(const char* k, std::vector<T>& f, int max, Fn fn, bool omit_empty = false) {
    J a = J::Arr();
    const int n = static_cast<int>(r.Below(max + 1));
    for (int i = 0; i < n; ++i) { T t{}; J e = J::Obj(); fn(B{r, e}, t); f.push_back(std::move(t)); a.Add(e); }
    if (n > 0 || !omit_empty) j[k] = a;
  }
  template <class T, class Fn> void Obj(const char* k, T& f, Fn fn) { J e = J::Obj(); fn(B{r, e}, f); j[k] = e; }
  template <class T, class Fn> void OptObj(const char* k, std::optional<T>& f, Fn fn, int num = 1, int den = 2) { if (!r.Chance(num, den)) return; T t{}; J e = J::Obj(); fn(B{r, e}, t); f = std::move(t); j[k] = e; }
};
void ParamDef(B b, ParamDefinitionReport& d) {
  b.Num("parameter_id", d.parameter_id); b.Num("parameter_rate", d.parameter_rate); b.Num("param_definition_mode", d.param_definition_mode); b.Num("duration", d.duration); b.Num("constant_subblock_duration", d.constant_subblock_duration);
}
void MixGain(B b, MixGainParamDefinitionReport& g) { b.Obj("param_definition", g.param_definition, ParamDef); b.Real("default_mix_gain", g.default_mix_gain); b.Num("default_mix_gain_q7_8", g.default_mix_gain_q7_8); }
void Codec(B b, CodecConfigReport& x) {
  b.Num("id", x.id); b.Str("codec_id", x.codec_id); b.Num("codec_id_raw", x.codec_id_raw); b.Num("num_samples_per_frame", x.num_samples_per_frame); b.Num("audio_roll_distance", x.audio_roll_distance);
  b.Num("output_sample_rate", x.output_sample_rate); b.Num("input_sample_rate", x.input_sample_rate); b.Num("bit_depth", x.bit_depth);
  b.OptObj("opus", x.opus, [](B b, OpusDecoderConfigReport& o) { b.Num("version", o.version); b.Num("output_channel_count", o.output_channel_count); b.Num("pre_skip", o.pre_skip); b.Num("input_sample_rate", o.input_sample_rate); b.Real("output_gain", o.output_gain); b.Num("output_gain_q7_8", o.output_gain_q7_8); b.Num("mapping_family", o.mapping_family); });
  b.OptObj("lpcm", x.lpcm, [](B b, LpcmDecoderConfigReport& o) { b.Str("sample_format", o.sample_format); b.Num("sample_format_raw", o.sample_format_raw); b.Num("sample_size", o.sample_size); b.Num("sample_rate", o.sample_rate); });
  b.OptObj("aac", x.aac, [](B b, AacDecoderConfigReport& o) {
    b.Num("object_type_indication", o.object_type_indication); b.Num("stream_type", o.stream_type); b.Bool("upstream", o.upstream); b.Bool("reserved", o.reserved); b.Num("buffer_size_db", o.buffer_size_db); b.Num("max_bitrate", o.max_bitrate);
    b.Num("average_bit_rate", o.average_bit_rate); b.Num("audio_object_type", o.audio_object_type); b.Str("sample_frequency_index", o.sample_frequency_index); b.Num("sample_frequency_index_raw", o.sample_frequency_index_raw); b.Num("channel_configuration", o.channel_configuration); });
  b.OptObj("flac", x.flac, [](B b, FlacDecoderConfigReport& o) {
    b.List("metadata_blocks", o.metadata_blocks, 3, [](B b, FlacMetaBlockReport& m) {
      b.Str("block_type", m.block_type); b.Num("block_type_raw", m.block_type_raw);
      J ignored = J::Obj(); m.is_stream_info = b.r.Bool();
      B t{b.r, m.is_stream_info ? b.j : ignored};
      t.Num("minimum_block_size", m.minimum_block_size); t.Num("maximum_block_size", m.maximum_block_size); t.Num("minimum_frame_size", m.minimum_frame_size); t.Num("maximum_frame_size", m.maximum_frame_size);
      t.Num("sample_rate", m.sample_rate); t.Num("number_of_channels", m.number_of_channels); t.Num("bits_per_sample", m.bits_per_sample); t.Num("total_samples_in_stream", m.total_samples_in_stream); }); });
}
void Element(B b, AudioElementReport& a) {
  b.Num("id", a.id); b.Str("type", a.type); b.Num("type_raw", a.type_raw); b.Num("reserved", a.reserved); b.Num("codec_config_id", a.codec_config_id); b.Num("num_substreams", a.num_substreams); b.Vec("substream_ids", a.substream_ids);
  b.List("params", a.params, 3, [](B b, AudioElementParamReport& p) { b.Str("param_type", p.param_type); b.Num("param_type_raw", p.param_type_raw); b.Num("parameter_id", p.parameter_id); b.Num("parameter_rate", p.parameter_rate); b.Num("param_definition_mode", p.param_definition_mode); b.Num("duration", p.duration); b.Num("constant_subblock_duration", p.constant_subblock_duration); });
  b.List("scalable_layers", a.scalable_layers, 3, [](B b, ChannelAudioLayerReport& l) {
    b.Str("loudspeaker_layout", l.loudspeaker_layout); b.Num("loudspeaker_layout_raw", l.loudspeaker_layout_raw); b.Num("substream_count", l.substream_count); b.Num("coupled_substream_count", l.coupled_substream_count);
    b.Bool("output_gain_is_present_flag", l.output_gain_is_present_flag); b.Bool("recon_gain_is_present_flag", l.recon_gain_is_present_flag); b.Num("output_gain_flag", l.output_gain_flag); b.Real("output_gain", l.output_gain); b.Num("output_gain_q7_8", l.output_gain_q7_8);
    b.OptStr("expanded_loudspeaker_layout", l.expanded_loudspeaker_layout); b.OptNum("expanded_loudspeaker_layout_raw", l.expanded_loudspeaker_layout_raw); }, true);
  b.OptObj("ambisonics", a.ambisonics, [](B b, AmbisonicsReport& m) {
    b.Str("mode", m.mode); b.Num("mode_raw", m.mode_raw); b.OptNum("order", m.order);
    b.OptObj("mono", m.mono, [](B b, AmbisonicsMonoReport& x) { b.Num("output_channel_count", x.output_channel_count); b.Num("substream_count", x.substream_count); b.Vec("channel_mapping", x.channel_mapping); });
    b.OptObj("projection", m.projection, [](B b, AmbisonicsProjectionReport& x) { b.Num("output_channel_count", x.output_channel_count); b.Num("substream_count", x.substream_count); b.Num("coupled_substream_count", x.coupled_substream_count); b.Vec("demixing_matrix", x.demixing_matrix); }); });
  b.OptStr("channel_layout", a.channel_layout); b.OptNum("channel_layout_raw", a.channel_layout_raw); b.OptNum("expanded_channel_layout_raw", a.expanded_channel_layout_raw); b.OptNum("ambisonics_order", a.ambisonics_order); b.OptNum("ambisonics_channels", a.ambisonics_channels); b.OptNum("num_channels", a.num_channels);
}
void Mix(B b, MixPresentationReport& m) {
  b.Num("id", m.id); b.Num("count_label", m.count_label); b.Num("num_sub_mixes", m.num_sub_mixes);
  b.List("annotations", m.annotations, 3, [](B b, std::pair<std::string, std::string>& p) { b.Str("language", p.first); b.Str("label", p.second); });
  b.List("sub_mixes", m.sub_mixes, 2, [](B b, SubMixReport& s) {
    b.List("audio_elements", s.audio_elements, 2, [](B b, SubMixAudioElementReport& e) {
      b.Num("audio_element_id", e.audio_element_id); b.StrVec("localized_element_annotations", e.localized_element_annotations);
      b.Obj("rendering_config", e.rendering_config, [](B b, RenderingConfigReport& c) { b.Str("headphones_rendering_mode", c.headphones_rendering_mode); b.Num("headphones_rendering_mode_raw", c.headphones_rendering_mode_raw); b.Str("binaural_filter_profile", c.binaural_filter_profile); b.Num("binaural_filter_profile_raw", c.binaural_filter_profile_raw); });
      b.Obj("element_mix_gain", e.element_mix_gain, MixGain); });
    b.Obj("output_mix_gain", s.output_mix_gain, MixGain);
    b.List("layouts", s.layouts, 3, [](B b, MixPresentationLayoutReport& l) {
      b.Obj("loudness_layout", l.loudness_layout, [](B b, LayoutReport& x) { b.Str("layout_type", x.layout_type); b.Num("layout_type_raw", x.layout_type_raw); b.OptStr("sound_system", x.sound_system); b.OptNum("sound_system_raw", x.sound_system_raw); });
      b.Obj("loudness", l.loudness, [](B b, LoudnessInfoReport& x) {
        b.Num("info_type", x.info_type); b.Bool("true_peak_present", x.true_peak_present); b.Bool("anchored_loudness_present", x.anchored_loudness_present); b.Bool("has_layout_extension", x.has_layout_extension); b.Real("integrated_loudness", x.integrated_loudness); b.Real("digital_peak", x.digital_peak);
        b.OptReal("true_peak", x.true_peak);
        b.List("anchored_loudness_elements", x.anchored_loudness_elements, 2, [](B b, AnchoredLoudnessElementReport& e) { b.Str("anchor_element", e.anchor_element); b.Num("anchor_element_raw", e.anchor_element_raw); b.Real("anchored_loudness", e.anchored_loudness); b.Num("anchored_loudness_q7_8", e.anchored_loudness_q7_8); }, true); }); }); });
  b.List("tags", m.tags, 2, [](B b, MixPresentationTagReport& t) { b.Str("tag_name", t.tag_name); b.Str("tag_value", t.tag_value); });
  b.StrVec("layouts", m.layouts);
  b.OptReal("integrated_loudness_lkfs", m.integrated_loudness_lkfs); b.OptReal("digital_peak_dbfs", m.digital_peak_dbfs); b.OptReal("true_peak_dbfs", m.true_peak_dbfs);
}
void Subblock(B b, ParameterSubblockReport& s) {
  b.Num("subblock_duration", s.subblock_duration);
  b.OptObj("mix_gain", s.mix_gain, [](B b, MixGainAnimationReport& m) {
    b.Str("animation_type", m.animation_type); b.Num("animation_type_raw", m.animation_type_raw); b.Real("start_point_value", m.start_point_value); b.Num("start_point_value_q7_8", m.start_point_value_q7_8);
    // The coded and decoded forms of a point are present together.
    if (b.r.Bool()) { float f; int16_t q; b.Real("end_point_value", f); b.Num("end_point_value_q7_8", q); m.end_point_value = f; m.end_point_value_q7_8 = q; }
    if (b.r.Bool()) { float f; int16_t q; b.Real("control_point_value", f); b.Num("control_point_value_q7_8", q); m.control_point_value = f; m.control_point_value_q7_8 = q; }
    b.OptNum("control_point_relative_time", m.control_point_relative_time); });
  b.OptObj("demixing", s.demixing, [](B b, DemixingInfoReport& d) { b.Str("dmixp_mode", d.dmixp_mode); b.Num("dmixp_mode_raw", d.dmixp_mode_raw); b.Num("reserved", d.reserved); });
  b.OptObj("recon_gain", s.recon_gain, [](B b, ReconGainInfoReport& d) { b.List("layers", d.layers, 3, [](B b, ReconGainForLayerReport& l) { b.Num("layer_index", l.layer_index); b.Num("recon_gain_flag", l.recon_gain_flag); b.Vec("recon_gain", l.recon_gain); }); });
}
void Scan(B b, TemporalUnitScanReport& s) {
  b.Num("temporal_unit_count", s.temporal_unit_count); b.Num("audio_frame_count", s.audio_frame_count); b.Num("parameter_block_count", s.parameter_block_count); b.Num("temporal_delimiter_count", s.temporal_delimiter_count);
  b.Num("audio_frame_parse_errors", s.audio_frame_parse_errors); b.Num("parameter_block_parse_errors", s.parameter_block_parse_errors); b.Num("bytes_consumed", s.bytes_consumed); b.Str("stopped_reason", s.stopped_reason);
  b.OptNum("total_samples", s.total_samples); b.OptNum("output_sample_rate", s.output_sample_rate); b.OptDouble("duration_seconds", s.duration_seconds);
  b.List("audio_frames_by_substream", s.audio_frames_by_substream, 4, [](B b, AudioFrameSummaryReport& f) { b.Num("substream_id", f.substream_id); b.Num("codec_config_id", f.codec_config_id); b.Num("frame_count", f.frame_count); b.Num("total_samples", f.total_samples); });
  b.List("parameter_blocks", s.parameter_blocks, 3, [](B b, ParameterBlockReport& p) {
    b.Num("parameter_id", p.parameter_id); b.Str("param_type", p.param_type); b.Num("param_type_raw", p.param_type_raw); b.Num("start_timestamp", p.start_timestamp); b.Num("end_timestamp", p.end_timestamp); b.Num("duration", p.duration); b.Num("constant_subblock_duration", p.constant_subblock_duration);
    b.List("subblocks", p.subblocks, 3, Subblock); });
  for (int i = b.r.Below(3); i > 0; --i) s.temporal_units.push_back({b.r.U64(), b.r.U64(), b.r.U64(), b.r.U32(), b.r.U32()});
}
void Render(Ctx& c) {
  Rng& r = c.rng;
  ProbeReport rep; J want = J::Obj(); B b{r, want};
  b.Str("primary_profile", rep.primary_profile); b.Num("primary_profile_raw", rep.primary_profile_raw); b.Str("additional_profile", rep.additional_profile); b.Num("additional_profile_raw", rep.additional_profile_raw); b.Num("descriptor_bytes_consumed", rep.descriptor_bytes_consumed);
  b.OptNum("descriptor_total_samples", rep.descriptor_total_samples); b.OptDouble("descriptor_duration_seconds", rep.descriptor_duration_seconds);
  b.List("codec_configs", rep.codec_configs, 3, Codec); b.List("audio_elements", rep.audio_elements, 3, Element); b.List("mix_presentations", rep.mix_presentations, 2, Mix);
  b.OptObj("temporal_unit_scan", rep.temporal_unit_scan, Scan);
  const std::string out = ProbeReportToJson(rep);
  c.Eval();
  ref::JsonParser p(out); J got;
  V_CHECK(c, p.Parse(got), "json-malformed", p.error << " in " << out.substr(0, 1500));
  const std::string d = ref::Diff(got, want);
  V_CHECK(c, d.empty(), "json-content", d << " in " << out.substr(0, 1500));
  V_CHECK(c, !out.empty() && out.back() == '\n' && out[0] == '{', "json-newline", "");
  V_CHECK(c, ProbeReportToJson(rep) == out, "json-repeat", "");
  c.Count("reports"); c.Count("bytes", out.size());
  c.Distinct(HashStr(out));
  if (c.WantSample() && out.size() < 1200) c.Sample(out);
}
}  // namespace
V_MAIN({{"render", 20000, 600000, Render}})
