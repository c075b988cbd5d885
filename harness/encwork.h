// Encoding jobs: metadata and audio for the encoder, and what must come out, computed
// from the reference model in ref/.
#ifndef VERIF_ENCWORK_H_
#define VERIF_ENCWORK_H_
#include <functional>
#include <optional>
#include "harness/ref/obus.h"
#include "harness/ref/stream.h"
#include "harness/ref/toa.h"
#include "harness/ref/labels.h"
#include "harness/vlib.h"
#include "absl/status/statusor.h"
#include "iamf/cli/iamf_encoder.h"
#include "iamf/cli/proto/user_metadata.pb.h"
#include "iamf/cli/rendering_mix_presentation_finalizer.h"
#include "iamf/include/iamf_tools/iamf_tools_encoder_api_types.h"
namespace enc {
namespace pb = iamf_tools_cli_proto;
using vlib::Rng;
using ref::Bytes;
using ref::Codec;

// ---- to metadata ----
inline std::string Str(const Bytes& b) { return std::string(b.begin(), b.end()); }
inline std::string Norm(const std::string& s) { std::string r; for (char c : s) if (c != '_') r += static_cast<char>(tolower(c)); return r; }
inline pb::ChannelLabel ProtoLabel(const std::string& name) {
  static const auto* m = [] {
    auto* r = new std::map<std::string, pb::ChannelLabel>;
    auto* d = pb::ChannelLabel_descriptor();
    for (int i = 0; i < d->value_count(); ++i) (*r)[Norm(d->value(i)->name().substr(14))] = static_cast<pb::ChannelLabel>(d->value(i)->number());
    (*r)["c"] = pb::CHANNEL_LABEL_CENTRE; (*r)["oc0"] = pb::CHANNEL_LABEL_OBJECT_CHANNEL0; (*r)["oc1"] = pb::CHANNEL_LABEL_OBJECT_CHANNEL1;
    return r;
  }();
  auto i = m->find(Norm(name));
  if (i == m->end()) vlib::HarnessBug("proto label " + name);
  return i->second;
}
inline void ToHeader(const std::optional<Bytes>& ext, pb::ObuHeaderMetadata* h) {
  if (!ext) return;
  h->set_obu_extension_flag(true); h->set_extension_header_bytes(Str(*ext));
}
inline uint32_t CodecDelay(const Codec& c);
inline void ToCodec(const Codec& c, pb::CodecConfigObuMetadata& m) {
  m.set_codec_config_id(c.id);
  auto* q = m.mutable_codec_config();
  q->set_codec_id(static_cast<pb::CodecId>(c.fourcc));
  q->set_num_samples_per_frame(c.nsamples); q->set_audio_roll_distance(c.roll);
  const int how = c.id % 5;  // 1: nothing is derived by the encoder, 2: what it derives is given wrongly
  if (how == 1) { q->set_audio_roll_distance(c.fourcc == ref::kOpus ? ref::OpusRoll(c.nsamples) : c.fourcc == ref::kAac ? -1 : 0); q->set_automatically_override_audio_roll_distance(false); q->set_automatically_override_codec_delay(false); }
  if (how == 2) { q->set_automatically_override_audio_roll_distance(true); q->set_automatically_override_codec_delay(true); q->set_audio_roll_distance(-77); }
  switch (c.fourcc) {
    case ref::kLpcm: {
      auto* l = q->mutable_decoder_config_lpcm();
      l->set_sample_format_flags(c.lpcm.flags & 1 ? pb::LPCM_LITTLE_ENDIAN : pb::LPCM_BIG_ENDIAN); l->set_sample_size(c.lpcm.size); l->set_sample_rate(c.lpcm.rate);
      break;
    }
    case ref::kOpus: {
      auto* o = q->mutable_decoder_config_opus();
      o->set_version(c.opus.version); o->set_output_channel_count(c.opus.channels); o->set_pre_skip(how == 2 ? 9 : how == 1 ? CodecDelay(c) : c.opus.preskip); o->set_input_sample_rate(c.opus.rate); o->set_output_gain(c.opus.gain); o->set_mapping_family(c.opus.family);
      o->mutable_opus_encoder_metadata()->set_target_bitrate_per_channel(48000); o->mutable_opus_encoder_metadata()->set_application(static_cast<pb::OpusApplicationFlag>(1 + c.id / 2 % 3)); o->mutable_opus_encoder_metadata()->set_use_float_api(c.id & 1);
      break;
    }
    case ref::kFlac: {
      auto* f = q->mutable_decoder_config_flac();
      auto* b = f->add_metadata_blocks();
      b->mutable_header()->set_block_type(pb::FLAC_BLOCK_TYPE_STREAMINFO);
      auto* s = b->mutable_stream_info(); auto& i = c.flac.info;
      s->set_minimum_block_size(i.min); s->set_maximum_block_size(i.max); s->set_minimum_frame_size(i.minf); s->set_maximum_frame_size(i.maxf); s->set_sample_rate(i.rate);
      s->set_number_of_channels(i.ch); s->set_bits_per_sample(i.bits); s->set_total_samples_in_stream(i.total); s->set_md5_signature(Str(i.md5));
      for (auto& x : c.flac.rest) { auto* k = f->add_metadata_blocks(); k->mutable_header()->set_block_type(static_cast<pb::FlacBlockType>(x.type + 1)); k->set_generic_block(Str(x.data)); }
      break;
    }
    case ref::kAac: {
      auto* a = q->mutable_decoder_config_aac(); auto& c2 = c.aac;
      a->set_decoder_config_descriptor_tag(c2.tag1); a->set_object_type_indication(c2.oti); a->set_stream_type(c2.stream); a->set_upstream(c2.up); a->set_reserved(c2.res);
      a->set_buffer_size_db(c2.buf); a->set_max_bitrate(c2.maxb); a->set_average_bit_rate(c2.avgb);
      auto* d = a->mutable_decoder_specific_info();
      d->set_decoder_specific_info_descriptor_tag(c2.tag2); d->set_audio_object_type(c2.aot); 
      static const uint32_t kHz[] = {96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350};
      if (c.id % 3 == 1 && c2.freq < 13) { d->set_sample_frequency_index(pb::AAC_SAMPLE_FREQUENCY_INDEX_ESCAPE_VALUE); d->set_sampling_frequency(kHz[c2.freq]); }
      else d->set_sample_frequency_index(static_cast<pb::SampleFrequencyIndex>(c2.freq + 1));
       d->set_channel_configuration(c2.ch);
      auto* g = a->mutable_ga_specific_config();
      g->set_frame_length_flag(c2.f1); g->set_depends_on_core_coder(c2.f2); g->set_extension_flag(c2.f3);
      break;
    }
  }
}
inline void ToPd(const ref::Pd& p, pb::ParamDefinition* d) {
  d->set_parameter_id(p.id); d->set_parameter_rate(p.rate); d->set_param_definition_mode(p.mode1); d->set_reserved(p.res);
  if (p.mode1) return;
  d->set_duration(p.s.dur); d->set_constant_subblock_duration(p.s.csd);
  if (p.s.csd == 0) for (uint32_t x : p.s.subs) d->add_subblock_durations(x);
}
inline void ToElement(const ref::Element& e, pb::AudioElementObuMetadata& m) {
  m.set_audio_element_id(e.id); m.set_audio_element_type(static_cast<pb::AudioElementType>(e.type + 1)); m.set_reserved(e.res); m.set_codec_config_id(e.codec);
  for (uint32_t s : e.subs) m.add_audio_substream_ids(s);
  for (auto& p : e.params) {
    auto* a = m.add_audio_element_params();
    if (p.type == 1) {
      a->set_param_definition_type(pb::PARAM_DEFINITION_TYPE_DEMIXING);
      auto* d = a->mutable_demixing_param();
      ToPd(p, d->mutable_param_definition());
      d->mutable_default_demixing_info_parameter_data()->set_dmixp_mode(static_cast<pb::DMixPMode>(p.dmode + 1)); d->mutable_default_demixing_info_parameter_data()->set_reserved(p.dres);
      d->set_default_w(p.dw); d->set_reserved(p.dres2);
    } else if (p.type == 2) {
      a->set_param_definition_type(pb::PARAM_DEFINITION_TYPE_RECON_GAIN);
      ToPd(p, a->mutable_recon_gain_param()->mutable_param_definition());
    } else if (p.type == 0xffffffffu) {
      a->set_param_definition_type(pb::PARAM_DEFINITION_TYPE_RESERVED_255);
      a->mutable_param_definition_extension()->set_param_definition_bytes(Str(p.ext));
    } else vlib::HarnessBug("element parameter");
  }
  switch (e.type) {
    case 0: {
      auto* c = m.mutable_scalable_channel_layout_config();
      c->set_reserved(e.ch_res);
      for (auto& l : e.layers) {
        auto* q = c->add_channel_audio_layer_configs();
        q->set_loudspeaker_layout(static_cast<pb::LoudspeakerLayout>(l.layout + 1)); q->set_output_gain_is_present_flag(l.og); q->set_recon_gain_is_present_flag(l.rg);
        q->set_reserved_a(l.res_a); q->set_substream_count(l.sub); q->set_coupled_substream_count(l.coupled);
        if (l.og) { q->set_output_gain_flag(l.og_flags); q->set_reserved_b(l.res_b); q->set_output_gain(l.gain); }
        if (l.layout == 15) q->set_expanded_loudspeaker_layout(static_cast<pb::ExpandedLoudspeakerLayout>(l.expanded + 1));
      }
      break;
    }
    case 1: {
      auto* a = m.mutable_ambisonics_config();
      if (e.amb_mode == 0) { auto* q = a->mutable_ambisonics_mono_config(); q->set_output_channel_count(e.C); q->set_substream_count(e.N); for (uint8_t x : e.mapping) q->add_channel_mapping(x); }
      else { auto* q = a->mutable_ambisonics_projection_config(); q->set_output_channel_count(e.C); q->set_substream_count(e.N); q->set_coupled_substream_count(e.M); for (int16_t x : e.matrix) q->add_demixing_matrix(x); }
      break;
    }
    case 2: { auto* o = m.mutable_objects_config(); o->set_num_objects(e.num_objects); o->set_objects_config_extension_bytes(Str(e.obj_ext)); break; }
    default: vlib::HarnessBug("element type");
  }
}
inline void ToMixGain(const ref::Pd& p, pb::MixGainParamDefinition* d) { ToPd(p, d->mutable_param_definition()); d->set_default_mix_gain(p.mix); }
inline void ToMix(const ref::Mix& m, pb::MixPresentationObuMetadata& o) {
  o.set_mix_presentation_id(m.id);
  for (auto& s : m.lang) o.add_annotations_language(s);
  for (auto& s : m.note) o.add_localized_presentation_annotations(s);
  for (auto& s : m.sm) {
    auto* x = o.add_sub_mixes();
    for (auto& e : s.el) {
      auto* a = x->add_audio_elements();
      a->set_audio_element_id(e.id);
      for (auto& n : e.notes) a->add_localized_element_annotations(n);
      auto* rc = a->mutable_rendering_config();
      rc->set_headphones_rendering_mode(static_cast<pb::HeadPhonesRenderingMode>(e.rc.mode + 1)); rc->set_binaural_filter_profile(static_cast<pb::BinauralFilterProfile>(e.rc.profile + 1)); rc->set_reserved(e.rc.res);
      for (auto& p : e.rc.params) {
        auto* d = rc->add_rendering_config_param_definitions();
        d->set_param_definition_type(static_cast<pb::ParamDefinitionType>(p.type + 1));
        switch (p.type) {
          case 3: { auto* x = d->mutable_polar_param_definition(); ToPd(p, x->mutable_param_definition()); x->set_default_azimuth(p.pos[0]); x->set_default_elevation(p.pos[1]); x->set_default_distance(p.pos[2]); break; }
          case 4: { auto* x = d->mutable_cart8_param_definition(); ToPd(p, x->mutable_param_definition()); x->set_default_x(p.pos[0]); x->set_default_y(p.pos[1]); x->set_default_z(p.pos[2]); break; }
          case 5: { auto* x = d->mutable_cart16_param_definition(); ToPd(p, x->mutable_param_definition()); x->set_default_x(p.pos[0]); x->set_default_y(p.pos[1]); x->set_default_z(p.pos[2]); break; }
          case 6: { auto* x = d->mutable_dual_polar_param_definition(); ToPd(p, x->mutable_param_definition()); x->set_default_first_azimuth(p.pos[0]); x->set_default_first_elevation(p.pos[1]); x->set_default_first_distance(p.pos[2]); x->set_default_second_azimuth(p.pos[3]); x->set_default_second_elevation(p.pos[4]); x->set_default_second_distance(p.pos[5]); break; }
          case 7: { auto* x = d->mutable_dual_cart8_param_definition(); ToPd(p, x->mutable_param_definition()); x->set_default_first_x(p.pos[0]); x->set_default_first_y(p.pos[1]); x->set_default_first_z(p.pos[2]); x->set_default_second_x(p.pos[3]); x->set_default_second_y(p.pos[4]); x->set_default_second_z(p.pos[5]); break; }
          case 8: { auto* x = d->mutable_dual_cart16_param_definition(); ToPd(p, x->mutable_param_definition()); x->set_default_first_x(p.pos[0]); x->set_default_first_y(p.pos[1]); x->set_default_first_z(p.pos[2]); x->set_default_second_x(p.pos[3]); x->set_default_second_y(p.pos[4]); x->set_default_second_z(p.pos[5]); break; }
          default: vlib::HarnessBug("position parameters");
        }
      }
      if (e.rc.go) {
        auto* g = rc->mutable_element_gain_offset_config();
        if (e.rc.go->type == 0) g->mutable_value_type()->mutable_element_gain_offset()->set_q7_dot8(e.rc.go->v);
        else { auto* q = g->mutable_range_type(); q->mutable_default_element_gain_offset()->set_q7_dot8(e.rc.go->def); q->mutable_min_element_gain_offset()->set_q7_dot8(e.rc.go->lo); q->mutable_max_element_gain_offset()->set_q7_dot8(e.rc.go->hi); }
      }
      rc->set_rendering_config_extension_bytes(Str(e.rc.ext));
      ToMixGain(e.gain, a->mutable_element_mix_gain());
    }
    ToMixGain(s.out, x->mutable_output_mix_gain());
    for (auto& l : s.layouts) {
      auto* y = x->add_layouts();
      auto* lay = y->mutable_loudness_layout();
      lay->set_layout_type(static_cast<pb::LayoutType>(l.type + 1));
      if (l.type == 2) { lay->mutable_ss_layout()->set_sound_system(static_cast<pb::SoundSystem>(l.ss + 1)); lay->mutable_ss_layout()->set_reserved(l.res); }
      else lay->mutable_reserved_or_binaural_layout()->set_reserved(l.res);
      auto* ld = y->mutable_loudness();
      for (int b = 0; b < 8; ++b) if (l.info >> b & 1) ld->add_info_type_bit_masks(static_cast<pb::LoudnessInfoTypeBitMask>(1 << b));
      ld->set_integrated_loudness(l.il); ld->set_digital_peak(l.dp);
      if (l.info & 1) ld->set_true_peak(l.tp);
      if (l.info & 2) for (auto& a : l.anchors) { auto* q = ld->mutable_anchored_loudness()->add_anchor_elements(); q->set_anchor_element(static_cast<pb::AnchorType>(a.what + 1)); q->set_anchored_loudness(a.v); }
      if (l.info & 0xfc) ld->set_info_type_bytes(Str(l.ext));
    }
  }
  if (m.tags) { o.set_include_mix_presentation_tags(true); for (auto& [k, v] : *m.tags) { auto* t = o.mutable_mix_presentation_tags()->add_tags(); t->set_tag_name(k); t->set_tag_value(v); } }
  if (m.opt) { auto* q = o.mutable_optional_fields(); q->set_preferred_loudspeaker_renderer(static_cast<pb::PreferredLoudspeakerRenderer>(m.lr + 1)); q->set_preferred_binaural_renderer(static_cast<pb::PreferredBinauralRenderer>(m.br + 1)); q->set_optional_fields_remaining_bytes(Str(m.opt_rest)); }
}
inline void ToBlock(const ref::PBlock& p, int64_t start, pb::ParameterBlockObuMetadata& m) {
  m.set_parameter_id(p.def.id); m.set_start_timestamp(start);
  if (p.def.mode1) { m.set_duration(p.s.dur); m.set_constant_subblock_duration(p.s.csd); }
  for (size_t k = 0; k < p.data.size(); ++k) {
    auto* s = m.add_subblocks();
    auto& d = p.data[k];
    if (p.def.mode1 && p.s.csd == 0) s->set_subblock_duration(p.s.subs[k]);
    switch (p.def.type) {
      case 0: {
        auto* q = s->mutable_mix_gain_parameter_data()->mutable_param_data();
        if (d.anim == 0) q->mutable_step()->set_start_point_value(d.a);
        else if (d.anim == 1) { q->mutable_linear()->set_start_point_value(d.a); q->mutable_linear()->set_end_point_value(d.b); }
        else { auto* z = q->mutable_bezier(); z->set_start_point_value(d.a); z->set_end_point_value(d.b); z->set_control_point_value(d.c); z->set_control_point_relative_time(d.t); }
        break;
      }
      case 1: { auto* q = s->mutable_demixing_info_parameter_data(); q->set_dmixp_mode(static_cast<pb::DMixPMode>(d.dmode + 1)); q->set_reserved(d.dres); break; }
      case 2: {
        auto* q = s->mutable_recon_gain_info_parameter_data();
        for (auto& x : d.recon) { auto* g = q->add_recon_gains_for_layer(); if (x) for (int i = 0; i < 12; ++i) if (x->flags >> i & 1) (*g->mutable_recon_gain())[i] = x->g[i]; }
        break;
      }
    }
  }
}

// ---- a job ----
struct Job {
  ref::Stream st;                                    // descriptors
  std::vector<std::optional<Bytes>> ext_codec, ext_elem, ext_mix; std::optional<Bytes> ext_ia;
  int leb_mode = 0;                                  // 0 minimal, n fixed size
  bool delimiters = false;
  std::vector<ref::Labels> in;                       // per element: input label -> S samples
  bool build_tag = false;                            // the encoder adds a tag of its own to every mix
  std::map<uint32_t, int> preset;                    // elements configured by an ambisonics preset: id -> order
  uint32_t S = 0;
  uint32_t ts = 0, te = 0; bool ts_incl = true, te_incl = true;
  // Blocks by input frame: blocks[k] start at k * N.
  std::vector<std::vector<ref::PBlock>> blocks;
  std::vector<std::optional<Bytes>> ext_block;       // by parameter, cycling
  uint32_t N() const { return st.codec.nsamples; }
};
// Delay the codec imposes, by the stand-in codecs' documented look-ahead.
inline uint32_t CodecDelay(const Codec& c) { return c.fourcc == ref::kOpus ? 48000 / 400 + (c.id / 2 % 3 == 2 ? 0 : 48000 / 250) : c.fourcc == ref::kAac ? 2048 : 0; }
inline int BitDepth(const Codec& c) { return c.fourcc == ref::kLpcm ? c.lpcm.size : c.fourcc == ref::kFlac ? c.flac.info.bits + 1 : 16; }
inline uint32_t RateOf(const Codec& c) { return c.fourcc == ref::kLpcm ? c.lpcm.rate : c.fourcc == ref::kFlac ? c.flac.info.rate : c.fourcc == ref::kAac ? ref::AacRates()[c.aac.freq] : 48000; }
inline bool Lossless(const Codec& c) { return c.fourcc == ref::kLpcm || c.fourcc == ref::kFlac; }

inline pb::UserMetadata Metadata(const Job& j) {
  pb::UserMetadata u;
  auto* ia = u.add_ia_sequence_header_metadata();
  ia->set_primary_profile(static_cast<pb::ProfileVersion>(j.st.primary + 1)); ia->set_additional_profile(static_cast<pb::ProfileVersion>(j.st.additional + 1));
  if (j.ext_ia) ToHeader(j.ext_ia, ia->mutable_obu_header());
  std::vector<const Codec*> cs{&j.st.codec};
  for (auto& c : j.st.more_codecs) cs.push_back(&c);
  for (size_t i = 0; i < cs.size(); ++i) { auto* c = u.add_codec_config_metadata(); ToCodec(*cs[i], *c); if (j.ext_codec[i]) ToHeader(j.ext_codec[i], c->mutable_obu_header()); }
  for (size_t i = 0; i < j.st.elems.size(); ++i) { auto* e = u.add_audio_element_metadata(); ToElement(j.st.elems[i].e, *e);
    if (auto q = j.preset.find(j.st.elems[i].e.id); q != j.preset.end()) e->mutable_ambisonics_config()->mutable_ambisonics_preset_config()->set_ambisonics_preset(static_cast<pb::AmbisonicsPreset>(q->second + 1));
    if (j.ext_elem[i]) ToHeader(j.ext_elem[i], e->mutable_obu_header()); }
  for (size_t i = 0; i < j.st.mixes.size(); ++i) { auto* m = u.add_mix_presentation_metadata(); ToMix(j.st.mixes[i], *m);
    if (j.build_tag) { m->mutable_mix_presentation_tags()->mutable_tags()->RemoveLast(); if (m->mix_presentation_tags().tags().empty() && i % 2 == 0) { m->clear_include_mix_presentation_tags(); m->clear_mix_presentation_tags(); } }
    if (j.ext_mix[i]) ToHeader(j.ext_mix[i], m->mutable_obu_header()); if (j.st.mixes[i].opt) m->mutable_obu_header()->set_obu_trimming_status_flag(true); }
  for (size_t i = 0; i < j.st.elems.size(); ++i) {
    auto* f = u.add_audio_frame_metadata();
    f->set_audio_element_id(j.st.elems[i].e.id);
    f->set_samples_to_trim_at_end(j.te); f->set_samples_to_trim_at_start(j.ts);
    f->set_samples_to_trim_at_end_includes_padding(j.te_incl); f->set_samples_to_trim_at_start_includes_codec_delay(j.ts_incl);
    int id = 0;
    for (auto& [l, v] : j.in[i]) { auto* c = f->add_channel_metadatas(); c->set_channel_id(id++); c->set_channel_label(ProtoLabel(l)); }
  }
  auto* t = u.mutable_test_vector_metadata();
  t->set_partition_mix_gain_parameter_blocks(false);
  t->set_override_computed_recon_gains(true);
  if (j.leb_mode) { t->mutable_leb_generator()->set_mode(pb::GENERATE_LEB_FIXED_SIZE); t->mutable_leb_generator()->set_fixed_size(j.leb_mode); }
  u.mutable_encoder_control_metadata()->set_add_build_information_tag(j.build_tag);
  u.mutable_temporal_delimiter_metadata()->set_enable_temporal_delimiters(j.delimiters);
  return u;
}

// ---- running the encoder ----
struct Encoded { absl::Status status; std::string where; Bytes first_descriptors, descriptors; bool final_before = false, final_after = false; std::vector<Bytes> tus; uint32_t delay = 0; int iterations = 0; std::vector<int64_t> timestamps; };
using Enc = iamf_tools::IamfEncoder;
inline absl::StatusOr<std::unique_ptr<Enc>> MakeEncoder(const pb::UserMetadata& u, const iamf_tools::IamfEncoder::ObuSequencerFactory& f = Enc::CreateNoObuSequencers) {
  return Enc::Create(u, nullptr, nullptr, iamf_tools::RenderingMixPresentationFinalizer::ProduceNoSampleProcessors, f);
}
// Feeds the audio frame by frame with the parameter blocks of each frame.
// after: called after every OutputTemporalUnit.
inline Encoded Run(Enc& e, const Job& j, uint32_t frames) {
  Encoded r;
  auto fail = [&](const absl::Status& s, const char* w) { r.status = s; r.where = w; return r; };
  r.delay = e.GetEncoderDelay();
  auto s = e.GetDescriptorObus(false, r.first_descriptors, r.final_before);
  if (!s.ok()) return fail(s, "GetDescriptorObus");
  const uint32_t N = j.N();
  const uint32_t chunks = (j.S + N - 1) / N;
  if (chunks == 0) { s = e.FinalizeEncode(); if (!s.ok()) return fail(s, "FinalizeEncode"); }
  for (uint32_t k = 0; e.GeneratingTemporalUnits(); ++k, ++r.iterations) {
    if (k > frames + chunks + 8) return fail(absl::InternalError("encoder keeps generating units"), "loop");
    int64_t in_ts = -1;
    if (e.GetInputTimestamp(in_ts).ok()) r.timestamps.push_back(in_ts);
    iamf_tools::api::IamfTemporalUnitData d;
    if (k < frames && k < j.blocks.size()) for (size_t q = 0; q < j.blocks[k].size(); ++q) {
      pb::ParameterBlockObuMetadata m;
      ToBlock(j.blocks[k][q], int64_t{k} * N, m);
      if (!j.ext_block.empty() && j.ext_block[(k + q) % j.ext_block.size()]) ToHeader(j.ext_block[(k + q) % j.ext_block.size()], m.mutable_obu_header());
      d.parameter_block_id_to_metadata[m.parameter_id()] = m.SerializeAsString();
    }
    if (k < chunks) for (size_t i = 0; i < j.st.elems.size(); ++i) for (auto& [l, v] : j.in[i]) {
      pb::ChannelLabelMessage m; m.set_channel_label(ProtoLabel(l));
      d.audio_element_id_to_data[j.st.elems[i].e.id][m.SerializeAsString()] = absl::MakeConstSpan(v).subspan(size_t{k} * N, std::min<size_t>(N, j.S - size_t{k} * N));
    }
    s = e.Encode(d);
    if (!s.ok()) return fail(s, "Encode");
    if (k + 1 == chunks) { s = e.FinalizeEncode(); if (!s.ok()) return fail(s, "FinalizeEncode"); }
    Bytes tu{0xee};  // left over from before: must be replaced or left
    tu.clear();
    s = e.OutputTemporalUnit(tu);
    if (!s.ok()) return fail(s, "OutputTemporalUnit");
    if (!tu.empty()) r.tus.push_back(tu);
  }
  s = e.GetDescriptorObus(false, r.descriptors, r.final_after);
  if (!s.ok()) return fail(s, "GetDescriptorObus");
  return r;
}

// ---- expectations ----
// Everything a scalable element's lower layers are made of, from the top layer's channels.
inline void Downmix(ref::Labels& x, const ref::DemixParams& p) {
  auto has = [&](const char* n) { return x.count(n) > 0; };
  auto comb = [&](const char* out, std::initializer_list<std::pair<const char*, double>> t) {
    if (has(out)) return;
    for (auto& [n, g] : t) if (!has(n)) return;
    std::vector<double> r(x.begin()->second.size(), 0.0);
    for (auto& [n, g] : t) for (size_t i = 0; i < r.size(); ++i) r[i] += g * x[n][i];
    x[out] = r;
  };
  comb("L5", {{"L7", 1}}); comb("R5", {{"R7", 1}});
  comb("Ls5", {{"Lss7", p.a}, {"Lrs7", p.b}}); comb("Rs5", {{"Rss7", p.a}, {"Rrs7", p.b}});
  comb("Ltf2", {{"Ltf4", 1}, {"Ltb4", p.g}}); comb("Rtf2", {{"Rtf4", 1}, {"Rtb4", p.g}});
  comb("L3", {{"L5", 1}, {"Ls5", p.d}}); comb("R3", {{"R5", 1}, {"Rs5", p.d}});
  comb("Ltf3", {{"Ltf2", 1}, {"Ls5", p.w * p.d}}); comb("Rtf3", {{"Rtf2", 1}, {"Rs5", p.w * p.d}});
  comb("L2", {{"L3", 1}, {"C", 0.707}}); comb("R2", {{"R3", 1}, {"C", 0.707}});
  comb("Mono", {{"L2", 0.5}, {"R2", 0.5}});
}
using ref::GainBit;
// An input channel's name as a label the encoder understands, per substream channel.
inline std::vector<ref::Names> InputNames(const ref::Elem& el) {
  std::vector<ref::Names> r;
  for (size_t i = 0; i < el.subs.size(); ++i) {
    if (!el.Ambisonics()) { r.push_back(el.subs[i]); continue; }
    ref::Names v;
    if (el.e.amb_mode == 0) { for (size_t c = 0; c < el.e.mapping.size(); ++c) if (el.e.mapping[c] == i) v.push_back("A" + std::to_string(c)); }
    else if (i < el.e.M) { v.push_back("A" + std::to_string(2 * i)); v.push_back("A" + std::to_string(2 * i + 1)); }
    else v.push_back("A" + std::to_string(el.e.M + i));
    r.push_back(v);
  }
  return r;
}
inline const Codec& CodecOf(const Job& j, const ref::Elem& el) { if (el.e.codec == j.st.codec.id) return j.st.codec; for (auto& c : j.st.more_codecs) if (c.id == el.e.codec) return c; vlib::HarnessBug("codec"); }

struct WantFrame { uint32_t id; Bytes exact; std::vector<std::vector<double>> pcm; int bits; bool exact_ok; uint32_t fourcc; };
struct Want {
  bool ok = true; std::string why;                  // whether encoding must succeed
  uint32_t frames = 0, delay = 0;
  std::vector<std::pair<uint32_t, uint32_t>> trims;  // per frame: start, end
  std::vector<std::vector<WantFrame>> f;             // per frame, per substream
};
// Demixing parameters in force at input frame k of an element.
inline ref::DemixParams ParamsAt(const Job& j, const ref::Elem& el, uint32_t k) {
  const ref::Pd* d = nullptr;
  for (auto& p : el.e.params) if (p.type == 1) d = &p;
  if (!d) return ref::DemixParams();
  int w = 0; bool any = false;
  for (uint32_t q = 0; q <= k; ++q) {
    const ref::PBlock* b = nullptr;
    if (q < j.blocks.size()) for (auto& x : j.blocks[q]) if (x.def.id == d->id) b = &x;
    if (!b) { if (q == k) return ref::DemixByMode(d->dmode, d->dw); continue; }
    int m = b->data[0].dmode;
    w = any ? std::clamp(w + (m >= 4 ? 1 : -1), 0, 10) : 0;
    any = true;
    if (q == k) return ref::DemixByMode(m, w);
  }
  vlib::HarnessBug("params");
}
inline Want Expect(const Job& j) {
  Want w;
  const uint32_t N = j.N();
  for (auto& el : j.st.elems) w.delay = std::max(w.delay, CodecDelay(CodecOf(j, el)));
  const uint64_t D = w.delay, total = D + j.S;
  const uint64_t F = (total + N - 1) / N, pad = F * N - total;
  auto bad = [&](const char* s) { if (w.ok) { w.ok = false; w.why = s; } };
  if (j.ts_incl && j.ts < D) bad("start trim is less than the codec delay");
  uint64_t start = j.ts_incl ? j.ts : j.ts + D, end = j.te_incl ? j.te : j.te + pad;
  if (j.S && j.te_incl && j.te < pad) bad("end trim is less than the padding");
  if (j.S && end > N) bad("end trim is over a frame");
  w.frames = static_cast<uint32_t>(F);
  uint64_t left = start;
  for (uint64_t k = 0; k < F; ++k) {
    uint64_t s = std::min<uint64_t>(left, N), e = k + 1 == F ? end : 0;
    left -= s;
    if (s + e > N) bad("trims of a frame are over a frame");
    w.trims.push_back({static_cast<uint32_t>(s), static_cast<uint32_t>(e)});
  }
  if (!w.ok) return w;
  w.f.resize(F);
  for (size_t i = 0; i < j.st.elems.size(); ++i) {
    auto& el = j.st.elems[i];
    auto& c = CodecOf(j, el);
    auto names = InputNames(el);
    // Signal per substream channel.
    ref::Labels sig;
    for (auto& s : names) for (auto& l : s) sig[l].assign(D, 0.0);
    for (uint32_t k = 0; uint64_t{k} * N < j.S; ++k) {
      ref::Labels x;
      for (auto& [l, v] : j.in[i]) x[l].assign(v.begin() + size_t{k} * N, v.begin() + std::min<size_t>(size_t{k + 1} * N, j.S));
      if (el.scalable) Downmix(x, ParamsAt(j, el, k));
      if (auto q = j.preset.find(el.e.id); q != j.preset.end() && q->second == 3 && c.fourcc == ref::kOpus) {
        ref::Labels y;
        for (int o = 0; o < 16; ++o) {
          auto& v = y["A" + std::to_string(o)]; v.assign(x["A0"].size(), 0.0);
          for (int h = 0; h < 16; ++h) for (size_t t = 0; t < v.size(); ++t) v[t] += ref::kToaMix[h * 16 + o] / 32768.0 * x["A" + std::to_string(h)][t];
        }
        x = y;
      }
      for (auto& s : names) for (auto& l : s) { if (!x.count(l)) vlib::HarnessBug("no source for " + l); sig[l].insert(sig[l].end(), x[l].begin(), x[l].end()); }
    }
    for (auto& [l, v] : sig) v.resize(F * N, 0.0);
    // Output gains of the layer each substream belongs to.
    std::vector<const ref::Layer*> layer(names.size(), nullptr);
    if (el.e.type == 0) { size_t at = 0; for (auto& l : el.e.layers) for (int q = 0; q < l.sub; ++q) layer[at++] = &l; }
    for (size_t s = 0; s < names.size(); ++s) for (uint64_t k = 0; k < F; ++k) {
      WantFrame f;
      f.id = el.e.subs[s]; f.bits = BitDepth(c); f.fourcc = c.fourcc; f.exact_ok = true;
      for (auto& l : names[s]) {
        double g = 1;
        if (layer[s] && layer[s]->og && (layer[s]->og_flags & GainBit(l))) { g = std::pow(10.0, layer[s]->gain / 256.0 / 20); if (layer[s]->gain != 0) f.exact_ok = false; }
        if (el.scalable && !j.in[i].count(l)) f.exact_ok = false;
        if (j.preset.count(el.e.id) && el.e.amb_mode == 1) f.exact_ok = false;
        std::vector<double> v(sig[l].begin() + k * N, sig[l].begin() + (k + 1) * N);
        for (auto& y : v) y = y / g;
        f.pcm.push_back(v);
      }
      w.f[k].push_back(f);
    }
  }
  return w;
}
// The samples an audio frame's payload codes: [channel][tick], by the stand-in codecs.
inline bool ParsePayload(const Codec& c, int channels, uint32_t N, const Bytes& b, std::vector<std::vector<int64_t>>& pcm) {
  pcm.assign(channels, {});
  size_t at = 0; int bytes = 4; bool le = true;
  switch (c.fourcc) {
    case ref::kLpcm: bytes = c.lpcm.size / 8; le = c.lpcm.flags & 1; break;
    case ref::kOpus: case ref::kAac: if (b.size() < 4 || b[0] != (c.fourcc == ref::kOpus ? 'O' : 'A') || b[1] != channels || (b[2] | b[3] << 8) != static_cast<int>(N)) return false; at = 4; bytes = 2; break;
    case ref::kFlac: if (b.size() < 8 || b[0] != 'F' || b[1] != 'L' || b[2] != channels || b[3] != c.flac.info.bits + 1 || (b[4] | b[5] << 8 | b[6] << 16 | b[7] << 24) != static_cast<int>(N)) return false; at = 8; break;
  }
  if (b.size() != at + size_t{N} * channels * bytes) return false;
  for (uint32_t i = 0; i < N; ++i) for (int ch = 0; ch < channels; ++ch) {
    uint64_t v = 0;
    for (int k = 0; k < bytes; ++k) v |= uint64_t{b[at + k]} << (le ? 8 * k : 8 * (bytes - 1 - k));
    at += bytes;
    int sh = 64 - 8 * bytes;
    pcm[ch].push_back(static_cast<int64_t>(v << sh) >> sh);
  }
  return true;
}

// An OBU cut out of a byte string.
struct Cut { int type; bool redundant, flag, ext; uint32_t te = 0, ts = 0; Bytes ext_bytes, payload, whole; };
inline bool Split(const Bytes& b, std::vector<Cut>& out) {
  size_t at = 0;
  while (at < b.size()) {
    ref::BitsIn in{b}; in.pos = at * 8;
    Cut c;
    c.type = static_cast<int>(in.Get(5)); c.redundant = in.Get(1); c.flag = in.Get(1); c.ext = in.Get(1);
    uint32_t size = static_cast<uint32_t>(in.GetLeb());
    size_t body = in.pos / 8;
    if (in.bad || size > b.size() - body) return false;
    if (c.flag && c.type >= 5 && c.type <= 23) { c.te = static_cast<uint32_t>(in.GetLeb()); c.ts = static_cast<uint32_t>(in.GetLeb()); }
    if (c.ext) { uint32_t n = static_cast<uint32_t>(in.GetLeb()); c.ext_bytes = in.GetBytes(n); }
    if (in.bad || in.pos / 8 > body + size) return false;
    c.payload.assign(b.begin() + in.pos / 8, b.begin() + body + size);
    c.whole.assign(b.begin() + at, b.begin() + body + size);
    at = body + size;
    out.push_back(c);
  }
  return true;
}

// The descriptor OBUs the job must produce: header, codec configs (any order), elements by id, mixes in order.
struct WantDescriptors { Bytes ia; std::vector<Bytes> codecs, elems, mixes; };
inline WantDescriptors ExpectDescriptors(const Job& j, Rng& r) {
  ref::Lp lp{j.leb_mode, &r};
  auto obu = [&](int type, const Bytes& p, const std::optional<Bytes>& ext, bool flag = false) { ref::Hdr h; h.type = type; h.flag = flag; if (ext) { h.ext = true; h.ext_bytes = *ext; } return ref::EncodeObu(h, p, lp); };
  WantDescriptors w;
  ref::Bits ia; ia.Put(0x69616d66, 32); ia.Put(j.st.primary, 8); ia.Put(j.st.additional, 8);
  w.ia = obu(31, ia.Bytes(), j.ext_ia);
  std::vector<Codec> cs{j.st.codec};
  for (auto& c : j.st.more_codecs) cs.push_back(c);
  for (size_t i = 0; i < cs.size(); ++i) {
    Codec c = cs[i];
    if (c.fourcc == ref::kOpus) { c.opus.preskip = CodecDelay(c); c.roll = ref::OpusRoll(c.nsamples); }
    else c.roll = c.fourcc == ref::kAac ? -1 : 0;
    w.codecs.push_back(obu(0, ref::EncodeCodec(c, lp), j.ext_codec[i]));
  }
  std::map<uint32_t, Bytes> el;
  for (size_t i = 0; i < j.st.elems.size(); ++i) el[j.st.elems[i].e.id] = obu(1, ref::EncodeElement(j.st.elems[i].e, lp), j.ext_elem[i]);
  for (auto& [id, b] : el) w.elems.push_back(b);
  for (size_t i = 0; i < j.st.mixes.size(); ++i) w.mixes.push_back(obu(2, ref::EncodeMix(j.st.mixes[i], lp), j.ext_mix[i], j.st.mixes[i].opt));
  return w;
}

// ---- generation ----
struct JobOpt { bool lossy = true, multi_codec = false, bad_trims = true, rich = true, scalable_only = false, lossy_scalable = false, objects = false, presets = false, projected = false, ext_params = false; int max_chunks = 6, max_frame = 40; };
inline Codec GenJobCodec(Rng& r, const JobOpt& o, uint32_t rate, uint32_t n) {
  Codec c;
  int k = static_cast<int>(r.Below(o.lossy ? 10 : 7));
  if (o.projected) k = 7;
  if (o.lossy_scalable) k = r.Chance(2, 3) ? 7 : 9;
  c = ref::GenCodec(r, k < 5 ? ref::kLpcm : k < 7 ? ref::kFlac : k < 9 ? ref::kOpus : ref::kAac);
  if (n) c.nsamples = n;
  c.lpcm.rate = rate ? rate : c.lpcm.rate;
  c.flac.rest.erase(std::remove_if(c.flac.rest.begin(), c.flac.rest.end(), [](const ref::FlacBlock& b) { return b.type > 6; }), c.flac.rest.end());
  c.flac.info.rate = c.lpcm.rate;
  c.aac.dsi_ext.clear(); c.aac.dcd_ext.clear();
  c.opus.rate = 48000; c.opus.version = 1; c.opus.channels = 2; c.opus.gain = 0; c.opus.family = 0;
  c.roll = 0;
  return c;
}
inline Job GenJob(Rng& r, const JobOpt& o = {}) {
  Job j;
  ref::GenOpt go;
  go.max_tus = 0; go.redundant = false;
  Codec c = GenJobCodec(r, o, 0, 0);
  switch (c.fourcc) {
    case ref::kLpcm: c.nsamples = static_cast<uint32_t>(r.Chance(1, 10) ? r.Range(1, 3) : r.Range(1, o.max_frame)); break;
    case ref::kFlac: c.nsamples = static_cast<uint32_t>(r.Range(16, std::max(17, o.max_frame))); break;
    case ref::kOpus: c.nsamples = r.Pick<uint32_t>({120, 240, 480}); c.lpcm.rate = 48000; break;
    case ref::kAac: c.nsamples = 1024; c.aac.freq = static_cast<uint8_t>(r.Pick<int>({3, 4, 5, 8})); c.lpcm.rate = ref::AacRates()[c.aac.freq]; break;
  }
  c.flac.info.rate = c.lpcm.rate; c.flac.info.min = c.flac.info.max = static_cast<uint16_t>(c.nsamples);
  if (c.fourcc == ref::kFlac && !r.Chance(1, 3)) { c.lpcm.size = static_cast<uint8_t>(c.flac.info.bits + 1); }
  go.codec = c; go.lossy = !Lossless(c) && !o.lossy_scalable;
  go.scalable_only = o.scalable_only || o.lossy_scalable;
  j.st = ref::GenStream(r, go);
  j.st.codec.lpcm.size = static_cast<uint8_t>(c.fourcc == ref::kLpcm ? c.lpcm.size : BitDepth(c));
  if (o.multi_codec && j.st.elems.size() > 1 && r.Chance(1, 2)) {
    // A second codec, of the same rate and frame size; no mix uses both.
    Codec k = ref::GenCodec(r, j.st.codec.fourcc == ref::kLpcm && c.nsamples >= 16 && r.Bool() ? ref::kFlac : ref::kLpcm);
    k.flac.rest.erase(std::remove_if(k.flac.rest.begin(), k.flac.rest.end(), [](const ref::FlacBlock& b) { return b.type > 6; }), k.flac.rest.end());
    k.nsamples = c.nsamples; k.roll = 0; k.lpcm.rate = c.lpcm.rate; k.flac.info.rate = c.lpcm.rate; k.flac.info.min = k.flac.info.max = static_cast<uint16_t>(c.nsamples);
    while (k.id == j.st.codec.id) k.id = static_cast<uint32_t>(r.Below(300));
    j.st.more_codecs = {k};
    for (size_t q = 1; q < j.st.elems.size(); ++q) if (q == 1 || r.Bool()) j.st.elems[q].e.codec = k.id;
    auto codec_of = [&](uint32_t id) { for (auto& el : j.st.elems) if (el.e.id == id) return el.e.codec; return ~0u; };
    for (auto& m : j.st.mixes) for (auto& s : m.sm) { uint32_t keep = codec_of(s.el[0].id); s.el.erase(std::remove_if(s.el.begin(), s.el.end(), [&](auto& e) { return codec_of(e.id) != keep; }), s.el.end()); }
    if (r.Chance(1, 2)) std::swap(j.st.codec, j.st.more_codecs[0]);
    j.st.primary = static_cast<uint8_t>(r.Range(3, 5)); j.st.additional = 5;
  }
  if (o.projected) {
    auto& el = j.st.elems[0];
    el.e.type = 1; el.e.layers.clear(); el.e.params.clear(); el.scalable = false; el.e.C = 16; el.e.M = 0; el.e.amb_mode = 0; el.subs.assign(16, {"s0.0"});
    for (auto& m : j.st.mixes) for (auto& s : m.sm) { s.el.resize(1); s.el[0].id = el.e.id; }
    j.st.primary = static_cast<uint8_t>(r.Below(3)); j.st.additional = 5;
  }
  if (o.presets || o.projected) for (auto& el : j.st.elems) if (el.Ambisonics() && (o.projected || r.Chance(1, 2))) {
    int order = o.projected || r.Bool() ? 3 : static_cast<int>(r.Below(4));
    while (order > 0 && (order + 1) * (order + 1) > el.Channels()) --order;
    const int C = (order + 1) * (order + 1);
    el.e.C = static_cast<uint8_t>(C); el.e.mapping.clear(); el.e.matrix.clear(); el.subs.clear();
    if (CodecOf(j, el).fourcc == ref::kOpus && order == 3) {
      el.e.amb_mode = 1; el.e.N = el.e.M = 8; el.e.matrix.assign(ref::kToaDemix, ref::kToaDemix + 256);
      for (int q = 0; q < 8; ++q) el.subs.push_back({"s" + std::to_string(q) + ".0", "s" + std::to_string(q) + ".1"});
    } else {
      el.e.amb_mode = 0; el.e.N = static_cast<uint8_t>(C); el.e.M = 0;
      for (int q = 0; q < C; ++q) { el.e.mapping.push_back(static_cast<uint8_t>(q)); el.subs.push_back({"s" + std::to_string(q) + ".0"}); }
    }
    std::set<uint32_t> taken;
    for (auto& x : j.st.elems) if (&x != &el) taken.insert(x.e.subs.begin(), x.e.subs.end());
    std::vector<uint32_t> ids;
    for (auto s : el.e.subs) if (ids.size() < el.subs.size()) { ids.push_back(s); taken.insert(s); }
    while (ids.size() < el.subs.size()) { uint32_t s = static_cast<uint32_t>(r.Below(300)); if (taken.insert(s).second) ids.push_back(s); }
    el.e.subs = ids;
    j.preset[el.e.id] = order;
  }
  if (o.objects) for (auto& el : j.st.elems) if (!el.scalable && !j.preset.count(el.e.id) && r.Chance(1, 2)) {
    el.e.type = 2; el.e.layers.clear(); el.e.params.clear(); el.e.mapping.clear(); el.e.matrix.clear();
    el.e.num_objects = el.Channels() > 1 && r.Bool() ? 2 : 1;
    el.e.obj_ext = r.Bytes(r.Below(20)); el.e.subs.resize(1);
    el.subs = {{"OC0"}};
    if (el.e.num_objects == 2) el.subs[0].push_back("OC1");
    j.st.primary = static_cast<uint8_t>(r.Range(3, 5)); j.st.additional = 5;
  }
  j.leb_mode = r.Chance(2, 3) ? 0 : static_cast<int>(r.Range(5, 8));
  j.delimiters = r.Bool();
  auto ext = [&] { return o.rich && r.Chance(1, 8) ? std::optional<Bytes>(r.Bytes(r.Below(8))) : std::nullopt; };
  j.ext_ia = ext(); j.ext_codec.push_back(ext()); if (!j.st.more_codecs.empty()) j.ext_codec.push_back(ext());
  std::set<uint32_t> pids;
  for (auto& el : j.st.elems) {
    // Down-mixing needs a definition to say how.
    for (auto& p : el.e.params) pids.insert(p.id);
  }
  for (auto& m : j.st.mixes) for (auto& s : m.sm) { for (auto& e : s.el) pids.insert(e.gain.id); pids.insert(s.out.id); }
  for (auto& el : j.st.elems) {
    bool has = false;
    for (auto& p : el.e.params) has |= p.type == 1;
    if (el.scalable && !has) {
      ref::Pd p; p.type = 1; do p.id = static_cast<uint32_t>(r.Below(300)); while (!pids.insert(p.id).second);
      p.rate = j.st.codec.lpcm.rate; p.s.dur = p.s.csd = c.nsamples; p.dmode = r.Pick<uint8_t>({0, 1, 2, 4, 5, 6}); p.dw = static_cast<uint8_t>(r.Below(11));
      el.e.params.push_back(p);
    }
    if (o.lossy_scalable && el.scalable) {
      ref::Pd p; p.type = 2; do p.id = static_cast<uint32_t>(r.Below(300)); while (!pids.insert(p.id).second);
      p.rate = j.st.codec.lpcm.rate; p.s.dur = p.s.csd = c.nsamples;
      el.e.params.push_back(p);
      for (size_t q = 1; q < el.e.layers.size(); ++q) el.e.layers[q].rg = true;
    }
    for (auto& p : el.e.params) { p.dres = r.U8() & 31; p.dres2 = r.U8() & 15; p.res = r.U8() & 127; }
    // Elements may share a definition.
    for (auto& p : el.e.params) for (auto& before : j.st.elems) {
      if (&before == &el) break;
      for (auto& q : before.e.params) if (p.type == 1 && q.type == 1 && q.rate == p.rate && q.s.dur == p.s.dur && r.Chance(1, 2)) p = q;
    }
    if (o.ext_params && el.e.type != 2 && r.Chance(1, 4)) { ref::Pd p; p.type = 0xffffffffu; p.ext = r.Bytes(r.Below(20)); el.e.params.insert(el.e.params.begin() + r.Below(el.e.params.size() + 1), p); }
    if (el.e.type == 0) for (auto& l : el.e.layers) {
      if (l.layout != 15 && o.rich && r.Chance(1, 4)) { l.og = true; l.og_flags = r.U8() & 63; l.gain = static_cast<int16_t>(r.Chance(1, 4) ? 0 : r.Range(-12 * 256, 12 * 256)); l.res_b = r.U8() & 3; }
      l.res_a = r.U8() & 3;
    }
    if (el.Ambisonics() && el.e.amb_mode == 0) {
      // One channel per substream.
      std::vector<int> used(el.e.N, 0);
      for (auto& m : el.e.mapping) if (m != 255) { if (used[m]++) m = 255; }
    }
    el.e.res = r.U8() & 31;
    j.ext_elem.push_back(ext());
  }
  if (o.rich) for (auto& m : j.st.mixes) {
    if (r.Chance(1, 2)) {
      ref::Mix g = ref::GenMix(r);
      m.lang = g.lang; m.note = g.note; m.tags = g.tags; m.opt = g.opt; m.opt_rest = g.opt_rest;
      m.lr = r.Bool() ? 0 : 255; m.br = r.Bool() ? 0 : 255;
      for (auto& s : m.sm) for (auto& e : s.el) for (size_t q = 0; q < m.lang.size(); ++q) e.notes.push_back(ref::GenStr(r));
    }
    for (auto& s : m.sm) {
      for (auto& e : s.el) {
        e.rc.profile = static_cast<uint8_t>(r.Below(4)); e.rc.res = static_cast<uint8_t>(r.Below(8));
        if (r.Chance(1, 5)) { auto g = ref::GenRendering(r); if (g.go && g.go->type < 2) { g.go->ext.clear(); e.rc.go = g.go; } }
        if (r.Chance(1, 6)) e.rc.ext = r.Bytes(r.Range(1, 12));
        if (r.Chance(1, 6)) for (int q = static_cast<int>(r.Range(1, 3)); q > 0; --q) { auto p = ref::GenPd(r, static_cast<uint32_t>(r.Range(3, 8))); do p.id = static_cast<uint32_t>(r.Below(300)); while (!pids.insert(p.id).second); p.rate = j.st.codec.lpcm.rate; e.rc.params.push_back(p); }
        e.gain.res = r.U8() & 127;
      }
      s.out.res = r.U8() & 127;
      for (auto& l : s.layouts) {
        auto g = ref::GenLayout(r);
        l.info = g.info; l.tp = g.tp; l.ext = g.ext; l.anchors.clear();
        l.res = l.type == 2 ? r.Below(4) : r.Below(64);
        std::set<int> used; int n = static_cast<int>(r.Below(3)); for (int q = 0; q < n; ++q) { ref::Anchor a; a.what = static_cast<uint8_t>(r.Below(3)); a.v = ref::GenS16(r); if (used.insert(a.what).second) l.anchors.push_back(a); }
      }
    }
  }
  if (o.rich && r.Chance(1, 4)) {
    j.build_tag = true;
    for (auto& m : j.st.mixes) { if (!m.tags) m.tags.emplace(); m.tags->push_back({"iamf_encoder", "GitHub/iamf-tools"}); }
  }
  for (size_t i = 0; i < j.st.mixes.size(); ++i) j.ext_mix.push_back(ext());
  // Audio.
  const uint32_t N = c.nsamples;
  uint32_t D = 0; for (auto& el : j.st.elems) D = std::max(D, CodecDelay(CodecOf(j, el)));
  uint32_t chunks = static_cast<uint32_t>(r.Chance(1, 10) ? r.Range(1, 2) : r.Range(1, N > 200 ? 3 : o.max_chunks));
  j.S = chunks * N;
  if (r.Bool()) j.S -= static_cast<uint32_t>(r.Below(N));
  for (auto& el : j.st.elems) {
    ref::Labels x;
    ref::Names names;
    if (el.scalable) { auto& t = el.e.layers.back(); names = ref::LayoutOrder(t.layout); }
    else for (auto& s : InputNames(el)) for (auto& l : s) names.push_back(l);
    for (auto& l : names) {
      if (l.empty()) continue;
      auto& v = x[l];
      int kind = static_cast<int>(r.Below(6));
      for (uint32_t i = 0; i < j.S; ++i) {
        double y;
        int k = r.Chance(1, 12) ? static_cast<int>(r.Below(6)) : kind;
        switch (k) {
          case 0: y = std::ldexp(static_cast<double>(ref::GenSample(r, 0, BitDepth(c))), 1 - BitDepth(c)); break;
          case 1: y = std::ldexp(static_cast<double>(ref::GenSample(r, 0, 32)), -31); break;
          case 2: y = 0; break;
          case 3: y = std::ldexp(static_cast<double>(r.Range(-5, 5)), 1 - BitDepth(c)); break;
          case 4: y = r.Chance(1, 4) ? (r.Bool() ? 1.0 : -1.0) * (1 + 3 * r.Unit()) : r.Bool() ? -1.0 : std::ldexp(2147483647.0, -31); break;
          default: y = 0.1 * std::ldexp(static_cast<double>(ref::GenSample(r, 0, BitDepth(c))), 1 - BitDepth(c)); y = std::ldexp(std::round(std::ldexp(y, 31)), -31);
        }
        v.push_back(y);
      }
    }
    j.in.push_back(x);
  }
  // Trims.
  uint32_t total = D + j.S, F = (total + N - 1) / N, pad = F * N - total;
  j.ts_incl = r.Bool(); j.te_incl = r.Bool();
  uint32_t us = r.Chance(1, 2) ? 0 : static_cast<uint32_t>(r.Chance(1, 4) ? r.Range(0, 2 * N) : r.Range(0, N));
  if (us + D > F * N) us = 0;
  j.ts = j.ts_incl ? us + D : us;
  uint32_t room = N - pad;
  uint32_t lastroom = F * N - pad > D + us ? F * N - pad - D - us : 0;
  uint32_t ue = r.Chance(1, 2) ? 0 : static_cast<uint32_t>(r.Range(0, std::min(room, lastroom)));
  j.te = j.te_incl ? ue + pad : ue;
  if (o.bad_trims && r.Chance(1, 12)) {
    switch (r.Below(4)) {
      case 0: if (D) { j.ts_incl = true; j.ts = static_cast<uint32_t>(r.Below(D)); } break;
      case 1: if (pad) { j.te_incl = true; j.te = static_cast<uint32_t>(r.Below(pad)); } break;
      case 2: j.te = N + 1 + static_cast<uint32_t>(r.Below(10)); break;
      case 3: j.ts = F * N - static_cast<uint32_t>(r.Below(N)); j.te = N - static_cast<uint32_t>(r.Below(3)); break;
    }
  }
  // Parameter blocks: a parameter either has a block in every frame or, sometimes, only in the leading ones.
  j.blocks.resize(F);
  std::vector<std::pair<ref::Pd, uint32_t>> active;
  auto maybe = [&](const ref::Pd& d) { for (auto& a : active) if (a.first.id == d.id) return; if (r.Chance(1, 2)) active.push_back({d, F}); };
  for (auto& m : j.st.mixes) for (auto& s : m.sm) { for (auto& e : s.el) maybe(e.gain); maybe(s.out); }
  for (auto& el : j.st.elems) for (auto& p : el.e.params) if (p.type == 1) maybe(p);
  for (auto& [d, until] : active) for (uint32_t k = 0; k < until; ++k) {
    ref::PBlock b; b.def = d; b.s = d.mode1 ? ref::GenCover(r, N) : d.s;
    for (uint32_t q = 0; q < b.s.Count(); ++q) {
      auto x = ref::GenMixData(r);
      x.dmode = D ? r.Pick<uint8_t>({0, 1, 2}) : r.Pick<uint8_t>({0, 1, 2, 4, 5, 6});
      if (D) x.dmode = static_cast<uint8_t>(d.id % 3);
      x.dres = r.U8() & 31;
      b.data.push_back(x);
    }
    j.blocks[k].push_back(b);
  }
  for (auto& el : j.st.elems) for (auto& p : el.e.params) if (p.type == 2) for (uint32_t k = 0; k < F; ++k) {
    ref::PBlock b; b.def = p; b.s = p.s;
    ref::PData x;
    for (auto& l : el.e.layers) { b.recon_flags.push_back(l.rg); if (!l.rg) { x.recon.push_back(std::nullopt); continue; } ref::Recon g; g.flags = static_cast<uint32_t>(r.Below(4096)); for (int i = 0; i < 12; ++i) if (g.flags >> i & 1) g.g[i] = r.U8(); x.recon.push_back(g); }
    b.data.push_back(x);
    j.blocks[k].push_back(b);
  }
  if (o.rich) for (int k = 0; k < 3; ++k) j.ext_block.push_back(ext());
  return j;
}
}  // namespace enc
#endif
