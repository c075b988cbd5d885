// C33: which decoder configurations are legal, and what the library derives from them.
#include <memory>
#include <optional>
#include "iamf/common/leb_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/decoder_config/aac_decoder_config.h"
#include "iamf/obu/decoder_config/flac_decoder_config.h"
#include "iamf/obu/decoder_config/lpcm_decoder_config.h"
#include "iamf/obu/decoder_config/opus_decoder_config.h"
#include "iamf/obu/obu_header.h"
#include "harness/ref/obus.h"
#include "harness/vlib.h"
using namespace iamf_tools;
using namespace vlib;
using ref::Lp;
using Bytes = std::vector<uint8_t>;
namespace {

int16_t WantRoll(const ref::Codec& m) {
  if (m.fourcc == ref::kOpus) return ref::OpusRoll(m.nsamples);
  return m.fourcc == ref::kAac ? -1 : 0;
}
bool In(const std::vector<uint32_t>& v, uint32_t x) { return std::find(v.begin(), v.end(), x) != v.end(); }
// The rules of the specification. Empty: legal. `encode`: also what a writer refuses to produce.
std::string Illegal(const ref::Codec& m, bool encode) {
  if (m.nsamples < 1 || m.nsamples > 96000) return "num_samples_per_frame";
  if (m.fourcc != ref::kOpus && m.fourcc != ref::kFlac && m.fourcc != ref::kLpcm && m.fourcc != ref::kAac) return "codec_id";
  if (m.roll != WantRoll(m)) return "audio_roll_distance";
  switch (m.fourcc) {
    case ref::kLpcm:
      if (m.lpcm.flags > 1) return "sample_format_flags";
      if (m.lpcm.size != 16 && m.lpcm.size != 24 && m.lpcm.size != 32) return "sample_size";
      if (!In(ref::LpcmRates(), m.lpcm.rate)) return "sample_rate";
      break;
    case ref::kOpus:
      if (m.opus.version == 0 || m.opus.version >= 16) return "version";
      if (m.opus.channels != 2) return "output_channel_count";
      if (m.opus.gain != 0) return "output_gain";
      if (m.opus.family != 0) return "mapping_family";
      break;
    case ref::kFlac: {
      auto& i = m.flac.info;
      if (m.flac.first_type != 0) return "first block";
      if (!In(ref::FlacRates(), i.rate)) return "flac sample_rate";
      if (i.bits != 15 && i.bits != 23 && i.bits != 31) return "bits_per_sample";
      if (i.min != m.nsamples) return "minimum_block_size";
      if (i.max != m.nsamples) return "maximum_block_size";
      if (i.ch != 1) return "number_of_channels";
      if (i.total > 0xfffffffffULL) return "total_samples";
      if (m.flac.rest.size() > 127) { if (!encode) return "too many blocks"; }
      if (encode) {
        if (i.minf) return "minimum_frame_size";
        if (i.maxf) return "maximum_frame_size";
        if (i.md5 != Bytes(16, 0)) return "md5";
      }
      break;
    }
    case ref::kAac: {
      auto& a = m.aac;
      if (a.tag1 != 4) return "decoder_config_descriptor_tag";
      if (a.oti != 0x40) return "object_type_indication";
      if (a.stream != 5) return "stream_type";
      if (a.up) return "upstream";
      if (!a.res) return "reserved";
      if (a.tag2 != 5) return "decoder_specific_info_tag";
      if (a.aot != 2) return "audio_object_type";
      if (a.freq > 12) return "sample_frequency_index";
      if (a.ch != 2) return "channel_configuration";
      if (a.f1 || a.f2 || a.f3) return "ga flags";
      break;
    }
  }
  return "";
}
struct Derived { uint32_t out, in; int depth; bool lossless; };
Derived Want(const ref::Codec& m) {
  switch (m.fourcc) {
    case ref::kLpcm: return {m.lpcm.rate, m.lpcm.rate, m.lpcm.size, true};
    case ref::kOpus: return {48000, m.opus.rate, 32, false};
    case ref::kFlac: return {m.flac.info.rate, m.flac.info.rate, m.flac.info.bits + 1, true};
    default: return {ref::AacRates()[m.aac.freq], ref::AacRates()[m.aac.freq], 16, false};
  }
}
CodecConfig ToConfig(const ref::Codec& m) {
  CodecConfig c{};
  c.codec_id = static_cast<CodecConfig::CodecId>(m.fourcc);
  c.num_samples_per_frame = m.nsamples;
  c.audio_roll_distance = m.roll;
  switch (m.fourcc) {
    case ref::kLpcm: { LpcmDecoderConfig d; d.sample_format_flags_bitmask_ = static_cast<LpcmDecoderConfig::LpcmFormatFlagsBitmask>(m.lpcm.flags); d.sample_size_ = m.lpcm.size; d.sample_rate_ = m.lpcm.rate; c.decoder_config = d; break; }
    case ref::kOpus: { OpusDecoderConfig d; d.version_ = m.opus.version; d.output_channel_count_ = m.opus.channels; d.pre_skip_ = m.opus.preskip; d.input_sample_rate_ = m.opus.rate; d.output_gain_ = m.opus.gain; d.mapping_family_ = m.opus.family; c.decoder_config = d; break; }
    case ref::kFlac: {
      FlacDecoderConfig d;
      auto& i = m.flac.info;
      FlacMetaBlockStreamInfo s{};
      s.minimum_block_size = i.min; s.maximum_block_size = i.max; s.minimum_frame_size = i.minf; s.maximum_frame_size = i.maxf; s.sample_rate = i.rate;
      s.number_of_channels = i.ch; s.bits_per_sample = i.bits; s.total_samples_in_stream = i.total;
      std::copy(i.md5.begin(), i.md5.end(), s.md5_signature.begin());
      if (m.flac.first_type == 0) d.metadata_blocks_.push_back({{FlacMetaBlockHeader::kFlacStreamInfo}, s});
      else d.metadata_blocks_.push_back({{static_cast<FlacMetaBlockHeader::FlacBlockType>(m.flac.first_type)}, ref::EncodeFlacInfo(i).Bytes()});
      for (auto& x : m.flac.rest) d.metadata_blocks_.push_back({{static_cast<FlacMetaBlockHeader::FlacBlockType>(x.type)}, x.data});
      c.decoder_config = d;
      break;
    }
    case ref::kAac: {
      AacDecoderConfig d;
      auto& a = m.aac;
      d.decoder_config_descriptor_tag_ = a.tag1; d.object_type_indication_ = a.oti; d.stream_type_ = a.stream; d.upstream_ = a.up; d.reserved_ = a.res;
      d.buffer_size_db_ = a.buf; d.max_bitrate_ = a.maxb; d.average_bit_rate_ = a.avgb;
      auto& s = d.decoder_specific_info_;
      s.decoder_specific_info_tag = a.tag2; s.audio_specific_config.audio_object_type_ = a.aot;
      s.audio_specific_config.sample_frequency_index_ = static_cast<AudioSpecificConfig::SampleFrequencyIndex>(a.freq);
      s.audio_specific_config.channel_configuration_ = a.ch;
      s.audio_specific_config.ga_specific_config_ = {a.f1, a.f2, a.f3};
      s.decoder_specific_info_extension = a.dsi_ext; d.decoder_config_extension_ = a.dcd_ext;
      c.decoder_config = d;
      break;
    }
    default: c.decoder_config = LpcmDecoderConfig{LpcmDecoderConfig::kLpcmLittleEndian, 16, 48000};
  }
  return c;
}
void CheckDerived(Ctx& c, const CodecConfigObu& o, const ref::Codec& m, const char* how) {
  const Derived w = Want(m);
  V_CHECK(c, o.GetOutputSampleRate() == w.out && o.GetInputSampleRate() == w.in, "sample-rates", how << " codec " << std::hex << m.fourcc << std::dec << " got " << o.GetOutputSampleRate() << "/" << o.GetInputSampleRate() << " want " << w.out << "/" << w.in);
  V_CHECK(c, static_cast<int>(o.GetBitDepthToMeasureLoudness()) == w.depth, "bit-depth", how << " codec " << std::hex << m.fourcc << std::dec << " got " << o.GetBitDepthToMeasureLoudness() << " want " << w.depth);
  V_CHECK(c, o.IsLossless() == w.lossless, "lossless", how << " codec " << std::hex << m.fourcc);
  V_CHECK(c, o.GetNumSamplesPerFrame() == m.nsamples && o.GetCodecConfigId() == m.id, "id-or-frame-size", how);
  if (m.fourcc == ref::kFlac && m.flac.info.total <= 0xfffffffffULL) {
    uint64_t t = ~0ull;
    auto st = std::get<FlacDecoderConfig>(o.GetCodecConfig().decoder_config).GetTotalSamplesInStream(t);
    V_CHECK(c, st.ok() && t == m.flac.info.total, "total-samples", st.ToString() << " " << t << " want " << m.flac.info.total);
  }
  if (m.fourcc == ref::kLpcm && m.lpcm.flags <= 1) V_CHECK(c, std::get<LpcmDecoderConfig>(o.GetCodecConfig().decoder_config).IsLittleEndian() == (m.lpcm.flags == 1), "little-endian", int(m.lpcm.flags));
}
// Change one field to another value that fits its coded width.
void Perturb(Rng& r, ref::Codec& m) {
  switch (r.Below(12)) {
    case 0: m.nsamples = r.Chance(1, 2) ? r.Pick<uint32_t>({0, 1, 96000, 96001, 0xffffffffu, 65536, 65535, 15, 16}) : r.Edge32(); return;
    case 1: m.roll = r.Chance(1, 2) ? static_cast<int16_t>(m.roll + r.Range(-2, 2)) : ref::GenS16(r); return;
    case 2: m.fourcc ^= 1u << r.Below(32); return;
  }
  auto b8 = [&](uint8_t v) { return r.Chance(1, 2) ? static_cast<uint8_t>(v + r.Range(-2, 2)) : r.U8(); };
  switch (m.fourcc) {
    case ref::kLpcm:
      switch (r.Below(3)) {
        case 0: m.lpcm.flags = b8(m.lpcm.flags); break;
        case 1: m.lpcm.size = r.Chance(1, 2) ? r.Pick<uint8_t>({0, 8, 12, 20, 48, 64}) : b8(m.lpcm.size); break;
        default: m.lpcm.rate = r.Chance(1, 2) ? r.Pick(ref::FlacRates()) : r.Chance(1, 2) ? m.lpcm.rate + static_cast<uint32_t>(r.Range(-1, 1)) : r.Edge32();
      }
      break;
    case ref::kOpus:
      switch (r.Below(6)) {
        case 0: m.opus.version = r.Chance(1, 2) ? r.Pick<uint8_t>({0, 1, 15, 16, 17, 0x80, 0xff}) : r.U8(); break;
        case 1: m.opus.channels = b8(2); break;
        case 2: m.opus.gain = ref::GenS16(r); break;
        case 3: m.opus.family = b8(0); break;
        case 4: m.opus.rate = r.Edge32(); break;
        default: m.opus.preskip = static_cast<uint16_t>(r.U32());
      }
      break;
    case ref::kFlac: {
      auto& i = m.flac.info;
      switch (r.Below(10)) {
        case 0: i.min = r.Bool() ? i.min + r.Range(-1, 1) : r.U32(); break;
        case 1: i.max = r.Bool() ? i.max + r.Range(-1, 1) : r.U32(); break;
        case 2: i.minf = r.U32() & 0xffffff; break;
        case 3: i.maxf = r.U32() & 0xffffff; break;
        case 4: i.rate = (r.Chance(1, 2) ? r.Pick<uint32_t>({0, 8001, 64000, 12000, 11025, 7350, 655350, 1048575, 384000}) : r.U32()) & 0xfffff; break;
        case 5: i.ch = r.Below(8); break;
        case 6: i.bits = r.Below(32); break;
        case 7: i.md5[r.Below(16)] ^= 1 << r.Below(8); break;
        case 8: m.flac.first_type = static_cast<int>(r.Range(1, 127)); break;
        default: { int n = static_cast<int>(r.Range(124, 131)); m.flac.rest.clear(); for (int k = 0; k < n; ++k) m.flac.rest.push_back({static_cast<int>(r.Range(1, 126)), -1, r.Bytes(r.Below(3))}); }
      }
      break;
    }
    case ref::kAac: {
      auto& a = m.aac;
      switch (r.Below(14)) {
        case 0: a.tag1 = b8(4); break;
        case 1: a.oti = b8(0x40); break;
        case 2: a.stream = r.Below(64); break;
        case 3: a.up = true; break;
        case 4: a.res = false; break;
        case 5: a.tag2 = b8(5); break;
        case 6: a.aot = r.Below(32); break;
        case 7: a.freq = static_cast<uint8_t>(r.Range(11, 15)); a.esc = r.U32() & 0xffffff; break;
        case 8: a.ch = r.Below(16); break;
        case 9: a.f1 = true; break;
        case 10: a.f2 = true; break;
        case 11: a.f3 = true; break;
        case 12: a.dsi_ext = r.Bytes(r.Below(300)); break;
        default: a.dcd_ext = r.Bytes(r.Below(300));
      }
      break;
    }
  }
}
void Fields(Ctx& c) {
  Rng& r = c.rng;
  ref::Codec m = ref::GenCodec(r);
  for (uint64_t k = r.Below(3); k > 0; --k) Perturb(r, m);
  // Read.
  {
    const std::string bad = Illegal(m, false);
    Bytes d = ref::EncodeCodec(m, Lp{});
    if (m.fourcc != ref::kOpus && m.fourcc != ref::kFlac && m.fourcc != ref::kLpcm && m.fourcc != ref::kAac) for (int k = 0; k < 12; ++k) d.push_back(r.U8());
    auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(d));
    auto o = CodecConfigObu::CreateFromBuffer(ObuHeader{.obu_type = kObuIaCodecConfig}, static_cast<int64_t>(d.size()), *rb);
    c.Eval();
    c.Distinct(HashVec(d));
    if (bad.empty()) {
      V_CHECK(c, o.ok(), "legal-config-not-read", o.status().ToString() << " " << Hex(d));
      if (o.ok()) { CheckDerived(c, *o, m, "read"); V_CHECK(c, o->GetCodecConfig() == ToConfig(m), "config-read-differs", Hex(d)); c.Count("read-accepted"); }
    } else {
      V_CHECK(c, !o.ok(), "illegal-config-read", bad << " " << Hex(d));
      c.Count("read-refused");
      c.Count("refused: " + bad);
    }
  }
  // Create, and write.
  {
    const bool fix = r.Bool();
    ref::Codec want = m;
    if (fix && m.nsamples >= 1 && m.nsamples <= 96000) want.roll = WantRoll(m);
    if (m.fourcc == ref::kFlac && r.Chance(1, 30)) want.flac.info.total = m.flac.info.total = 0x1000000000ULL + r.Below(5);
    if (m.fourcc == ref::kAac && m.aac.freq == 15) { want.aac.freq = m.aac.freq = 14; }
    const std::string bad = Illegal(want, true);
    ObuHeader h{.obu_type = kObuIaCodecConfig};
    auto o = CodecConfigObu::Create(h, m.id, ToConfig(m), fix);
    c.Eval();
    if (!o.ok()) {
      V_CHECK(c, !bad.empty(), "legal-config-not-created", o.status().ToString() << " codec " << std::hex << m.fourcc);
      c.Count("create-refused");
      return;
    }
    V_CHECK(c, o->GetCodecConfig().audio_roll_distance == want.roll, "roll-override", "fix " << fix << " got " << o->GetCodecConfig().audio_roll_distance << " want " << want.roll << " nsamples " << m.nsamples);
    // Sample rate and depth are checked when created.
    CheckDerived(c, *o, want, "created");
    WriteBitBuffer wb(0);
    auto st = o->ValidateAndWriteObu(wb);
    if (bad.empty()) {
      V_CHECK(c, st.ok(), "legal-config-not-written", st.ToString() << " codec " << std::hex << m.fourcc);
      ref::Hdr rh; rh.type = 0;
      auto exp = ref::EncodeObu(rh, ref::EncodeCodec(want, Lp{}), Lp{});
      if (st.ok()) V_CHECK(c, wb.bit_buffer() == exp, "written-bytes", Hex(wb.bit_buffer()) << " want " << Hex(exp));
      c.Count("written");
    } else {
      V_CHECK(c, !st.ok(), "illegal-config-written", bad << " " << Hex(wb.bit_buffer()));
      c.Count("write-refused");
    }
    // Codec delay.
    const uint16_t delay = static_cast<uint16_t>(r.U32());
    auto sd = o->SetCodecDelay(delay);
    V_CHECK(c, sd.ok(), "codec-delay-refused", sd.ToString());
    CodecConfig expect = ToConfig(want);
    if (m.fourcc == ref::kOpus) std::get<OpusDecoderConfig>(expect.decoder_config).pre_skip_ = delay;
    V_CHECK(c, o->GetCodecConfig() == expect, "codec-delay", "codec " << std::hex << m.fourcc);
    c.Count("delays");
  }
}
// Every frame size: the required roll distance, overridden on request and demanded when read.
void Rolls(Ctx& c) {
  Rng& r = c.rng;
  for (uint32_t k = 0; k < 100; ++k) {
    const uint32_t n = static_cast<uint32_t>((c.index * 100 + k) % 96000) + 1;
    auto got = OpusDecoderConfig::GetRequiredAudioRollDistance(n);
    const int want = -static_cast<int>((3840 + n - 1) / n);
    c.Eval();
    c.Distinct(n);
    c.Count("frame-sizes");
    V_CHECK(c, got.ok() && *got == want, "opus-roll", n << " got " << (got.ok() ? *got : 9999) << " want " << want);
    if (k % 10) continue;
    for (uint32_t fc : {ref::kLpcm, ref::kOpus, ref::kFlac, ref::kAac}) {
      ref::Codec m = ref::GenCodec(r, fc);
      m.nsamples = n;
      if (fc == ref::kFlac) { if (n > 65535) continue; m.flac.info.min = m.flac.info.max = n; }
      m.roll = static_cast<int16_t>(WantRoll(m) + (r.Bool() ? r.Range(-1, 1) : 0));
      Bytes d = ref::EncodeCodec(m, Lp{});
      auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(d));
      auto o = CodecConfigObu::CreateFromBuffer(ObuHeader{.obu_type = kObuIaCodecConfig}, static_cast<int64_t>(d.size()), *rb);
      V_CHECK(c, o.ok() == (m.roll == WantRoll(m)), "roll-on-read", "codec " << std::hex << fc << std::dec << " n " << n << " roll " << m.roll << " " << o.status().ToString());
      auto fixed = CodecConfigObu::Create(ObuHeader{.obu_type = kObuIaCodecConfig}, 1, ToConfig(m));
      V_CHECK(c, fixed.ok() && fixed->GetCodecConfig().audio_roll_distance == WantRoll(m), "roll-fixed", "codec " << std::hex << fc << std::dec << " n " << n << " " << fixed.status().ToString());
      c.Count("rolls");
    }
  }
  if (c.index == 0) V_CHECK(c, !OpusDecoderConfig::GetRequiredAudioRollDistance(0).ok(), "opus-roll-zero", "0");
}
// The single-byte and table-driven fields, exhaustively.
void Sweeps(Ctx& c) {
  Rng& r = c.rng;
  auto test = [&](const ref::Codec& m) {
    Bytes d = ref::EncodeCodec(m, Lp{});
    auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(d));
    auto o = CodecConfigObu::CreateFromBuffer(ObuHeader{.obu_type = kObuIaCodecConfig}, static_cast<int64_t>(d.size()), *rb);
    const std::string bad = Illegal(m, false);
    c.Eval(); c.Count("swept"); c.Distinct(HashVec(d));
    V_CHECK(c, o.ok() == bad.empty(), "sweep", "rule '" << bad << "' status " << o.status().ToString() << " " << Hex(d));
    if (o.ok() && bad.empty()) CheckDerived(c, *o, m, "sweep");
  };
  const int v = static_cast<int>(c.index & 255);
  { auto m = ref::GenCodec(r, ref::kLpcm); m.lpcm.size = v; test(m); }
  { auto m = ref::GenCodec(r, ref::kLpcm); m.lpcm.flags = v; test(m); }
  { auto m = ref::GenCodec(r, ref::kOpus); m.opus.version = v; test(m); m.opus.version = 1; m.opus.channels = v; test(m); m.opus.channels = 2; m.opus.family = v; test(m); m.opus.family = 0; m.opus.gain = static_cast<int16_t>(v - 128); test(m); m.opus.gain = static_cast<int16_t>((v - 128) * 256); test(m); }
  { auto m = ref::GenCodec(r, ref::kFlac); m.flac.info.bits = v & 31; test(m); m.flac.info.bits = 15; m.flac.info.ch = v & 7; test(m); m.flac.info.ch = 1; m.flac.first_type = v & 127; test(m); }
  { auto m = ref::GenCodec(r, ref::kAac); auto s = m; s.aac.freq = v & 15; if ((v & 15) == 15) s.aac.esc = 48000; test(s); s = m; s.aac.tag1 = v; test(s); s = m; s.aac.tag2 = v; test(s); s = m; s.aac.oti = v; test(s); s = m; s.aac.stream = v & 63; test(s); s = m; s.aac.aot = v & 31; test(s); s = m; s.aac.ch = v & 15; test(s); s = m; s.aac.f1 = v & 1; s.aac.f2 = v & 2; s.aac.f3 = v & 4; test(s); s = m; s.aac.up = v & 1; s.aac.res = v & 2; test(s); }
  // Sample rates: all multiples of 25 Hz of the LPCM and FLAC fields in slices.
  for (uint32_t k = 0; k < 60; ++k) {
    uint32_t rate = (static_cast<uint32_t>(v) * 60 + k) * 25;
    if (rate % 25 == 0 && r.Chance(1, 8)) rate += static_cast<uint32_t>(r.Range(-1, 1));
    auto m = ref::GenCodec(r, ref::kLpcm); m.lpcm.rate = rate; test(m);
    auto f = ref::GenCodec(r, ref::kFlac); f.flac.info.rate = rate & 0xfffff; test(f);
  }
}
}  // namespace
V_MAIN({{"fields", 240000, 1500000, Fields}, {"rolls", 960, 960, Rolls}, {"sweeps", 256, 2560, Sweeps}})
