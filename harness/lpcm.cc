// C25: LPCM decoder, encoder, decoder config, substream channel count.
#include <list>
#include "iamf/cli/codec/lpcm_decoder.h"
#include "iamf/cli/codec/lpcm_encoder.h"
#include "iamf/cli/audio_frame_with_data.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/substream_channel_count.h"
#include "harness/ref/bits.h"
#include "harness/vlib.h"
using namespace iamf_tools;
using namespace vlib;
namespace {
const uint32_t kRates[] = {16000, 32000, 44100, 48000, 96000};
bool RateOk(uint32_t r) { for (uint32_t x : kRates) if (x == r) return true; return false; }
bool SizeOk(int s) { return s == 16 || s == 24 || s == 32; }

LpcmDecoderConfig Conf(Rng& r, bool hostile) {
  LpcmDecoderConfig c;
  c.sample_format_flags_bitmask_ = r.Bool() ? LpcmDecoderConfig::kLpcmLittleEndian : LpcmDecoderConfig::kLpcmBigEndian;
  c.sample_size_ = r.Pick<int>({16, 24, 32});
  c.sample_rate_ = kRates[r.Below(5)];
  if (hostile) switch (r.Below(4)) {
    case 0: c.sample_format_flags_bitmask_ = static_cast<LpcmDecoderConfig::LpcmFormatFlagsBitmask>(r.U8()); break;
    case 1: c.sample_size_ = r.Bool() ? r.U8() : r.Pick<int>({0, 8, 12, 15, 17, 20, 23, 25, 31, 33, 40, 48, 64, 248}); break;
    case 2: c.sample_rate_ = r.Bool() ? r.Edge32() : r.Pick<uint32_t>({0, 8000, 11025, 12000, 22050, 24000, 44101, 47999, 48001, 64000, 88200, 176400, 192000}); break;
    default: break;
  }
  return c;
}
bool Valid(const LpcmDecoderConfig& c) { return c.sample_format_flags_bitmask_ <= 1 && SizeOk(c.sample_size_) && RateOk(c.sample_rate_); }
std::string Show(const LpcmDecoderConfig& c) { return "flags=" + std::to_string(int(c.sample_format_flags_bitmask_)) + " size=" + std::to_string(int(c.sample_size_)) + " rate=" + std::to_string(c.sample_rate_); }

// The integer value of coded sample `i`, left justified in 32 bits.
int32_t RefSample(const std::vector<uint8_t>& b, size_t i, int bytes, bool le) {
  uint32_t v = 0;
  for (int k = 0; k < bytes; ++k) v |= static_cast<uint32_t>(b[i * bytes + k]) << (le ? 32 - 8 * (bytes - k) : 24 - 8 * k);
  return static_cast<int32_t>(v);
}
std::vector<uint8_t> Payload(Rng& r, size_t n) {
  std::vector<uint8_t> v = r.Bytes(n);
  switch (r.Below(4)) {
    case 0: for (auto& b : v) b = r.Pick<int>({0, 1, 0x7f, 0x80, 0xff}); break;
    case 1: for (size_t i = 0; i < n; ++i) v[i] = static_cast<uint8_t>(i); break;
    default: break;
  }
  return v;
}

void DecodeHistory(Ctx& c) {
  Rng& r = c.rng;
  const bool hostile = r.Chance(1, 4);
  const auto conf = Conf(r, hostile);
  const int ch = 1 + static_cast<int>(r.Below(2));
  const uint32_t frame = r.Chance(1, 20) ? r.Pick<uint32_t>({0, 1, 96000}) : static_cast<uint32_t>(r.Range(1, r.Bool() ? 8 : 300));
  auto dec = LpcmDecoder::Create(conf, ch == 1 ? SubstreamChannelCount::MakeSingular() : SubstreamChannelCount::MakeCoupled(), frame);
  c.Eval();
  V_CHECK(c, dec.ok() == Valid(conf), "decoder-create", Show(conf) << " " << dec.status());
  if (!dec.ok()) { c.Count("configs-refused"); return; }
  V_CHECK(c, *dec != nullptr, "decoder-null", Show(conf));
  const int bytes = conf.sample_size_ / 8;
  const bool le = conf.sample_format_flags_bitmask_ == 1;
  std::vector<std::vector<int32_t>> want;  // last accepted frame
  bool have = false;
  const int steps = 1 + static_cast<int>(r.Below(8));
  uint64_t h = HashStr(Show(conf));
  for (int s = 0; s < steps; ++s) {
    size_t n;
    const size_t full = static_cast<size_t>(frame) * ch * bytes;
    switch (r.Below(6)) {
      case 0: n = full; break;
      case 1: n = static_cast<size_t>(r.Below(frame + 1)) * ch * bytes; break;            // short frame
      case 2: n = full + static_cast<size_t>(r.Range(1, 3)) * ch * bytes; break;          // too long
      case 3: n = static_cast<size_t>(r.Below(full + 8)); break;                          // any byte count
      case 4: n = full + static_cast<size_t>(r.Range(-3, 3)); if (n > full + 3) n = 0; break;
      default: n = static_cast<size_t>(r.Below(frame * 2 + 1)) * bytes; break;            // whole samples, maybe not whole ticks
    }
    if (n > 2000000) n = full;
    const auto in = Payload(r, n);
    const bool ok = n % (static_cast<size_t>(bytes) * ch) == 0 && n / bytes / ch <= frame;
    auto st = (*dec)->DecodeAudioFrame(in);
    c.Eval();
    V_CHECK(c, st.ok() == ok, "decode-verdict", Show(conf) << " ch=" << ch << " frame=" << frame << " bytes=" << n << " " << st);
    h = HashVec(in) ^ h * 31;
    if (ok) {
      c.Count("frames-decoded");
      want.assign(ch, {});
      const size_t ticks = n / bytes / ch;
      for (size_t t = 0; t < ticks; ++t)
        for (int k = 0; k < ch; ++k) want[k].push_back(RefSample(in, t * ch + k, bytes, le));
      have = true;
    } else {
      c.Count("frames-refused");
    }
    // A refused frame leaves the last accepted output in place.
    if (have) {
      auto out = (*dec)->ValidDecodedSamples();
      V_CHECK(c, out.size() == static_cast<size_t>(ch), "decode-channels", out.size() << " " << ch);
      for (int k = 0; k < ch; ++k) {
        V_CHECK(c, out[k].size() == want[k].size(), "decode-ticks", out[k].size() << " vs " << want[k].size() << " accepted=" << ok);
        for (size_t t = 0; t < want[k].size(); ++t)
          V_CHECK(c, static_cast<double>(out[k][t]) == want[k][t] / 2147483648.0, "decode-sample",
                  Show(conf) << " ch " << k << " t " << t << " got " << out[k][t] * 2147483648.0 << " want " << want[k][t] << " accepted=" << ok << " in=" << Hex(in, 60));
      }
      c.Eval();
    }
  }
  c.Distinct(h);
  if (c.WantSample()) c.Sample(Show(conf) + " channels=" + std::to_string(ch) + " frame=" + std::to_string(frame) + " steps=" + std::to_string(steps));
}

void ConfigBits(Ctx& c) {
  Rng& r = c.rng;
  const auto conf = Conf(r, r.Bool());
  const int16_t roll = r.Chance(1, 4) ? static_cast<int16_t>(r.Range(-3, 3)) : 0;
  ref::Bits b; b.Put(conf.sample_format_flags_bitmask_, 8); b.Put(conf.sample_size_, 8); b.Put(conf.sample_rate_, 32);
  WriteBitBuffer wb(16);
  auto st = conf.ValidateAndWrite(roll, wb);
  // The library tolerates a wrong roll distance in its decoder-facing build, so only the payload decides.
  const bool valid = Valid(conf);
  V_CHECK(c, conf.Validate(0).ok() == valid, "config-validate", Show(conf) << conf.Validate(0));
  V_CHECK(c, valid || !st.ok(), "config-write-invalid", Show(conf));
  if (roll == 0) V_CHECK(c, st.ok() == valid, "config-write", Show(conf) << st);
  if (st.ok()) V_CHECK(c, wb.bit_buffer() == b.Bytes(), "config-bytes", Hex(wb.bit_buffer()) << " " << Hex(b.Bytes()));
  auto bytes = b.Bytes();
  const size_t cut = r.Chance(1, 4) ? r.Below(6) : 6;
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(bytes).first(cut));
  LpcmDecoderConfig got{};
  st = got.ReadAndValidate(0, *rb);
  V_CHECK(c, st.ok() == (valid && cut == 6), "config-read", Show(conf) << " cut " << cut << " " << st);
  if (st.ok()) {
    V_CHECK(c, got == conf && got.IsLittleEndian() == (conf.sample_format_flags_bitmask_ == 1), "config-read-value", Show(got) << " vs " << Show(conf));
    V_CHECK(c, rb->Tell() == 48, "config-read-consumed", rb->Tell());
  }
  uint32_t sr = 1; uint8_t bd = 1;
  V_CHECK(c, conf.GetOutputSampleRate(sr).ok() == RateOk(conf.sample_rate_) && (!RateOk(conf.sample_rate_) || sr == conf.sample_rate_), "config-rate", Show(conf) << sr);
  V_CHECK(c, conf.GetBitDepthToMeasureLoudness(bd).ok() == SizeOk(conf.sample_size_) && (!SizeOk(conf.sample_size_) || bd == conf.sample_size_), "config-depth", Show(conf) << int(bd));
  c.Eval(5);
  c.Distinct(HashVec(bytes) + cut);
}

void ChannelCounts(Ctx& c) {
  for (int64_t i = -70000; i <= 70000; ++i) {
    auto s = SubstreamChannelCount::Create(static_cast<int>(i));
    V_CHECK(c, s.ok() == (i == 1 || i == 2), "channel-count", i);
    if (s.ok()) V_CHECK(c, s->num_channels() == static_cast<size_t>(i), "channel-count-value", i << " " << s->num_channels());
  }
  for (int k = 0; k < 20000; ++k) {
    const int v = static_cast<int>(c.rng.Edge32());
    V_CHECK(c, SubstreamChannelCount::Create(v).ok() == (v == 1 || v == 2), "channel-count", v);
  }
  V_CHECK(c, SubstreamChannelCount::MakeSingular().num_channels() == 1 && SubstreamChannelCount::MakeCoupled().num_channels() == 2, "channel-count-make", "");
  c.Eval(160001); c.Distinct(1);
}

// Encode, check the bytes against the reference layout, decode again.
void EncodeHistory(Ctx& c) {
  Rng& r = c.rng;
  const auto conf = Conf(r, false);
  const int ch = 1 + static_cast<int>(r.Below(2));
  const uint32_t frame = static_cast<uint32_t>(r.Range(1, 40));
  CodecConfig cc{.codec_id = CodecConfig::kCodecIdLpcm, .num_samples_per_frame = frame, .audio_roll_distance = 0, .decoder_config = conf};
  auto obu = CodecConfigObu::Create(ObuHeader(), 7, cc);
  V_CHECK(c, obu.ok(), "codec-config", obu.status());
  const auto count = ch == 1 ? SubstreamChannelCount::MakeSingular() : SubstreamChannelCount::MakeCoupled();
  LpcmEncoder enc(*obu, count);
  V_CHECK(c, enc.Initialize(r.Bool()).ok(), "encoder-init", Show(conf));
  V_CHECK(c, enc.GetNumberOfSamplesToDelayAtStart() == 0, "encoder-delay", "");
  auto dec = LpcmDecoder::Create(conf, count, frame);
  const int bytes = conf.sample_size_ / 8;
  std::list<std::pair<int64_t, std::vector<std::vector<int32_t>>>> queued;
  std::list<AudioFrameWithData> popped;
  bool finalized = false;
  int64_t tag = 0;
  auto check_pop = [&]() -> bool {
    const size_t before = popped.size();
    V_CHECK_R(c, enc.FramesAvailable() == !queued.empty(), "encoder-available", queued.size(), false);
    V_CHECK_R(c, enc.Pop(popped).ok(), "encoder-pop", "", false);
    if (queued.empty()) { V_CHECK_R(c, popped.size() == before, "encoder-pop-empty", "", false); return true; }
    V_CHECK_R(c, popped.size() == before + 1, "encoder-pop-one", popped.size() - before, false);
    auto& f = popped.back();
    auto& [t, samples] = queued.front();
    V_CHECK_R(c, f.start_timestamp == t && f.obu.GetSubstreamId() == static_cast<uint32_t>(t & 0xff), "encoder-order", f.start_timestamp << " want " << t, false);
    std::vector<uint8_t> want;
    for (uint32_t i = 0; i < frame; ++i)
      for (int k = 0; k < ch; ++k) {
        const uint32_t v = static_cast<uint32_t>(samples[k][i]) >> (32 - conf.sample_size_);
        for (int b = 0; b < bytes; ++b) want.push_back(static_cast<uint8_t>(v >> (conf.sample_format_flags_bitmask_ == 1 ? 8 * b : 8 * (bytes - 1 - b))));
      }
    V_CHECK_R(c, f.obu.audio_frame_ == want, "encoder-bytes", Show(conf) << " got " << Hex(f.obu.audio_frame_, 40) << " want " << Hex(want, 40), false);
    V_CHECK_R(c, (*dec)->DecodeAudioFrame(f.obu.audio_frame_).ok(), "encoder-decode", "", false);
    auto out = (*dec)->ValidDecodedSamples();
    for (int k = 0; k < ch; ++k)
      for (uint32_t i = 0; i < frame; ++i) {
        const int32_t in = static_cast<int32_t>(static_cast<uint32_t>(samples[k][i]) & (0xffffffffu << (32 - conf.sample_size_)));
        V_CHECK_R(c, out[k][i] * 2147483648.0 == in, "encode-decode", Show(conf) << " " << out[k][i] * 2147483648.0 << " " << in, false);
      }
    queued.pop_front();
    c.Count("frames-encoded"); c.Eval();
    c.Distinct(HashVec(want));
    return true;
  };
  for (int s = 0; s < 14; ++s) {
    switch (r.Below(5)) {
      case 0: case 1: case 2: {
        std::vector<std::vector<int32_t>> smp(ch, std::vector<int32_t>(frame));
        for (auto& v : smp) for (auto& x : v) x = static_cast<int32_t>(r.Bool() ? r.Edge32() : r.U32());
        bool ok = !finalized;
        if (r.Chance(1, 4)) {
          ok = false;
          switch (r.Below(4)) {
            case 0: smp.push_back(smp[0]); break;
            case 1: smp.pop_back(); break;
            case 2: smp[r.Below(ch)].pop_back(); break;
            default: smp[r.Below(ch)].push_back(1); break;
          }
        }
        auto f = std::make_unique<AudioFrameWithData>(AudioFrameWithData{.obu = AudioFrameObu(ObuHeader(), static_cast<uint32_t>(tag & 0xff), {}), .start_timestamp = tag, .end_timestamp = tag + 1});
        auto st = static_cast<EncoderBase&>(enc).EncodeAudioFrame(smp, std::move(f));
        V_CHECK(c, st.ok() == ok, "encoder-verdict", Show(conf) << " finalized=" << finalized << " pending=" << queued.size() << " " << st);
        if (ok) queued.emplace_back(tag, smp); else c.Count("encodes-refused");
        ++tag;
        break;
      }
      case 3: if (!check_pop()) return; break;
      default:
        if (s > 8 && !finalized) { V_CHECK(c, enc.Finalize().ok(), "encoder-finalize", ""); finalized = true; }
        break;
    }
    V_CHECK(c, enc.Finished() == (finalized && queued.empty()), "encoder-finished", finalized << queued.size());
    c.Eval();
  }
  while (!queued.empty()) if (!check_pop()) return;
}
}  // namespace
V_MAIN({{"decode", 24000, 400000, DecodeHistory}, {"config", 40000, 400000, ConfigBits}, {"channels", 1, 8, ChannelCounts}, {"encode", 12000, 200000, EncodeHistory}})
