// Stand-ins for the codec and WAV libraries that are not installed here. Each
// keeps the documented interface of the original; the "compression" is lossless
// PCM, so conservation of samples through the real wrapper code is checkable.
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <deque>
#include <vector>
#include "include/FLAC/stream_decoder.h"
#include "include/FLAC/stream_encoder.h"
#include "include/opus.h"
#include "libAACdec/include/aacdecoder_lib.h"
#include "libAACenc/include/aacenc_lib.h"
#include "src/dsp/read_wav_file.h"
#include "src/dsp/write_wav_file.h"

// ---- Opus ----
int vext_fail_opus_decoder = 0;  // fault injection
struct OpusEncoder { int ch; int lookahead; std::deque<int16_t> fifo; };
struct OpusDecoder { int ch; };
static bool OpusRate(int fs) { return fs == 8000 || fs == 12000 || fs == 16000 || fs == 24000 || fs == 48000; }
OpusEncoder* opus_encoder_create(opus_int32 fs, int ch, int app, int* err) {
  if (!OpusRate(fs) || ch < 1 || ch > 2 || (app != OPUS_APPLICATION_VOIP && app != OPUS_APPLICATION_AUDIO && app != OPUS_APPLICATION_RESTRICTED_LOWDELAY)) { *err = OPUS_BAD_ARG; return nullptr; }
  *err = OPUS_OK;
  auto* e = new OpusEncoder;
  e->ch = ch;
  e->lookahead = app == OPUS_APPLICATION_RESTRICTED_LOWDELAY ? fs / 400 : fs / 400 + fs / 250;
  e->fifo.assign(static_cast<size_t>(e->lookahead) * ch, 0);
  return e;
}
void opus_encoder_destroy(OpusEncoder* e) { delete e; }
int opus_encoder_ctl(OpusEncoder* e, int req, ...) {
  va_list ap; va_start(ap, req);
  int r = OPUS_OK;
  if (req == OPUS_GET_LOOKAHEAD_REQUEST) *va_arg(ap, opus_int32*) = e->lookahead;
  else if (req != OPUS_SET_BITRATE_REQUEST) r = OPUS_UNIMPLEMENTED;
  va_end(ap);
  return r;
}
opus_int32 opus_encode(OpusEncoder* e, const opus_int16* pcm, int n, unsigned char* out, opus_int32 max) {
  if (n <= 0 || 4 + 2 * n * e->ch > max) return OPUS_BUFFER_TOO_SMALL;
  for (int i = 0; i < n * e->ch; ++i) e->fifo.push_back(pcm[i]);
  out[0] = 'O'; out[1] = static_cast<unsigned char>(e->ch); out[2] = n & 0xff; out[3] = (n >> 8) & 0xff;
  for (int i = 0; i < n * e->ch; ++i) {
    const uint16_t v = static_cast<uint16_t>(e->fifo.front());
    e->fifo.pop_front();
    out[4 + 2 * i] = v & 0xff; out[5 + 2 * i] = v >> 8;
  }
  return 4 + 2 * n * e->ch;
}
opus_int32 opus_encode_float(OpusEncoder* e, const float* pcm, int n, unsigned char* out, opus_int32 max) {
  std::vector<opus_int16> v(static_cast<size_t>(n) * e->ch);
  for (size_t i = 0; i < v.size(); ++i) {
    float x = std::nearbyint(pcm[i] * 32768.f);
    v[i] = static_cast<opus_int16>(x > 32767.f ? 32767.f : x < -32768.f ? -32768.f : x);
  }
  return opus_encode(e, v.data(), n, out, max);
}
OpusDecoder* opus_decoder_create(opus_int32 fs, int ch, int* err) {
  if (!OpusRate(fs) || ch < 1 || ch > 2) { *err = OPUS_BAD_ARG; return nullptr; }
  if (vext_fail_opus_decoder) { *err = OPUS_ALLOC_FAIL; return nullptr; }
  *err = OPUS_OK;
  return new OpusDecoder{ch};
}
void opus_decoder_destroy(OpusDecoder* d) { delete d; }
int opus_decode_float(OpusDecoder* d, const unsigned char* p, opus_int32 len, float* pcm, int frame_size, int) {
  if (len < 0) return OPUS_BAD_ARG;
  if (len == 0 || p == nullptr) { for (int i = 0; i < frame_size * d->ch; ++i) pcm[i] = 0; return frame_size; }
  if (len < 4 || p[0] != 'O' || p[1] != d->ch) return OPUS_INVALID_PACKET;
  const int n = p[2] | p[3] << 8;
  if (4 + 2 * n * d->ch != len) return OPUS_INVALID_PACKET;
  if (n > frame_size) return OPUS_BUFFER_TOO_SMALL;
  for (int i = 0; i < n * d->ch; ++i)
    pcm[i] = static_cast<int16_t>(static_cast<uint16_t>(p[4 + 2 * i] | p[5 + 2 * i] << 8)) / 32768.f;
  return n;
}

// ---- FLAC: like libFLAC, a block is emitted once the next sample arrives. ----
const char* const FLAC__StreamEncoderInitStatusString[] = {"OK","ENCODER_ERROR","UNSUPPORTED_CONTAINER","INVALID_CALLBACKS","INVALID_NUMBER_OF_CHANNELS","INVALID_BITS_PER_SAMPLE","INVALID_SAMPLE_RATE","INVALID_BLOCK_SIZE","INVALID_MAX_LPC_ORDER","INVALID_QLP_COEFF_PRECISION","BLOCK_SIZE_TOO_SMALL_FOR_LPC_ORDER","NOT_STREAMABLE","INVALID_METADATA","ALREADY_INITIALIZED"};
struct FLAC__StreamEncoder {
  uint32_t ch = 2, bps = 16, rate = 44100, bs = 4096, frame = 0;
  bool init = false, failed = false;
  FLAC__StreamEncoderWriteCallback w = nullptr; FLAC__StreamEncoderMetadataCallback m = nullptr; void* c = nullptr;
  std::vector<int32_t> pend;
  void Emit(uint32_t n) {
    std::vector<uint8_t> b = {'F', 'L', (uint8_t)ch, (uint8_t)bps, (uint8_t)n, (uint8_t)(n >> 8), (uint8_t)(n >> 16), (uint8_t)(n >> 24)};
    for (uint32_t i = 0; i < n * ch; ++i) for (int k = 0; k < 4; ++k) b.push_back(static_cast<uint32_t>(pend[i]) >> (8 * k));
    pend.erase(pend.begin(), pend.begin() + n * ch);
    if (w(this, b.data(), b.size(), n, frame++, c) != FLAC__STREAM_ENCODER_WRITE_STATUS_OK) failed = true;
  }
};
FLAC__StreamEncoder* FLAC__stream_encoder_new() { return new FLAC__StreamEncoder; }
void FLAC__stream_encoder_delete(FLAC__StreamEncoder* e) { if (e) { FLAC__stream_encoder_finish(e); delete e; } }
FLAC__bool FLAC__stream_encoder_set_channels(FLAC__StreamEncoder* e, uint32_t v) { e->ch = v; return !e->init; }
FLAC__bool FLAC__stream_encoder_set_bits_per_sample(FLAC__StreamEncoder* e, uint32_t v) { e->bps = v; return !e->init; }
FLAC__bool FLAC__stream_encoder_set_sample_rate(FLAC__StreamEncoder* e, uint32_t v) { e->rate = v; return !e->init; }
FLAC__bool FLAC__stream_encoder_set_blocksize(FLAC__StreamEncoder* e, uint32_t v) { e->bs = v; return !e->init; }
FLAC__bool FLAC__stream_encoder_set_total_samples_estimate(FLAC__StreamEncoder* e, FLAC__uint64) { return !e->init; }
FLAC__bool FLAC__stream_encoder_set_compression_level(FLAC__StreamEncoder* e, uint32_t) { return !e->init; }
FLAC__bool FLAC__stream_encoder_set_verify(FLAC__StreamEncoder* e, FLAC__bool) { return !e->init; }
FLAC__StreamEncoderInitStatus FLAC__stream_encoder_init_stream(FLAC__StreamEncoder* e, FLAC__StreamEncoderWriteCallback w, void*, void*, FLAC__StreamEncoderMetadataCallback m, void* c) {
  if (e->init) return FLAC__STREAM_ENCODER_INIT_STATUS_ALREADY_INITIALIZED;
  if (!w) return FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_CALLBACKS;
  if (e->ch < 1 || e->ch > 8) return FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_NUMBER_OF_CHANNELS;
  if (e->bps < 4 || e->bps > 32) return FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_BITS_PER_SAMPLE;
  if (e->rate == 0 || e->rate > 1048575) return FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_SAMPLE_RATE;
  if (e->bs < 16 || e->bs > 65535) return FLAC__STREAM_ENCODER_INIT_STATUS_INVALID_BLOCK_SIZE;
  e->w = w; e->m = m; e->c = c; e->init = true;
  const uint8_t h[4] = {'f', 'L', 'a', 'C'};
  if (w(e, h, 4, 0, 0, c) != FLAC__STREAM_ENCODER_WRITE_STATUS_OK) return FLAC__STREAM_ENCODER_INIT_STATUS_ENCODER_ERROR;
  return FLAC__STREAM_ENCODER_INIT_STATUS_OK;
}
FLAC__bool FLAC__stream_encoder_process_interleaved(FLAC__StreamEncoder* e, const FLAC__int32 p[], uint32_t n) {
  if (!e->init || e->failed) return false;
  for (uint32_t i = 0; i < n; ++i) {
    if (e->pend.size() == static_cast<size_t>(e->bs) * e->ch) e->Emit(e->bs);
    for (uint32_t c = 0; c < e->ch; ++c) {
      const int32_t x = p[i * e->ch + c];
      if (e->bps < 32 && (x >= (1 << (e->bps - 1)) || x < -(1 << (e->bps - 1)))) { e->failed = true; return false; }
      e->pend.push_back(x);
    }
  }
  return !e->failed;
}
FLAC__bool FLAC__stream_encoder_finish(FLAC__StreamEncoder* e) {
  if (!e->init) return true;
  if (!e->failed && !e->pend.empty()) e->Emit(e->pend.size() / e->ch);
  e->init = false;
  FLAC__StreamMetadata md{FLAC__METADATA_TYPE_STREAMINFO, true, 34};
  if (e->m) e->m(e, &md, e->c);
  return !e->failed;
}
struct FLAC__StreamDecoder { FLAC__StreamDecoderReadCallback r = nullptr; FLAC__StreamDecoderWriteCallback w = nullptr; FLAC__StreamDecoderErrorCallback e = nullptr; void* c = nullptr; };
FLAC__StreamDecoder* FLAC__stream_decoder_new() { return new FLAC__StreamDecoder; }
void FLAC__stream_decoder_delete(FLAC__StreamDecoder* d) { delete d; }
FLAC__StreamDecoderInitStatus FLAC__stream_decoder_init_stream(FLAC__StreamDecoder* d, FLAC__StreamDecoderReadCallback r, void*, void*, void*, void*, FLAC__StreamDecoderWriteCallback w, void*, FLAC__StreamDecoderErrorCallback e, void* c) {
  d->r = r; d->w = w; d->e = e; d->c = c; return FLAC__STREAM_DECODER_INIT_STATUS_OK;
}
FLAC__bool FLAC__stream_decoder_finish(FLAC__StreamDecoder*) { return true; }
FLAC__bool FLAC__stream_decoder_process_single(FLAC__StreamDecoder* d) {
  std::vector<uint8_t> b;
  for (;;) {
    uint8_t chunk[1024];
    size_t n = sizeof(chunk);
    const auto s = d->r(d, chunk, &n, d->c);
    if (s == FLAC__STREAM_DECODER_READ_STATUS_ABORT) return false;
    b.insert(b.end(), chunk, chunk + n);
    if (s == FLAC__STREAM_DECODER_READ_STATUS_END_OF_STREAM || n == 0) break;
  }
  if (b.empty()) return true;  // End of stream without a frame.
  if (b.size() < 8 || b[0] != 'F' || b[1] != 'L') { d->e(d, FLAC__STREAM_DECODER_ERROR_STATUS_LOST_SYNC, d->c); return true; }
  FLAC__Frame f{};
  f.header.channels = b[2]; f.header.bits_per_sample = b[3];
  f.header.blocksize = b[4] | b[5] << 8 | b[6] << 16 | static_cast<uint32_t>(b[7]) << 24;
  if (f.header.channels < 1 || f.header.channels > 8 || f.header.bits_per_sample < 4 || f.header.bits_per_sample > 32 || f.header.blocksize > 65535 || b.size() != 8 + 4ull * f.header.channels * f.header.blocksize) { d->e(d, FLAC__STREAM_DECODER_ERROR_STATUS_FRAME_CRC_MISMATCH, d->c); return true; }
  std::vector<std::vector<int32_t>> ch(f.header.channels, std::vector<int32_t>(f.header.blocksize));
  for (uint32_t i = 0, o = 8; i < f.header.blocksize; ++i)
    for (uint32_t c = 0; c < f.header.channels; ++c, o += 4) {
      const uint32_t u = b[o] | b[o + 1] << 8 | b[o + 2] << 16 | static_cast<uint32_t>(b[o + 3]) << 24;
      int64_t x = static_cast<int32_t>(u);
      const int64_t lim = int64_t{1} << (f.header.bits_per_sample - 1);
      if (x >= lim || x < -lim) x = 0;  // libFLAC never yields an out-of-range sample.
      ch[c][i] = static_cast<int32_t>(x);
    }
  std::vector<const int32_t*> p;
  for (auto& v : ch) p.push_back(v.data());
  return d->w(d, &f, p.data(), d->c) == FLAC__STREAM_DECODER_WRITE_STATUS_CONTINUE;
}

// ---- AAC ----
struct AACENCODER { int ch = 2; int mode = 0; bool ready = false; std::deque<int16_t> fifo; };
static const int kAacDelay = 2048, kAacFrame = 1024;
AACENC_ERROR aacEncOpen(HANDLE_AACENCODER* h, UINT, UINT max) { *h = new AACENCODER; (*h)->ch = max; return AACENC_OK; }
AACENC_ERROR aacEncClose(HANDLE_AACENCODER* h) { if (!h || !*h) return AACENC_INVALID_HANDLE; delete *h; *h = nullptr; return AACENC_OK; }
AACENC_ERROR aacEncoder_SetParam(HANDLE_AACENCODER h, AACENC_PARAM p, UINT v) {
  if (!h) return AACENC_INVALID_HANDLE;
  if (p == AACENC_CHANNELMODE) h->mode = v;
  if (p == AACENC_BITRATEMODE && v > 5) return AACENC_INVALID_CONFIG;
  if (p == AACENC_SIGNALING_MODE && v > 2) return AACENC_INVALID_CONFIG;
  return AACENC_OK;
}
AACENC_ERROR aacEncInfo(HANDLE_AACENCODER h, AACENC_InfoStruct* i) {
  if (!h) return AACENC_INVALID_HANDLE;
  memset(i, 0, sizeof *i);
  i->maxOutBufBytes = 8 + 2 * kAacFrame * h->ch; i->inputChannels = h->ch; i->frameLength = kAacFrame; i->nDelay = kAacDelay; i->nDelayCore = kAacDelay;
  return AACENC_OK;
}
AACENC_ERROR aacEncEncode(HANDLE_AACENCODER h, const AACENC_BufDesc* in, const AACENC_BufDesc* out, const AACENC_InArgs* ia, AACENC_OutArgs* oa) {
  if (!h) return AACENC_INVALID_HANDLE;
  if (!in) { h->ready = true; h->fifo.assign(static_cast<size_t>(kAacDelay) * h->ch, 0); return AACENC_OK; }
  memset(oa, 0, sizeof *oa);
  const int n = ia->numInSamples;
  if (n > kAacFrame * h->ch || out->bufSizes[0] < 4 + 2 * n) return AACENC_ENCODE_ERROR;
  auto* pcm = static_cast<const int16_t*>(in->bufs[0]);
  auto* o = static_cast<uint8_t*>(out->bufs[0]);
  for (int i = 0; i < n; ++i) h->fifo.push_back(pcm[i]);
  o[0] = 'A'; o[1] = h->ch; o[2] = (n / h->ch) & 0xff; o[3] = (n / h->ch) >> 8;
  for (int i = 0; i < n; ++i) { const uint16_t v = h->fifo.front(); h->fifo.pop_front(); o[4 + 2 * i] = v & 0xff; o[5 + 2 * i] = v >> 8; }
  oa->numOutBytes = 4 + 2 * n; oa->numInSamples = n;
  return AACENC_OK;
}
struct AAC_DECODER_INSTANCE { CStreamInfo si{0, 0, 0}; int ch = 0; std::vector<uint8_t> buf; };
HANDLE_AACDECODER aacDecoder_Open(TRANSPORT_TYPE, UINT) { return new AAC_DECODER_INSTANCE; }
AAC_DECODER_ERROR aacDecoder_ConfigRaw(HANDLE_AACDECODER h, UCHAR* conf[], const UINT len[]) {
  if (len[0] < 2) return AAC_DEC_TRANSPORT_ERROR;
  const int sfi = (conf[0][0] & 7) << 1 | conf[0][1] >> 7;
  if (sfi == 15) { if (len[0] < 5) return AAC_DEC_TRANSPORT_ERROR; h->ch = (conf[0][4] >> 3) & 15; }
  else h->ch = (conf[0][1] >> 3) & 15;
  h->si.numChannels = h->ch;
  return AAC_DEC_OK;
}
AAC_DECODER_ERROR aacDecoder_SetParam(HANDLE_AACDECODER, AACDEC_PARAM, INT) { return AAC_DEC_OK; }
AAC_DECODER_ERROR aacDecoder_Fill(HANDLE_AACDECODER h, UCHAR* buf[], const UINT size[], UINT* valid) {
  if (h->buf.size() + *valid > 100000) return AAC_DEC_OK;
  h->buf.assign(buf[0] + size[0] - *valid, buf[0] + size[0]); *valid = 0; return AAC_DEC_OK;
}
AAC_DECODER_ERROR aacDecoder_DecodeFrame(HANDLE_AACDECODER h, INT_PCM* out, INT size, UINT) {
  auto b = std::move(h->buf); h->buf.clear();
  if (b.size() < 4) return AAC_DEC_NOT_ENOUGH_BITS;
  if (b[0] != 'A' || b[1] != h->ch) return AAC_DEC_PARSE_ERROR;
  const int n = (b[2] | b[3] << 8) * h->ch;
  if (b.size() != 4 + 2u * n) return AAC_DEC_DECODE_FRAME_ERROR;
  if (n > size) return AAC_DEC_OUTPUT_BUFFER_TOO_SMALL;
  for (int i = 0; i < n; ++i) out[i] = static_cast<int16_t>(b[4 + 2 * i] | b[5 + 2 * i] << 8);
  return AAC_DEC_OK;
}
CStreamInfo* aacDecoder_GetStreamInfo(HANDLE_AACDECODER h) { return &h->si; }
void aacDecoder_Close(HANDLE_AACDECODER h) { delete h; }

// ---- WAV ----
static bool Rd(FILE* f, void* p, size_t n) { return fread(p, 1, n, f) == n; }
static uint32_t U32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | static_cast<uint32_t>(p[3]) << 24; }
static uint16_t U16(const uint8_t* p) { return p[0] | p[1] << 8; }
int ReadWavHeader(FILE* f, ReadWavInfo* info) {
  uint8_t h[12];
  if (!Rd(f, h, 12) || memcmp(h, "RIFF", 4) || memcmp(h + 8, "WAVE", 4)) return 0;
  bool fmt = false;
  for (;;) {
    uint8_t c[8];
    if (!Rd(f, c, 8)) return 0;
    const uint32_t n = U32(c + 4);
    if (!memcmp(c, "fmt ", 4)) {
      if (n < 16 || n > 4096) return 0;
      std::vector<uint8_t> b(n);
      if (!Rd(f, b.data(), n)) return 0;
      int tag = U16(&b[0]);
      if (tag == 0xfffe && n >= 26) tag = U16(&b[24]);
      info->num_channels = U16(&b[2]); info->sample_rate_hz = static_cast<int>(U32(&b[4])); info->bit_depth = U16(&b[14]);
      if (info->num_channels < 1 || info->sample_rate_hz <= 0) return 0;
      if (tag == 1) { if (info->bit_depth != 16 && info->bit_depth != 24 && info->bit_depth != 32) return 0; info->sample_format = info->bit_depth == 16 ? ReadWavInfo::kInt16 : ReadWavInfo::kInt32; }
      else if (tag == 3) { if (info->bit_depth != 32 && info->bit_depth != 64) return 0; info->sample_format = ReadWavInfo::kFloat; }
      else return 0;
      info->encoding = tag; info->destination_alignment_bytes = info->bit_depth == 16 ? 2 : 4;
      fmt = true;
    } else if (!memcmp(c, "data", 4)) {
      if (!fmt) return 0;
      info->remaining_samples = n / (info->bit_depth / 8);
      return 1;
    } else {
      if (fseek(f, n + (n & 1), SEEK_CUR)) return 0;
    }
  }
}
size_t ReadWavSamples(FILE* f, ReadWavInfo* info, void* out, size_t n) {
  if (n > info->remaining_samples) n = info->remaining_samples;
  n -= n % info->num_channels;
  const int bytes = info->bit_depth / 8;
  std::vector<uint8_t> b(n * bytes);
  size_t got = b.empty() ? 0 : fread(b.data(), 1, b.size(), f) / bytes;
  if (got < n) info->remaining_samples = 0; else info->remaining_samples -= n;
  got -= got % info->num_channels;
  for (size_t i = 0; i < got; ++i) {
    const uint8_t* p = &b[i * bytes];
    if (info->sample_format == ReadWavInfo::kFloat) {
      float x;
      if (bytes == 4) memcpy(&x, p, 4); else { double d; memcpy(&d, p, 8); x = static_cast<float>(d); }
      memcpy(static_cast<uint8_t*>(out) + 4 * i, &x, 4);
    } else if (info->destination_alignment_bytes == 2) {
      memcpy(static_cast<uint8_t*>(out) + 2 * i, p, 2);
    } else {
      uint32_t v = bytes == 2 ? static_cast<uint32_t>(U16(p)) << 16 : bytes == 3 ? (p[0] << 8 | p[1] << 16 | static_cast<uint32_t>(p[2]) << 24) : U32(p);
      memcpy(static_cast<uint8_t*>(out) + 4 * i, &v, 4);
    }
  }
  return got;
}
// 1: the extensible header of more than two channels or 16 bits (72 bytes before the data chunk), which the ADM converter expects.
int vext_wav_extensible = 0;
int vext_wav_fail_header = 0;  // 1: headers cannot be written.
static int WriteHdr(FILE* f, size_t num, int rate, int ch, int bits) {
  if (vext_wav_fail_header) return 0;
  if (vext_wav_extensible && (ch > 2 || bits > 16)) {
    const int bytes = bits / 8;
    const uint32_t data = static_cast<uint32_t>(num * bytes);
    std::vector<uint8_t> h;
    auto str = [&](const char* s) { h.insert(h.end(), s, s + 4); };
    auto put = [&](uint32_t v, int n) { for (int k = 0; k < n; ++k) h.push_back(v >> (8 * k)); };
    str("RIFF"); put(72 + data, 4); str("WAVE"); str("fmt "); put(40, 4);
    put(0xfffe, 2); put(ch, 2); put(rate, 4); put(static_cast<uint32_t>(rate) * bytes * ch, 4); put(bytes * ch, 2); put(bits, 2);
    put(22, 2); put(bits, 2); put(0, 4); put(1, 2);
    const uint8_t guid[14] = {0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71}; h.insert(h.end(), guid, guid + 14);
    str("fact"); put(4, 4); put(static_cast<uint32_t>(num / std::max(ch, 1)), 4); str("data"); put(data, 4);
    return fwrite(h.data(), 1, h.size(), f) == h.size();
  }
  const int bytes = bits / 8;
  const uint32_t data = static_cast<uint32_t>(num * bytes);
  uint8_t h[44] = {'R','I','F','F',0,0,0,0,'W','A','V','E','f','m','t',' ',16,0,0,0,1,0};
  auto p32 = [&](int o, uint32_t v) { for (int k = 0; k < 4; ++k) h[o + k] = v >> (8 * k); };
  auto p16 = [&](int o, uint32_t v) { h[o] = v; h[o + 1] = v >> 8; };
  p32(4, 36 + data); p16(22, ch); p32(24, rate); p32(28, static_cast<uint32_t>(rate) * bytes * ch); p16(32, bytes * ch); p16(34, bits);
  memcpy(h + 36, "data", 4); p32(40, data);
  return fwrite(h, 1, 44, f) == 44;
}
int WriteWavHeader(FILE* f, size_t n, int r, int c) { return WriteHdr(f, n, r, c, 16); }
int WriteWavHeader24Bit(FILE* f, size_t n, int r, int c) { return WriteHdr(f, n, r, c, 24); }
int WriteWavHeader32Bit(FILE* f, size_t n, int r, int c) { return WriteHdr(f, n, r, c, 32); }
int WriteWavSamples(FILE* f, const int16_t* s, size_t n) { return fwrite(s, 2, n, f) == n; }

// libopus's projection matrices; any fixed values serve, they only have to be told apart.
namespace vext {
template <int N> struct Matrix { opus_int16 v[N * N]; };
template <int N> constexpr Matrix<N> MakeMatrix() {
  Matrix<N> m{};
  unsigned s = 12345 + N;
  for (int i = 0; i < N * N; ++i) { s = s * 1103515245u + 12345u; m.v[i] = static_cast<opus_int16>(static_cast<int>((s >> 8) & 0xffff) - 32768); }
  return m;
}
}  // namespace vext
extern "C" {
extern const vext::Matrix<18> mapping_matrix_toa_demixing_data;
extern const vext::Matrix<27> mapping_matrix_fourthoa_demixing_data;
const vext::Matrix<18> mapping_matrix_toa_demixing_data = vext::MakeMatrix<18>();
const vext::Matrix<27> mapping_matrix_fourthoa_demixing_data = vext::MakeMatrix<27>();
}
