// Stand-in codec with libopus's interface: lossless 16-bit PCM packets plus a
// fixed lookahead delay. It exists so that the real wrapper code runs.
#pragma once
#include "include/opus_defines.h"
struct OpusEncoder; struct OpusDecoder;
OpusEncoder* opus_encoder_create(opus_int32 fs, int channels, int application, int* error);
void opus_encoder_destroy(OpusEncoder*);
int opus_encoder_ctl(OpusEncoder*, int request, ...);
opus_int32 opus_encode(OpusEncoder*, const opus_int16* pcm, int frame_size, unsigned char* data, opus_int32 max);
opus_int32 opus_encode_float(OpusEncoder*, const float* pcm, int frame_size, unsigned char* data, opus_int32 max);
OpusDecoder* opus_decoder_create(opus_int32 fs, int channels, int* error);
void opus_decoder_destroy(OpusDecoder*);
int opus_decode_float(OpusDecoder*, const unsigned char* data, opus_int32 len, float* pcm, int frame_size, int decode_fec);
