#pragma once
#include <cstddef>
struct ReadWavInfo {
  int num_channels;
  int sample_rate_hz;
  size_t remaining_samples;
  int bit_depth;
  int destination_alignment_bytes;
  int encoding;
  enum WavSampleFormat { kInt16, kInt32, kFloat }; WavSampleFormat sample_format;
};
