// Stand-in for the OBR binauraliser: a memoryless, linear two-channel mix.
#pragma once
#include <vector>
#include "absl/status/status.h"
#include "obr/audio_buffer/audio_buffer.h"
#include "obr/renderer/audio_element_type.h"
namespace obr {
class ObrImpl {
 public:
  ObrImpl(int buffer_size_per_channel, int sampling_rate) : n_(buffer_size_per_channel) { (void)sampling_rate; }
  absl::Status AddAudioElement(AudioElementType t) {
    switch (t) {
      case AudioElementType::k1OA: in_ = 4; break;
      case AudioElementType::k2OA: in_ = 9; break;
      case AudioElementType::k3OA: in_ = 16; break;
      case AudioElementType::k4OA: in_ = 25; break;
      case AudioElementType::kLayoutMono: case AudioElementType::kObjectMono: in_ = 1; break;
      case AudioElementType::kLayoutStereo: in_ = 2; break;
      case AudioElementType::kLayout3_1_2_ch: case AudioElementType::kLayout5_1_0_ch: in_ = 6; break;
      case AudioElementType::kLayout5_1_2_ch: case AudioElementType::kLayout7_1_0_ch: in_ = 8; break;
      case AudioElementType::kLayout5_1_4_ch: case AudioElementType::kLayout7_1_2_ch: in_ = 10; break;
      case AudioElementType::kLayout7_1_4_ch: in_ = 12; break;
      default: return absl::InvalidArgumentError("bad type");
    }
    return absl::OkStatus();
  }
  size_t GetNumberOfInputChannels() const { return in_; }
  size_t GetNumberOfOutputChannels() const { return 2; }
  void Process(const AudioBuffer& in, AudioBuffer* out) {
    for (size_t t = 0; t < out->num_frames(); ++t) {
      float l = 0, r = 0;
      for (size_t c = 0; c < in.num_channels(); ++c) {
        const float x = in[c][t];
        if (c % 2 == 0) { l += 0.5f * x; r += 0.25f * x; } else { r += 0.5f * x; l += 0.25f * x; }
      }
      (*out)[0][t] = l;
      (*out)[1][t] = r;
    }
  }
 private:
  int n_;
  size_t in_ = 0;
};
}
