#pragma once
#include <cstddef>
#include <vector>
namespace obr {
class AudioBuffer {
 public:
  using Channel = std::vector<float>;
  AudioBuffer(size_t num_channels, size_t num_frames) : c_(num_channels, Channel(num_frames, 0.f)), f_(num_frames) {}
  size_t num_channels() const { return c_.size(); }
  size_t num_frames() const { return f_; }
  Channel& operator[](size_t i) { return c_.at(i); }
  const Channel& operator[](size_t i) const { return c_.at(i); }
 private:
  std::vector<Channel> c_;
  size_t f_;
};
}
