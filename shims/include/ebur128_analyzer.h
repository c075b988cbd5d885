// Stand-in for google/loudness_ebur128: an ungated, unweighted-filter
// mean-square loudness with the same interface.
#pragma once
#include <cmath>
#include <cstdint>
#include <optional>
#include <vector>
namespace loudness {
// What the analyzer of this thread was told, and what it has to answer.
struct Probe {
  int channels = 0, rate = 0; bool true_peak = false; std::vector<float> weights;
  std::vector<std::vector<double>> data; bool planar_double = true;
  bool answer = false; std::optional<float> integrated; float digital = 0, peak = 0;
};
inline thread_local Probe* probe = nullptr;
class EbuR128Analyzer {
 public:
  enum SampleFormat { S16, S32, FLOAT, DOUBLE };
  enum SampleLayout { INTERLEAVED, PLANAR_CONTIGUOUS, PLANAR_NON_CONTIGUOUS };
  EbuR128Analyzer(int32_t num_channels, const std::vector<float>& weights, int32_t rate, bool true_peak)
      : n_(num_channels), w_(weights) {
    if (probe) { probe->channels = num_channels; probe->rate = rate; probe->true_peak = true_peak; probe->weights = weights; probe->data.assign(num_channels, {}); }
  }
  void Process(const void* p, int64_t n, SampleFormat f, SampleLayout l) {
    auto* ch = static_cast<const double* const*>(p);
    if (probe) { probe->planar_double &= f == DOUBLE && l == PLANAR_NON_CONTIGUOUS; for (int c = 0; c < n_; ++c) probe->data[c].insert(probe->data[c].end(), ch[c], ch[c] + n); }
    for (int c = 0; c < n_; ++c)
      for (int64_t t = 0; t < n; ++t) {
        const double x = ch[c][t];
        if (std::fabs(x) > peak_) peak_ = std::fabs(x);
        e_ += w_.at(c) * x * x;
      }
    cnt_ += n;
  }
  std::optional<float> GetRelativeGatedIntegratedLoudness() const {
    if (probe && probe->answer) return probe->integrated;
    if (cnt_ == 0 || e_ / cnt_ < 1e-7) return std::nullopt;
    return static_cast<float>(-0.691 + 10 * std::log10(e_ / cnt_));
  }
  float digital_peak_dbfs() const { if (probe && probe->answer) return probe->digital; return static_cast<float>(20 * std::log10(peak_)); }
  float true_peak_dbfs() const { if (probe && probe->answer) return probe->peak; return static_cast<float>(20 * std::log10(peak_) + 0.25); }
 private:
  int n_;
  std::vector<float> w_;
  double peak_ = 0, e_ = 0;
  int64_t cnt_ = 0;
};
}
