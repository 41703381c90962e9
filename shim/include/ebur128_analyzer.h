// Stand-in for loudness_ebur128 (not installed): deterministic placeholder.
#pragma once
#include <cmath>
#include <cstdint>
#include <optional>
#include <vector>
namespace loudness {
class EbuR128Analyzer {
 public:
  enum SampleFormat { S16, S32, FLOAT, DOUBLE };
  enum SampleLayout { INTERLEAVED, PLANAR_CONTIGUOUS, PLANAR_NON_CONTIGUOUS };
  EbuR128Analyzer(int32_t c, const std::vector<float>&, int32_t, bool) : c_(c) {}
  void Process(const void* const samples, int64_t n, SampleFormat, SampleLayout) {
    auto p = static_cast<const double* const*>(samples);
    for (int c = 0; c < c_; ++c)
      for (int64_t t = 0; t < n; ++t) {
        double a = std::fabs(p[c][t]);
        if (a > peak_) peak_ = a;
        sum_ += a * a;
      }
    n_ += n;
  }
  std::optional<float> GetRelativeGatedIntegratedLoudness() const {
    if (n_ == 0 || sum_ <= 0) return std::nullopt;
    return static_cast<float>(10.0 * std::log10(sum_ / n_) - 0.691);
  }
  float digital_peak_dbfs() const { return peak_ > 0 ? 20.0f * std::log10(peak_) : -INFINITY; }
  float true_peak_dbfs() const { return digital_peak_dbfs(); }
 private:
  int c_;
  double peak_ = 0, sum_ = 0;
  int64_t n_ = 0;
};
}
