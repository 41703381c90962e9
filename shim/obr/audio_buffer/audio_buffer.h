#pragma once
#include <cstddef>
#include <vector>
namespace obr {
class AudioBuffer {
 public:
  AudioBuffer() = default;
  AudioBuffer(size_t c, size_t f) : d_(c, std::vector<float>(f, 0.0f)), f_(f) {}
  size_t num_channels() const { return d_.size(); }
  size_t num_frames() const { return f_; }
  std::vector<float>& operator[](size_t c) { return d_[c]; }
  const std::vector<float>& operator[](size_t c) const { return d_[c]; }
  auto begin() { return d_.begin(); }
  auto end() { return d_.end(); }
  auto begin() const { return d_.begin(); }
  auto end() const { return d_.end(); }
  void Clear() { for (auto& c : d_) c.assign(f_, 0.0f); }
 private:
  std::vector<std::vector<float>> d_;
  size_t f_ = 0;
};
}
