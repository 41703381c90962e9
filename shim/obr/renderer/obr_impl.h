// Stand-in for the binaural renderer (not installed): channel 0 -> left,
// last channel -> right.
#pragma once
#include "absl/status/status.h"
#include "obr/audio_buffer/audio_buffer.h"
#include "obr/renderer/audio_element_type.h"
namespace obr {
class ObrImpl {
 public:
  ObrImpl(int frames, int rate) : frames_(frames), rate_(rate) {}
  absl::Status AddAudioElement(AudioElementType t) {
    type_ = t;
    return absl::OkStatus();
  }
  size_t GetNumberOfInputChannels() const {
    switch (type_) {
      case AudioElementType::k1OA: return 4;
      case AudioElementType::k2OA: return 9;
      case AudioElementType::k3OA: return 16;
      case AudioElementType::k4OA: return 25;
      case AudioElementType::k5OA: return 36;
      case AudioElementType::k6OA: return 49;
      case AudioElementType::k7OA: return 64;
      case AudioElementType::kLayoutMono: return 1;
      case AudioElementType::kLayoutStereo: return 2;
      case AudioElementType::kLayout3_1_2_ch: return 6;
      case AudioElementType::kLayout5_1_0_ch: return 6;
      case AudioElementType::kLayout5_1_2_ch: return 8;
      case AudioElementType::kLayout5_1_4_ch: return 10;
      case AudioElementType::kLayout7_1_0_ch: return 8;
      case AudioElementType::kLayout7_1_2_ch: return 10;
      case AudioElementType::kLayout7_1_4_ch: return 12;
      case AudioElementType::kLayout9_1_6_ch: return 16;
      default: return 1;
    }
  }
  size_t GetNumberOfOutputChannels() const { return 2; }
  void Process(const AudioBuffer& in, AudioBuffer* out) {
    (*out)[0] = in[0];
    (*out)[1] = in[in.num_channels() - 1];
  }
 private:
  int frames_, rate_;
  AudioElementType type_ = AudioElementType::kInvalidType;
};
}
