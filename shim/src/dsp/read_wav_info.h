// Stand-in for audio-to-tactile's WAV I/O (not installed).
#pragma once
#include <stddef.h>
#include <stdint.h>
struct ReadWavInfo {
  enum SampleFormat { kInt16, kInt24In32, kFloat, kInt32 };
  int num_channels;
  int sample_rate_hz;
  size_t remaining_samples;
  int bit_depth;
  int destination_alignment_bytes;
  enum Encoding { kPcm16Encoding, kPcm24Encoding, kMuLawEncoding, kIeeeFloat32Encoding, kIeeeFloat64Encoding, kPcm32Encoding };
  Encoding encoding;
  SampleFormat sample_format;
};
