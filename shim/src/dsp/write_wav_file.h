#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
extern "C" {
int WriteWavHeader(FILE* f, size_t num_samples, int sample_rate_hz, int num_channels);
int WriteWavHeader24Bit(FILE* f, size_t num_samples, int sample_rate_hz, int num_channels);
int WriteWavHeader32Bit(FILE* f, size_t num_samples, int sample_rate_hz, int num_channels);
}
