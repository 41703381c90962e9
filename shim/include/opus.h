#pragma once
#include "include/opus_defines.h"
#include "include/opus_types.h"
extern "C" {
typedef struct OpusEncoder OpusEncoder;
typedef struct OpusDecoder OpusDecoder;
OpusEncoder* opus_encoder_create(opus_int32 fs, int channels, int app, int* err);
int opus_encoder_ctl(OpusEncoder* e, int request, ...);
void opus_encoder_destroy(OpusEncoder* e);
opus_int32 opus_encode(OpusEncoder* e, const opus_int16* pcm, int n, unsigned char* out, opus_int32 max);
opus_int32 opus_encode_float(OpusEncoder* e, const float* pcm, int n, unsigned char* out, opus_int32 max);
OpusDecoder* opus_decoder_create(opus_int32 fs, int channels, int* err);
void opus_decoder_destroy(OpusDecoder* d);
int opus_decode_float(OpusDecoder* d, const unsigned char* data, opus_int32 len, float* pcm, int frame_size, int fec);
}
