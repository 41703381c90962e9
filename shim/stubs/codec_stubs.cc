// Stand-ins for libopus / libFLAC / fdk-aac / audio-to-tactile, none of which
// is installed: PCM pass-through "codecs" with a fixed look-ahead, and a plain
// RIFF reader and writer. They make the code around the codecs executable.
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <vector>
#include "include/FLAC/stream_decoder.h"
#include "include/FLAC/stream_encoder.h"
#include "include/opus.h"
#include "libAACdec/include/aacdecoder_lib.h"
#include "libAACenc/include/aacenc_lib.h"
#include "src/dsp/read_wav_file.h"
#include "src/dsp/write_wav_file.h"

extern "C" {
// ---- Opus: look-ahead 312 samples at 48 kHz unless told otherwise, payload = "O", n(2), float pcm.
int g_opus_lookahead = 312;
struct OpusEncoder { int ch; std::vector<float> delay; };
struct OpusDecoder { int ch; };
OpusEncoder* opus_encoder_create(opus_int32, int ch, int, int* err) {
  *err = OPUS_OK;
  return new OpusEncoder{ch, std::vector<float>(g_opus_lookahead * ch, 0.0f)};
}
int opus_encoder_ctl(OpusEncoder*, int request, ...) {
  va_list ap;
  va_start(ap, request);
  if (request == OPUS_GET_LOOKAHEAD_REQUEST) *va_arg(ap, opus_int32*) = g_opus_lookahead;
  va_end(ap);
  return OPUS_OK;
}
void opus_encoder_destroy(OpusEncoder* e) { delete e; }
opus_int32 opus_encode_float(OpusEncoder* e, const float* pcm, int n, unsigned char* out, opus_int32 max) {
  const size_t k = size_t(n) * e->ch;
  size_t need = 3 + k * 4;
  const bool tight = need > size_t(max);  // then 16 bits: "P", n(2), int16 LE
  if (tight) need = 3 + k * 2;
  if (need > size_t(max)) return OPUS_BUFFER_TOO_SMALL;
  e->delay.insert(e->delay.end(), pcm, pcm + size_t(n) * e->ch);
  out[0] = tight ? 'P' : 'O'; out[1] = n >> 8; out[2] = n & 255;
  if (!tight) std::memcpy(out + 3, e->delay.data(), k * 4);
  for (size_t i = 0; tight && i < k; ++i) {
    const int v = int(std::lrint(e->delay[i] * 32768.0f));
    out[3 + 2 * i] = v & 255;
    out[4 + 2 * i] = (v >> 8) & 255;
  }
  e->delay.erase(e->delay.begin(), e->delay.begin() + size_t(n) * e->ch);
  return need;
}
opus_int32 opus_encode(OpusEncoder* e, const opus_int16* pcm, int n, unsigned char* out, opus_int32 max) {
  std::vector<float> f(size_t(n) * e->ch);
  for (size_t i = 0; i < f.size(); ++i) f[i] = pcm[i] / 32768.0f;
  return opus_encode_float(e, f.data(), n, out, max);
}
OpusDecoder* opus_decoder_create(opus_int32, int ch, int* err) {
  *err = OPUS_OK;
  return new OpusDecoder{ch};
}
void opus_decoder_destroy(OpusDecoder* d) { delete d; }
int opus_decode_float(OpusDecoder* d, const unsigned char* data, opus_int32 len, float* pcm, int frame_size, int) {
  if (len < 3 || (data[0] != 'O' && data[0] != 'P')) return OPUS_INVALID_PACKET;
  int n = data[1] << 8 | data[2];
  if (data[0] == 'P') {
    if (len != 3 + n * d->ch * 2) return OPUS_INVALID_PACKET;
    if (n > frame_size) return OPUS_BUFFER_TOO_SMALL;
    for (int i = 0; i < n * d->ch; ++i) pcm[i] = int16_t(data[3 + 2 * i] | data[4 + 2 * i] << 8) / 32768.0f;
    return n;
  }
  if (len != 3 + n * d->ch * 4) return OPUS_INVALID_PACKET;
  if (n > frame_size) return OPUS_BUFFER_TOO_SMALL;
  std::memcpy(pcm, data + 3, size_t(n) * d->ch * 4);
  return n;
}

// ---- FLAC: payload = "F", ch, bps, n(2), int32 LE interleaved.
struct FLAC__StreamDecoder {
  FLAC__StreamDecoderReadCallback r = nullptr;
  FLAC__StreamDecoderWriteCallback w = nullptr;
  FLAC__StreamDecoderErrorCallback e = nullptr;
  void* c = nullptr;
};
FLAC__StreamDecoder* FLAC__stream_decoder_new(void) { return new FLAC__StreamDecoder; }
void FLAC__stream_decoder_delete(FLAC__StreamDecoder* d) { delete d; }
FLAC__bool FLAC__stream_decoder_finish(FLAC__StreamDecoder*) { return 1; }
FLAC__StreamDecoderInitStatus FLAC__stream_decoder_init_stream(FLAC__StreamDecoder* d, FLAC__StreamDecoderReadCallback r, void*, void*, void*, void*, FLAC__StreamDecoderWriteCallback w, void*, FLAC__StreamDecoderErrorCallback e, void* c) {
  d->r = r; d->w = w; d->e = e; d->c = c;
  return FLAC__STREAM_DECODER_INIT_STATUS_OK;
}
FLAC__bool FLAC__stream_decoder_process_single(FLAC__StreamDecoder* d) {
  std::vector<FLAC__byte> in;
  for (;;) {
    FLAC__byte b[64];
    size_t n = sizeof(b);
    auto s = d->r(d, b, &n, d->c);
    if (s == FLAC__STREAM_DECODER_READ_STATUS_ABORT) return 0;
    in.insert(in.end(), b, b + n);
    if (s == FLAC__STREAM_DECODER_READ_STATUS_END_OF_STREAM) break;
  }
  if (in.size() < 5 || in[0] != 'F') {
    d->e(d, FLAC__STREAM_DECODER_ERROR_STATUS_LOST_SYNC, d->c);
    return in.empty() ? 1 : 0;
  }
  FLAC__Frame f;
  f.header.channels = in[1];
  f.header.bits_per_sample = in[2];
  f.header.blocksize = in[3] << 8 | in[4];
  f.header.sample_rate = 0;
  const size_t n = f.header.blocksize, ch = f.header.channels;
  if (in.size() != 5 + n * ch * 4) return 0;
  std::vector<std::vector<FLAC__int32>> b(ch, std::vector<FLAC__int32>(n));
  for (size_t t = 0; t < n; ++t)
    for (size_t c = 0; c < ch; ++c) std::memcpy(&b[c][t], &in[5 + (t * ch + c) * 4], 4);
  std::vector<const FLAC__int32*> p;
  for (auto& x : b) p.push_back(x.data());
  return d->w(d, &f, p.data(), d->c) == FLAC__STREAM_DECODER_WRITE_STATUS_CONTINUE;
}
const char* const FLAC__StreamEncoderInitStatusString[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13"};
struct FLAC__StreamEncoder {
  uint32_t ch = 2, bps = 16, bs = 0, idx = 0;
  FLAC__StreamEncoderWriteCallback w = nullptr;
  FLAC__StreamEncoderMetadataCallback m = nullptr;
  void* c = nullptr;
  std::vector<std::vector<FLAC__byte>> pending;
  std::vector<uint32_t> pending_n;
};
FLAC__StreamEncoder* FLAC__stream_encoder_new(void) { return new FLAC__StreamEncoder; }
void FLAC__stream_encoder_delete(FLAC__StreamEncoder* e) { delete e; }
FLAC__bool FLAC__stream_encoder_set_channels(FLAC__StreamEncoder* e, uint32_t v) { e->ch = v; return 1; }
FLAC__bool FLAC__stream_encoder_set_bits_per_sample(FLAC__StreamEncoder* e, uint32_t v) { e->bps = v; return 1; }
FLAC__bool FLAC__stream_encoder_set_sample_rate(FLAC__StreamEncoder*, uint32_t) { return 1; }
FLAC__bool FLAC__stream_encoder_set_blocksize(FLAC__StreamEncoder* e, uint32_t v) { e->bs = v; return 1; }
FLAC__bool FLAC__stream_encoder_set_total_samples_estimate(FLAC__StreamEncoder*, FLAC__uint64) { return 1; }
FLAC__bool FLAC__stream_encoder_set_compression_level(FLAC__StreamEncoder*, uint32_t) { return 1; }
FLAC__bool FLAC__stream_encoder_set_verify(FLAC__StreamEncoder*, FLAC__bool) { return 1; }
FLAC__StreamEncoderInitStatus FLAC__stream_encoder_init_stream(FLAC__StreamEncoder* e, FLAC__StreamEncoderWriteCallback w, void*, void*, FLAC__StreamEncoderMetadataCallback m, void* c) {
  e->w = w; e->m = m; e->c = c;
  FLAC__byte magic[4] = {'f', 'L', 'a', 'C'};
  e->w(e, magic, 4, 0, 0, c);
  return FLAC__STREAM_ENCODER_INIT_STATUS_OK;
}
static void FlacEmit(FLAC__StreamEncoder* e) {
  // Like libFLAC, a frame is written only when a later one is started.
  for (size_t i = 0; i < e->pending.size(); ++i, ++e->idx)
    e->w(e, e->pending[i].data(), e->pending[i].size(), e->pending_n[i], e->idx, e->c);
  e->pending.clear();
  e->pending_n.clear();
}
FLAC__bool FLAC__stream_encoder_process_interleaved(FLAC__StreamEncoder* e, const FLAC__int32 buf[], uint32_t n) {
  FlacEmit(e);
  std::vector<FLAC__byte> out = {'F', FLAC__byte(e->ch), FLAC__byte(e->bps), FLAC__byte(n >> 8), FLAC__byte(n)};
  out.resize(5 + size_t(n) * e->ch * 4);
  std::memcpy(out.data() + 5, buf, size_t(n) * e->ch * 4);
  e->pending.push_back(out);
  e->pending_n.push_back(n);
  return 1;
}
FLAC__bool FLAC__stream_encoder_finish(FLAC__StreamEncoder* e) {
  FlacEmit(e);
  FLAC__StreamMetadata m{FLAC__METADATA_TYPE_STREAMINFO, 1, 34};
  if (e->m) e->m(e, &m, e->c);
  return 1;
}

// ---- AAC: look-ahead 2048, payload = "A", ch, n(2), int16 LE interleaved.
struct AAC_DECODER_INSTANCE { int ch = 2; std::vector<UCHAR> in; CStreamInfo info{48000, 1024, 2}; };
HANDLE_AACDECODER aacDecoder_Open(TRANSPORT_TYPE, UINT) { return new AAC_DECODER_INSTANCE; }
void aacDecoder_Close(HANDLE_AACDECODER d) { delete d; }
AAC_DECODER_ERROR aacDecoder_ConfigRaw(HANDLE_AACDECODER, UCHAR*[], const UINT[]) { return AAC_DEC_OK; }
AAC_DECODER_ERROR aacDecoder_SetParam(HANDLE_AACDECODER d, AACDEC_PARAM p, INT v) {
  if (p == AAC_PCM_MAX_OUTPUT_CHANNELS) d->ch = d->info.numChannels = v;
  return AAC_DEC_OK;
}
AAC_DECODER_ERROR aacDecoder_Fill(HANDLE_AACDECODER d, UCHAR* b[], const UINT s[], UINT* valid) {
  d->in.assign(b[0], b[0] + s[0]);
  *valid = 0;
  return AAC_DEC_OK;
}
AAC_DECODER_ERROR aacDecoder_DecodeFrame(HANDLE_AACDECODER d, INT_PCM* out, INT size, UINT) {
  if (d->in.size() < 4 || d->in[0] != 'A') return AAC_DEC_PARSE_ERROR;
  size_t n = d->in[2] << 8 | d->in[3], k = n * d->in[1];
  if (d->in.size() != 4 + 2 * k) return AAC_DEC_PARSE_ERROR;
  if (k > size_t(size)) return AAC_DEC_OUTPUT_BUFFER_TOO_SMALL;
  std::memcpy(out, d->in.data() + 4, 2 * k);
  return AAC_DEC_OK;
}
CStreamInfo* aacDecoder_GetStreamInfo(HANDLE_AACDECODER d) { return &d->info; }
struct AACENCODER { UINT ch = 2; std::vector<INT_PCM> delay; };
AACENC_ERROR aacEncOpen(HANDLE_AACENCODER* e, UINT, UINT ch) {
  *e = new AACENCODER;
  (*e)->ch = ch;
  (*e)->delay.assign(2048 * ch, 0);
  return AACENC_OK;
}
AACENC_ERROR aacEncClose(HANDLE_AACENCODER* e) { delete *e; *e = nullptr; return AACENC_OK; }
AACENC_ERROR aacEncInfo(HANDLE_AACENCODER e, AACENC_InfoStruct* i) {
  *i = {};
  i->maxOutBufBytes = 4 + 1024 * e->ch * 2;
  i->inputChannels = e->ch;
  i->frameLength = 1024;
  i->nDelay = i->nDelayCore = 2048;
  return AACENC_OK;
}
AACENC_ERROR aacEncoder_SetParam(HANDLE_AACENCODER, AACENC_PARAM, UINT) { return AACENC_OK; }
AACENC_ERROR aacEncEncode(HANDLE_AACENCODER e, const AACENC_BufDesc* in, const AACENC_BufDesc* out, const AACENC_InArgs* a, AACENC_OutArgs* o) {
  if (in == nullptr) return AACENC_OK;
  auto* p = static_cast<INT_PCM*>(in->bufs[0]);
  size_t k = a->numInSamples, n = k / e->ch;
  e->delay.insert(e->delay.end(), p, p + k);
  auto* b = static_cast<UCHAR*>(out->bufs[0]);
  if (size_t(out->bufSizes[0]) < 4 + 2 * k) return AACENC_ENCODE_ERROR;
  b[0] = 'A'; b[1] = e->ch; b[2] = n >> 8; b[3] = n & 255;
  std::memcpy(b + 4, e->delay.data(), 2 * k);
  e->delay.erase(e->delay.begin(), e->delay.begin() + k);
  o->numOutBytes = 4 + 2 * k;
  o->numInSamples = k;
  return AACENC_OK;
}

// ---- WAV.
static uint32_t Le(const unsigned char* p, int n) {
  uint32_t v = 0;
  for (int i = 0; i < n; ++i) v |= uint32_t(p[i]) << (8 * i);
  return v;
}
int ReadWavHeader(FILE* f, ReadWavInfo* info) {
  unsigned char h[12];
  if (fread(h, 1, 12, f) != 12 || memcmp(h, "RIFF", 4) || memcmp(h + 8, "WAVE", 4)) return 0;
  bool fmt = false;
  for (;;) {
    unsigned char c[8];
    if (fread(c, 1, 8, f) != 8) return 0;
    uint32_t size = Le(c + 4, 4);
    if (!memcmp(c, "fmt ", 4)) {
      if (size < 16 || size > 4096) return 0;
      std::vector<unsigned char> b(size + (size & 1));
      if (fread(b.data(), 1, b.size(), f) != b.size()) return 0;
      int tag = Le(&b[0], 2);
      if (tag == 0xfffe && size >= 26) tag = Le(&b[24], 2);
      info->num_channels = Le(&b[2], 2);
      info->sample_rate_hz = Le(&b[4], 4);
      info->bit_depth = Le(&b[14], 2);
      if (info->num_channels <= 0) return 0;
      if (tag == 1 && info->bit_depth == 16) {
        info->encoding = ReadWavInfo::kPcm16Encoding; info->sample_format = ReadWavInfo::kInt16; info->destination_alignment_bytes = 2;
      } else if (tag == 1 && info->bit_depth == 24) {
        info->encoding = ReadWavInfo::kPcm24Encoding; info->sample_format = ReadWavInfo::kInt24In32; info->destination_alignment_bytes = 4;
      } else if (tag == 1 && info->bit_depth == 32) {
        info->encoding = ReadWavInfo::kPcm32Encoding; info->sample_format = ReadWavInfo::kInt32; info->destination_alignment_bytes = 4;
      } else if (tag == 3 && info->bit_depth == 32) {
        info->encoding = ReadWavInfo::kIeeeFloat32Encoding; info->sample_format = ReadWavInfo::kFloat; info->destination_alignment_bytes = 4;
      } else if (tag == 3 && info->bit_depth == 64) {
        info->encoding = ReadWavInfo::kIeeeFloat64Encoding; info->sample_format = ReadWavInfo::kFloat; info->destination_alignment_bytes = 4;
      } else {
        return 0;
      }
      fmt = true;
    } else if (!memcmp(c, "data", 4)) {
      if (!fmt) return 0;
      info->remaining_samples = size / (info->bit_depth / 8);
      return 1;
    } else {
      if (fseek(f, size + (size & 1), SEEK_CUR) != 0) return 0;
    }
  }
}
size_t ReadWavSamples(FILE* f, ReadWavInfo* info, void* samples, size_t n) {
  n = std::min(n, info->remaining_samples);
  n -= n % info->num_channels;
  const int bytes = info->bit_depth / 8;
  auto* out = static_cast<int32_t*>(samples);
  size_t i = 0;
  for (; i < n; ++i) {
    unsigned char b[8];
    if (fread(b, 1, bytes, f) != size_t(bytes)) break;
    if (info->bit_depth == 64) {
      double d; float g;
      memcpy(&d, b, 8);
      g = float(d);
      memcpy(&out[i], &g, 4);
    } else if (info->sample_format == ReadWavInfo::kFloat) {
      memcpy(&out[i], b, 4);
    } else {
      out[i] = int32_t(Le(b, bytes) << (32 - info->bit_depth));
    }
  }
  if (i != n) {
    info->remaining_samples = 0;
    i -= i % info->num_channels;
  } else {
    info->remaining_samples -= i;
  }
  return i;
}
static int WriteHeader(FILE* f, size_t n, int rate, int ch, int bits) {
  unsigned char h[44];
  uint32_t data = n * (bits / 8);
  auto put = [&](int at, uint32_t v, int k) { for (int i = 0; i < k; ++i) h[at + i] = v >> (8 * i); };
  memcpy(h, "RIFF", 4); put(4, 36 + data, 4); memcpy(h + 8, "WAVEfmt ", 8); put(16, 16, 4);
  put(20, 1, 2); put(22, ch, 2); put(24, rate, 4); put(28, rate * ch * (bits / 8), 4); put(32, ch * (bits / 8), 2); put(34, bits, 2);
  memcpy(h + 36, "data", 4); put(40, data, 4);
  return fwrite(h, 1, 44, f) == 44;
}
int WriteWavHeader(FILE* f, size_t n, int r, int c) { return WriteHeader(f, n, r, c, 16); }
// WAVE_FORMAT_EXTENSIBLE with a `fact` chunk; the samples start at byte 80.
int WriteWavHeader24Bit(FILE* f, size_t n, int rate, int ch) {
  unsigned char h[80] = {};
  uint32_t data = n * 3;
  auto put = [&](int at, uint32_t v, int k) { for (int i = 0; i < k; ++i) h[at + i] = v >> (8 * i); };
  memcpy(h, "RIFF", 4); put(4, 72 + data, 4); memcpy(h + 8, "WAVEfmt ", 8); put(16, 40, 4);
  put(20, 0xfffe, 2); put(22, ch, 2); put(24, rate, 4); put(28, rate * ch * 3, 4); put(32, ch * 3, 2); put(34, 24, 2);
  put(36, 22, 2); put(38, 24, 2);
  static const unsigned char guid[16] = {1, 0, 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71};
  memcpy(h + 44, guid, 16); memcpy(h + 60, "fact", 4); put(64, 4, 4); put(68, ch ? n / ch : 0, 4);
  memcpy(h + 72, "data", 4); put(76, data, 4);
  return fwrite(h, 1, 80, f) == 80;
}
int WriteWavHeader32Bit(FILE* f, size_t n, int r, int c) { return WriteHeader(f, n, r, c, 32); }
}
