#pragma once
#include "include/FLAC/format.h"
extern "C" {
typedef enum { FLAC__STREAM_DECODER_READ_STATUS_CONTINUE, FLAC__STREAM_DECODER_READ_STATUS_END_OF_STREAM, FLAC__STREAM_DECODER_READ_STATUS_ABORT } FLAC__StreamDecoderReadStatus;
typedef enum { FLAC__STREAM_DECODER_WRITE_STATUS_CONTINUE, FLAC__STREAM_DECODER_WRITE_STATUS_ABORT } FLAC__StreamDecoderWriteStatus;
typedef enum { FLAC__STREAM_DECODER_ERROR_STATUS_LOST_SYNC, FLAC__STREAM_DECODER_ERROR_STATUS_BAD_HEADER, FLAC__STREAM_DECODER_ERROR_STATUS_FRAME_CRC_MISMATCH, FLAC__STREAM_DECODER_ERROR_STATUS_UNPARSEABLE_STREAM } FLAC__StreamDecoderErrorStatus;
typedef enum { FLAC__STREAM_DECODER_INIT_STATUS_OK = 0 } FLAC__StreamDecoderInitStatus;
typedef struct FLAC__StreamDecoder FLAC__StreamDecoder;
typedef FLAC__StreamDecoderReadStatus (*FLAC__StreamDecoderReadCallback)(const FLAC__StreamDecoder*, FLAC__byte[], size_t*, void*);
typedef FLAC__StreamDecoderWriteStatus (*FLAC__StreamDecoderWriteCallback)(const FLAC__StreamDecoder*, const FLAC__Frame*, const FLAC__int32* const[], void*);
typedef void (*FLAC__StreamDecoderErrorCallback)(const FLAC__StreamDecoder*, FLAC__StreamDecoderErrorStatus, void*);
FLAC__StreamDecoder* FLAC__stream_decoder_new(void);
void FLAC__stream_decoder_delete(FLAC__StreamDecoder*);
FLAC__bool FLAC__stream_decoder_finish(FLAC__StreamDecoder*);
FLAC__bool FLAC__stream_decoder_process_single(FLAC__StreamDecoder*);
FLAC__StreamDecoderInitStatus FLAC__stream_decoder_init_stream(FLAC__StreamDecoder*, FLAC__StreamDecoderReadCallback, void*, void*, void*, void*, FLAC__StreamDecoderWriteCallback, void*, FLAC__StreamDecoderErrorCallback, void*);
}
