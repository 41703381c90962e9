#pragma once
#include "include/FLAC/ordinals.h"
typedef enum { FLAC__METADATA_TYPE_STREAMINFO = 0, FLAC__METADATA_TYPE_PADDING = 1 } FLAC__MetadataType;
typedef struct { FLAC__MetadataType type; FLAC__bool is_last; uint32_t length; } FLAC__StreamMetadata;
typedef struct { uint32_t blocksize; uint32_t sample_rate; uint32_t channels; uint32_t bits_per_sample; } FLAC__FrameHeader;
typedef struct { FLAC__FrameHeader header; } FLAC__Frame;
