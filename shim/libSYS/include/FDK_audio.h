#pragma once
#include "libSYS/include/machine_type.h"
typedef enum { TT_MP4_RAW = 0, TT_MP4_ADTS = 2 } TRANSPORT_TYPE;
typedef enum { AOT_AAC_LC = 2 } AUDIO_OBJECT_TYPE;
typedef enum { MODE_1 = 1, MODE_2 = 2 } CHANNEL_MODE;
