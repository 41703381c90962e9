#pragma once
#include <stdint.h>
typedef int32_t opus_int32;
typedef int16_t opus_int16;
typedef uint32_t opus_uint32;
