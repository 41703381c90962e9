#pragma once
#include <stdint.h>
typedef int16_t INT_PCM;
typedef unsigned char UCHAR;
typedef unsigned int UINT;
typedef int INT;
