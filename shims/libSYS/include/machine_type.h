#pragma once
typedef int INT; typedef unsigned int UINT; typedef short SHORT; typedef unsigned short USHORT; typedef signed char SCHAR; typedef unsigned char UCHAR;
typedef SHORT INT_PCM;
#define SAMPLE_BITS 16
