#pragma once
#include <cstdint>
typedef int16_t opus_int16; typedef int32_t opus_int32; typedef uint32_t opus_uint32; typedef uint16_t opus_uint16;
