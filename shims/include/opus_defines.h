#pragma once
#include "include/opus_types.h"
#define OPUS_OK 0
#define OPUS_BAD_ARG -1
#define OPUS_BUFFER_TOO_SMALL -2
#define OPUS_INTERNAL_ERROR -3
#define OPUS_INVALID_PACKET -4
#define OPUS_UNIMPLEMENTED -5
#define OPUS_INVALID_STATE -6
#define OPUS_ALLOC_FAIL -7
#define OPUS_APPLICATION_VOIP 2048
#define OPUS_APPLICATION_AUDIO 2049
#define OPUS_APPLICATION_RESTRICTED_LOWDELAY 2051
#define OPUS_AUTO -1000
#define OPUS_BITRATE_MAX -1
#define OPUS_SET_BITRATE_REQUEST 4002
#define OPUS_GET_LOOKAHEAD_REQUEST 4027
#define OPUS_SET_BITRATE(x) OPUS_SET_BITRATE_REQUEST, (opus_int32)(x)
#define OPUS_GET_LOOKAHEAD(x) OPUS_GET_LOOKAHEAD_REQUEST, (opus_int32*)(x)
