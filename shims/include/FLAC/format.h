#pragma once
#include "include/FLAC/ordinals.h"
struct FLAC__FrameHeader { uint32_t blocksize, sample_rate, channels; int channel_assignment; uint32_t bits_per_sample; };
struct FLAC__Frame { FLAC__FrameHeader header; };
enum FLAC__MetadataType { FLAC__METADATA_TYPE_STREAMINFO = 0, FLAC__METADATA_TYPE_PADDING = 1 };
struct FLAC__StreamMetadata { FLAC__MetadataType type; FLAC__bool is_last; uint32_t length; };
