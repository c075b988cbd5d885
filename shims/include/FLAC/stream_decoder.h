#pragma once
#include "include/FLAC/format.h"
struct FLAC__StreamDecoder;
enum FLAC__StreamDecoderReadStatus { FLAC__STREAM_DECODER_READ_STATUS_CONTINUE, FLAC__STREAM_DECODER_READ_STATUS_END_OF_STREAM, FLAC__STREAM_DECODER_READ_STATUS_ABORT };
enum FLAC__StreamDecoderWriteStatus { FLAC__STREAM_DECODER_WRITE_STATUS_CONTINUE, FLAC__STREAM_DECODER_WRITE_STATUS_ABORT };
enum FLAC__StreamDecoderErrorStatus { FLAC__STREAM_DECODER_ERROR_STATUS_LOST_SYNC, FLAC__STREAM_DECODER_ERROR_STATUS_BAD_HEADER, FLAC__STREAM_DECODER_ERROR_STATUS_FRAME_CRC_MISMATCH, FLAC__STREAM_DECODER_ERROR_STATUS_UNPARSEABLE_STREAM, FLAC__STREAM_DECODER_ERROR_STATUS_BAD_METADATA };
enum FLAC__StreamDecoderInitStatus { FLAC__STREAM_DECODER_INIT_STATUS_OK, FLAC__STREAM_DECODER_INIT_STATUS_INVALID_CALLBACKS };
typedef FLAC__StreamDecoderReadStatus (*FLAC__StreamDecoderReadCallback)(const FLAC__StreamDecoder*, FLAC__byte[], size_t*, void*);
typedef FLAC__StreamDecoderWriteStatus (*FLAC__StreamDecoderWriteCallback)(const FLAC__StreamDecoder*, const FLAC__Frame*, const FLAC__int32* const[], void*);
typedef void (*FLAC__StreamDecoderErrorCallback)(const FLAC__StreamDecoder*, FLAC__StreamDecoderErrorStatus, void*);
FLAC__StreamDecoder* FLAC__stream_decoder_new();
void FLAC__stream_decoder_delete(FLAC__StreamDecoder*);
FLAC__StreamDecoderInitStatus FLAC__stream_decoder_init_stream(FLAC__StreamDecoder*, FLAC__StreamDecoderReadCallback, void* seek, void* tell, void* length, void* eof, FLAC__StreamDecoderWriteCallback, void* metadata, FLAC__StreamDecoderErrorCallback, void* client);
FLAC__bool FLAC__stream_decoder_finish(FLAC__StreamDecoder*);
FLAC__bool FLAC__stream_decoder_process_single(FLAC__StreamDecoder*);
