#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
int WriteWavHeader(FILE* f, size_t num_samples, int sample_rate_hz, int num_channels);
int WriteWavHeader24Bit(FILE* f, size_t num_samples, int sample_rate_hz, int num_channels);
int WriteWavHeader32Bit(FILE* f, size_t num_samples, int sample_rate_hz, int num_channels);
int WriteWavSamples(FILE* f, const int16_t* samples, size_t num_samples);
