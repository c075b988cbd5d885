"""The properties, in one place; `python3 tools/props.py` writes properties.jsonl and MANIFEST.json.

A property is claimed when tools/checks.py has a check for it.
Entries: id, title, statement, over, quantifier text, why tests cannot settle it, files, mechanisms [(name, where)],
technique (deciding method), note (what the check assures and trusts).
"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


SAN = 'Code under test is compiled with AddressSanitizer and UndefinedBehaviorSanitizer, so every execution is also a memory-safety observation. '
NOTE = 'Held on the executions counted in the evidence file, not for all inputs. Third-party libraries (Opus, FLAC, FDK-AAC, OBR, protobuf, newer Abseil) are stand-ins in shims/. '

prop('C01', 'Hostile IAMF bytes never crash, hang or corrupt memory in decoder or parsers',
     'For any byte string, the streaming decoder, the descriptor parser and every OBU reader either consume it or return an error. '
     'They never read or write out of bounds, execute undefined behaviour, abort, loop without consuming input, or allocate memory out of proportion to the input.',
     ['inputs', 'histories'], 'all byte strings given whole or in pieces to the decoder, descriptor parsers and each OBU reader, in every order of API calls',
     'Tests feed a few hand-written malformed OBUs; the space of malformed nestings, sizes and counts is unbounded.',
     ['iamf/api/decoder/iamf_decoder.cc', 'iamf/cli/obu_processor.cc', 'iamf/obu', 'iamf/common/read_bit_buffer.cc'],
     [('bounded reads', 'iamf/common/read_bit_buffer.cc'), ('OBU payload bookkeeping', 'iamf/obu/obu_base.cc ReadAndValidatePayload'), ('decoder latch on error', 'iamf/api/decoder/iamf_decoder.cc')],
     'ASan+UBSan on structure-aware generated and mutated bitstreams, allocation cap monitor',
     NOTE + 'Streams come from an independent bit-level generator plus mutation of those and of the repository test vectors.')

prop('C02', 'Decoded output does not depend on how the input is split into chunks',
     'For every IA sequence and every way of cutting its bytes into successive decode calls, with output drained whenever available, the sequence of output samples, the reported stream parameters and the final status are the same as when the whole sequence is given at once.',
     ['inputs', 'histories', 'schedules'], 'all valid sequences x all chunkings, including byte by byte and cuts inside OBU headers, x interleavings of draining and feeding',
     'Tests try a couple of fixed split points on one or two streams.',
     ['iamf/api/decoder/iamf_decoder.cc', 'iamf/common/read_bit_buffer.cc', 'iamf/cli/obu_processor.cc'],
     [('stream buffer and rewind on short data', 'iamf/common/read_bit_buffer.cc StreamBasedReadBitBuffer'), ('resume after insufficient data', 'iamf/cli/obu_processor.cc ProcessTemporalUnit')],
     'differential monitor: chunked execution against one-shot execution of the real decoder',
     NOTE + 'LPCM streams with rendering to loudspeaker layouts.')

prop('C03', 'LPCM sequences decode to the exact coded samples with trimming conserved',
     'Decoding a sequence whose audio is LPCM and whose rendering is the identity yields exactly the coded samples, in presentation order, in the channel order of the output layout, converted to the requested sample type, with each temporal unit shortened by exactly its declared trim at start and end. '
     'No sample is lost, duplicated, reordered or attributed to another channel.',
     ['inputs', 'configurations'], 'all channel layouts with direct rendering, frame sizes, sample sizes, endianness, trims, substream orders and output sample types',
     'Tests cover a few layouts with short constant frames; the combination of layout, trimming, substream order and sample type is not enumerable by hand.',
     ['iamf/api/decoder/iamf_decoder.cc', 'iamf/cli/audio_frame_decoder.cc', 'iamf/cli/demixing_manager.cc', 'iamf/cli/obu_processor.cc'],
     [('substream to label mapping', 'iamf/cli/demixing_manager.cc'), ('trimming', 'iamf/cli/demixer.cc, iamf/cli/sample_processing_utils.cc'), ('sample serialisation', 'iamf/api/decoder/iamf_decoder.cc')],
     'reference-model oracle over decoder output (independent IAMF generator)', NOTE)

prop('C04', 'OBU serialisation and parsing are inverse for every OBU type',
     'Every OBU the library can hold and validates is written to bytes that the library reads back to an equal OBU, and whenever an OBU read from arbitrary bytes can be written again, the result reads back to an equal OBU. '
     'The written bytes follow the IAMF bit syntax, the size field covers exactly the payload, and reading consumes exactly the OBU. '
     'Values outside the limits of the syntax (counts, uniqueness, schedules, sizes, reserved values) are refused by readers and writers alike, and so is every truncated OBU.',
     ['inputs'], 'all field values of IA sequence header, codec config, audio element, mix presentation, parameter block, audio frame, temporal delimiter, metadata, arbitrary OBUs, with extensions and footers',
     'Tests check single examples of each OBU per field; combinations and border values are not covered, and round trips of mutated bytes not at all.',
     ['iamf/obu', 'iamf/obu/param_definitions', 'iamf/obu/decoder_config'],
     [('ValidateAndWritePayload / ReadAndValidatePayload pairs', 'iamf/obu/*.cc'), ('size computation', 'iamf/obu/obu_header.cc, iamf/obu/obu_base.cc')],
     'round-trip and independent bit-level reference encoder as oracles', NOTE)

prop('C05', 'Bit-level readers and writers are faithful for every access pattern',
     'Whatever bits, bytes, signed, string and variable-length values are written in whatever order, they are read back unchanged and in order from the memory, file and stream readers; positions, remaining-bit counts, seeks and flushes agree with a plain bit-string model. '
     'A read that asks for more than is available or for a value wider than its destination fails without returning wrong data.',
     ['inputs', 'histories'], 'all sequences of typed reads, writes, seeks, pushes and flushes with all widths, alignments, buffer capacities and data sources',
     'Tests use a few aligned and misaligned examples; buffer refills, seeks across buffers and flushes interact in ways a sample cannot settle.',
     ['iamf/common/read_bit_buffer.cc', 'iamf/common/read_bit_buffer.h', 'iamf/common/write_bit_buffer.cc'],
     [('aligned and unaligned paths', 'iamf/common/write_bit_buffer.cc'), ('buffer refill, seek and flush', 'iamf/common/read_bit_buffer.cc')],
     'bit-string reference model checked online over random operation histories under ASan+UBSan', NOTE)

prop('C06', 'Variable-length integers and OBU headers encode and decode exactly',
     'Every 32-bit value written in any permitted variable-length form (minimal, fixed size, ISO 14496-1 expanded, string) decodes to itself with the right byte count, values or forms outside the permitted range are refused, and OBU headers and sizes read and written agree with the IAMF header syntax for every flag, trim, extension and size combination. '
     'Peeking at an OBU returns the type and total size without consuming anything.',
     ['inputs', 'configurations'], 'all 32-bit values x generator modes x lengths; all header field combinations and truncated or damaged headers',
     'Tests check selected constants; overlong, padded, overflowing and truncated forms form a large space.',
     ['iamf/common/leb_generator.cc', 'iamf/common/read_bit_buffer.cc', 'iamf/common/write_bit_buffer.cc', 'iamf/obu/obu_header.cc'],
     [('LEB128 generation modes', 'iamf/common/leb_generator.cc'), ('LEB128 reading with bounds', 'iamf/common/read_bit_buffer.cc'), ('header size accounting', 'iamf/obu/obu_header.cc')],
     'reference codec oracle under ASan+UBSan', NOTE)

prop('C07', 'Fixed-point, range-checked and saturating numeric conversions are exact',
     'Q7.8/Q0.8 conversions, checked integer casts, checked additions and multiplications, clipping float-to-integer sample conversion and normalised integer conversion return the mathematically right value (within the stated rounding) exactly when it is representable, and an error or clipped value otherwise; none of them wraps, truncates silently or executes undefined behaviour.',
     ['inputs'], 'all argument values of every conversion and every instantiated type pair, including NaN, infinities and type limits',
     'Tests check a handful of constants per function.',
     ['iamf/common/utils/numeric_utils.h', 'iamf/common/utils/numeric_utils.cc', 'iamf/common/utils/validation_utils.h', 'iamf/common/utils/map_utils.h'],
     [('range checks before casts', 'iamf/common/utils/numeric_utils.h')],
     '128-bit and long-double arithmetic oracle, exhaustive on 8/16-bit domains, under UBSan', NOTE)

prop('C08', 'Probing an IA stream reports exactly what is in it',
     'For every IA sequence the probe reports every declared codec config, audio element, mix presentation, layout and loudness value as coded, groups the OBUs behind the descriptors into temporal units (byte offset of the first OBU, start time, samples, trims), lists every parameter block with its times and values, counts frames, samples and skipped blocks per substream, and derives the durations from them, from memory and from file alike; it stops at the end, at a truncated or malformed OBU, at the next sequence or when told to, and says which; incomplete descriptors ask for more bytes and damaged data is reported or refused, never a crash or endless work.',
     ['inputs'], 'all generated valid sequences with all OBU kinds, plus truncated, damaged and concatenated ones',
     'Tests use a few small synthetic streams.',
     ['iamf/cli/probe.cc', 'iamf/cli/probe.h'],
     [('OBU scan loop', 'iamf/cli/probe.cc')],
     'independent parser oracle over probe reports, ASan+UBSan', NOTE)

prop('C09', 'Probe JSON is always well formed and carries the probe report unchanged',
     'For every probe report the emitted JSON is valid, has the documented keys, and every string, number, boolean and list in it equals the corresponding value of the report, whatever bytes the strings hold (bytes from 0x80 up pass unchanged, floating-point values carry six significant digits); parts the report does not have are emitted as absent and never as defaults.',
     ['inputs', 'configurations'], 'all probe reports: any strings (control characters, quotes, non-ASCII, invalid UTF-8), any numbers including extremes, any mix of present and absent parts',
     'Tests look for a few substrings in the output of one or two reports.',
     ['iamf/cli/probe_json.cc', 'iamf/cli/probe.h'],
     [('string escaping', 'iamf/cli/probe_json.cc'), ('comma placement', 'iamf/cli/probe_json.cc')],
     'independent JSON parser and report model as oracle over random reports, ASan+UBSan', NOTE)

prop('C10', 'BW64/WAV chunk reading is exact, bounded and refuses damaged files',
     'For every RIFF byte stream the reader reports each chunk with its true offset and size and the format fields as stored, and hands the ADM text of the axml chunk byte for byte to the ADM parser, honouring even-byte padding. '
     'It refuses a file whose required chunks are missing or whose signatures are wrong, and never reads outside the file or allocates out of proportion to it.',
     ['inputs'], 'all chunk orders, sizes, paddings, duplicates, unknown chunks, truncations and corruptions, and all format field values',
     'Tests use a few fixed headers.',
     ['iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc', 'iamf/cli/adm_to_user_metadata/adm/bw64_reader.h'],
     [('chunk scan', 'iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc'), ('format validation', 'iamf/cli/adm_to_user_metadata/adm/bw64_reader.cc')],
     'independent RIFF parser as oracle over generated and damaged files, ASan+UBSan', NOTE)

prop('C11', 'WAV files written are standard and read back sample for sample',
     'Samples written to a WAV file are read back identical and in order for every bit depth, channel count, rate and chunking of the writes, the header describes exactly the data written, an aborted writer leaves no file, and a file that could not be stored completely is reported when it is flushed. '
     'Reading any WAV byte stream either yields exactly its samples or an error.',
     ['inputs', 'histories'], 'all bit depths, channel counts, rates, lengths including empty, write chunkings and malformed headers',
     'Tests write a few samples in fixed formats.',
     ['iamf/cli/wav_writer.cc', 'iamf/cli/wav_reader.cc', 'iamf/cli/wav_sample_provider.cc'],
     [('header maintenance', 'iamf/cli/wav_writer.cc'), ('header parsing', 'iamf/cli/wav_reader.cc')],
     'independent RIFF/WAVE codec as oracle, file-system observation, ASan+UBSan', NOTE)

prop('C12', 'Parameter animations evaluate to the specified curve at every time',
     'Interpolating a step, linear or quadratic Bezier animation at any time inside its segment gives the value defined by IAMF (endpoints exact, between the control values, monotone where the controls are), times outside the segment are refused, mix gains applied to audio follow that curve sample by sample in linear scale, and cutting a long parameter block into pieces keeps the curve (to the Q7.8 step) and covers its time without gap or overlap.',
     ['inputs'], 'all animation kinds, endpoints, control points, control times, durations and query times',
     'Tests evaluate a few points on a few curves.',
     ['iamf/common/utils/obu_util.h', 'iamf/obu/animated_parameter_data.h', 'iamf/obu/mix_gain_parameter_data.cc', 'iamf/obu/parameter_block.cc'],
     [('curve evaluation', 'iamf/common/utils/obu_util.h'), ('subblock lookup', 'iamf/obu/parameter_block.cc')],
     'exact-arithmetic curve oracle', NOTE)

prop('C13', 'Timestamps of audio and parameter blocks tile time without gap or overlap',
     'Every substream and every parameter receives consecutive timestamps starting at zero, each equal to the end of the previous one; trimmed audio frames keep their full duration in the timeline; parameter lookups return exactly the block covering the requested time and default values where the stream has no block; a temporal unit is accepted exactly when its frames and blocks agree in time, trims and identifiers, and its frames are ordered by element and substream; blocks cut at frame boundaries cover the original without gap, overlap or change of value; inconsistent streams are reported as errors.',
     ['histories', 'configurations'], 'all sequences of substream frames and parameter blocks with all durations, rates and parameter kinds',
     'Tests use short fixed sequences.',
     ['iamf/cli/global_timing_module.cc', 'iamf/cli/parameters_manager.cc', 'iamf/obu/param_definitions/subblock_schedule.cc', 'iamf/cli/parameter_block_partitioner.cc', 'iamf/cli/temporal_unit_view.cc'],
     [('next timestamp bookkeeping', 'iamf/cli/global_timing_module.cc'), ('parameter states', 'iamf/cli/parameters_manager.cc')],
     'online checker of timestamp histories against a reference timeline', NOTE)

prop('C14', 'Down-mixing and de-mixing follow the IAMF equations and invert each other',
     'For scalable channel audio, the derived channels of every down-mix path equal the IAMF equations for the given mode and weight index, reconstruction from the transmitted layers returns the original channels up to sample precision, output gains are applied to exactly the channels they designate (divided out when encoding, restored when decoding), and each frame is mixed with the parameters of its own demixing block, or of the defaults without one, with the weight index evolving from frame to frame as specified.',
     ['inputs', 'configurations'], 'all layer stacks and substream orders, modes, weight index histories, gains and sample values',
     'Tests use single samples per channel for selected paths.',
     ['iamf/cli/demixer.cc', 'iamf/cli/demixing_manager.cc', 'iamf/cli/downmixer.cc', 'iamf/cli/downmixer_factory.cc', 'iamf/cli/downmixer_manager.cc', 'iamf/obu/demixing_info_parameter_data.cc', 'iamf/cli/parameters_manager.cc'],
     [('mode tables', 'iamf/obu/demixing_info_parameter_data.cc'), ('path selection', 'iamf/cli/downmixer_factory.cc, iamf/cli/demixing_manager.cc')],
     'double-precision reference equations as oracle', NOTE)

prop('C15', 'Rendering is the linear map given by the gain tables, channel by channel',
     'Rendering an audio element to a loudspeaker layout multiplies its channels by the documented gain matrix, independently for every time sample, for every input layout, output layout, ambisonics order and mapping; the result is linear in the input, independent of how frames are cut, and pass-through when layouts match.',
     ['inputs', 'configurations'], 'all input layouts and ambisonics configurations x output layouts x sample values x frame lengths',
     'Tests check a few constant inputs.',
     ['iamf/cli/renderer', 'iamf/cli/renderer_factory.cc', 'iamf/cli/ambisonics_mixer.cc'],
     [('matrix lookup', 'iamf/cli/renderer/renderer_utils.cc'), ('matrix application', 'iamf/cli/renderer/loudspeakers_renderer.cc')],
     'matrix-algebra oracle plus linearity and framing relations on the real renderers', NOTE)

prop('C16', 'Gain tables agree in both encodings, are well shaped, refuse unknown keys',
     'For every pair of input and output layout the lookup returns a matrix with one row per input channel and one column per output channel holding the published gain values, the compressed and plain encodings of the tables agree value for value, and unknown pairs are reported as absent.',
     ['inputs'], 'all layout name pairs, known and unknown',
     'Tests compare a few entries.',
     ['iamf/cli/renderer/gains/get_gains.cc', 'iamf/cli/renderer/gains/precomputed_gains.cc', 'iamf/cli/renderer/gains/precomputed_compressed_gains.cc', 'iamf/cli/renderer/gains/precomputed_compressed_gains_decoder.cc'],
     [('table lookup', 'iamf/cli/renderer/gains/get_gains.cc'), ('decompression', 'iamf/cli/renderer/gains/precomputed_compressed_gains_decoder.cc')],
     'structural and cross-encoding oracle over the complete table, reference values recorded independently', NOTE)

prop('C17', 'File and streaming sequencers emit the same legal OBU sequence',
     'For every set of descriptors and temporal units the emitted stream starts with the descriptors in the order IAMF requires, followed by the temporal units in the order pushed, each holding exactly its parameter blocks, audio frames and arbitrary OBUs in canonical order; units held back until the timing is known come out too, also when the sequence is closed or updated early; the file sequencer and the streaming sequencer emit identical bytes; calls out of order are refused, and an abort, refusal or write failure reported by a sequencer leaves no file behind, while success means the whole file is stored.',
     ['histories', 'configurations', 'fault_sequences'], 'all descriptor sets, temporal unit sequences, updates, aborts and write failures',
     'Tests use one or two units.',
     ['iamf/cli/obu_sequencer_base.cc', 'iamf/cli/obu_sequencer_iamf.cc', 'iamf/cli/obu_sequencer_streaming_iamf.cc', 'iamf/cli/temporal_unit_view.cc'],
     [('descriptor ordering', 'iamf/cli/obu_sequencer_base.cc'), ('temporal unit gathering', 'iamf/cli/temporal_unit_view.cc')],
     'independent OBU parser over emitted bytes, differential between sequencers', NOTE)

prop('C18', 'Profile filtering keeps exactly the profiles whose limits are met',
     'For every audio element and mix presentation, the set of profiles reported as compatible contains exactly those of the requested profiles whose limits on element types, layouts, expanded layouts, sub-mixes, codec configurations, audio elements, channels and headphones rendering modes are all met, an error is reported exactly when none is left, and the decoder never plays a mix that exceeds every requested profile.',
     ['inputs', 'configurations'], 'all audio element configurations, mix presentations and requested profile sets',
     'Tests take one example per limit.',
     ['iamf/cli/profile_filter.cc', 'iamf/cli/profile_filter.h'],
     [('per-profile limits', 'iamf/cli/profile_filter.cc')],
     'rule-table reference model and monotonicity relations', NOTE)

prop('C19', 'Descriptor parsing is complete, atomic on short data and strict on bad data',
     'Given the bytes of a stream, descriptor parsing returns exactly the descriptors present, says whether more data is needed, leaves the input at the first byte after the descriptors (or where it started if more is needed), and refuses sequences that violate the required order, uniqueness or references.',
     ['inputs', 'histories'], 'all descriptor sequences, truncation points, trailing data, and reference or order violations',
     'Tests cover a few truncations.',
     ['iamf/cli/descriptor_obu_parser.cc', 'iamf/cli/obu_processor.cc'],
     [('rewind on insufficient data', 'iamf/cli/descriptor_obu_parser.cc'), ('redundant copy handling', 'iamf/cli/obu_processor.cc')],
     'reference descriptor model over generated streams at every truncation point', NOTE)

prop('C20', 'The decoder API honours its contract in every call order and configuration',
     'Whatever order the public decoder functions are called in, each returns the documented status, getters agree with the selected mix and layout and with each other, output arrives in whole temporal units of the reported size and sample type, insufficient output buffers are refused without losing data, and the selected mix is the one the documented selection rules pick.',
     ['histories', 'configurations'], 'all call sequences, settings, mix and layout requests and sequences',
     'Tests call functions in the intended order.',
     ['iamf/api/decoder/iamf_decoder.cc', 'iamf/include/iamf_tools/iamf_decoder_interface.h', 'iamf/include/iamf_tools/iamf_decoder_factory.cc', 'iamf/cli/obu_processor_utils.cc'],
     [('decoder states', 'iamf/api/decoder/iamf_decoder.cc'), ('mix selection', 'iamf/cli/obu_processor_utils.cc')],
     'state-machine model checked online over random API histories', NOTE)

prop('C21', 'Reset and repeated decoding are deterministic and leave no residue',
     'Decoding the same bytes with the same settings gives the same output every time, in a fresh decoder, after a reset, after a reset with a different mix, and after earlier failed or partial input, and several decoder instances never influence one another.',
     ['histories', 'inputs'], 'all sequences, reset points, mix changes and instance interleavings',
     'Tests reset once on one stream.',
     ['iamf/api/decoder/iamf_decoder.cc', 'iamf/cli/obu_processor.cc'],
     [('state rebuild on reset', 'iamf/api/decoder/iamf_decoder.cc')],
     'differential monitor between fresh and reset executions', NOTE)

prop('C22', 'Separate objects in several threads are free of data races and of each other',
     'Decoders, encoders (with loudness measurement, renderers and file writers), probes, descriptor parsers, gain-table look-ups, WAV readers and WAV writers that are separate objects may be created, used and destroyed in several threads at once without any data race, and each use yields exactly the output the same use yields alone: nothing an object does depends on, or leaves a trace in, state shared with other objects.',
     ['schedules', 'histories'], 'all interleavings and orders of uses of separate objects, including the first uses in a process, which fill tables',
     'Tests are single-threaded.',
     ['iamf/api/decoder/iamf_decoder.cc', 'iamf/cli/renderer', 'iamf/cli/iamf_encoder.cc', 'iamf/cli/rendering_mix_presentation_finalizer.cc', 'iamf/cli/probe.cc', 'iamf/cli/channel_label.cc', 'iamf/cli/sample_processing_utils.cc'],
     [('function-local and global constant tables', 'iamf/cli/renderer/precomputed_gains.cc'), ('label and layout tables', 'iamf/cli/channel_label.cc'), ('decoder state', 'iamf/api/decoder/iamf_decoder.cc')],
     'ThreadSanitizer over concurrent jobs released together in fresh processes, output compared with solo runs', NOTE)

prop('C23', 'Loudness bookkeeping measures exactly the rendered samples',
     'The loudness written into finalised mix presentations equals what the calculator of each layout measured on exactly the samples rendered for that layout, every temporal unit once, in order and trimmed; layouts that cannot be rendered and everything else the user supplied are preserved, a user-supplied loudness that differs from a measured one is refused when validation is asked for, post-processors get those same samples and are flushed once at the end, and the finalizer refuses calls out of order. The ITU-1770-4 calculator hands the analyzer every accepted sample once, with the channel weights that BS.1770-4 derives from the loudspeaker positions of the layout (LFE 0, surrounds 1.41, others 1), and reports its answers as clamped Q7.8 values, the minimum for silence.',
     ['inputs', 'histories'], 'all mixes, layouts, frame sequences, trims, gains, supplied loudness values, processors, failing calculators and call orders',
     'Tests use constant loudness mocks and one or two layouts.',
     ['iamf/cli/rendering_mix_presentation_finalizer.cc', 'iamf/cli/itu_1770_4/loudness_calculator_itu_1770_4.cc', 'iamf/cli/loudness_calculator_factory_base.h', 'iamf/cli/iamf_encoder.cc'],
     [('per-layout rendering and accumulation', 'iamf/cli/rendering_mix_presentation_finalizer.cc'), ('channel weights', 'iamf/cli/itu_1770_4/loudness_calculator_itu_1770_4.cc')],
     'recording stand-in calculator, processor and analyzer as observers, reference rendering and conservation oracle, ASan+UBSan', NOTE)

prop('C24', 'Sample processors follow their life cycle and hand on samples without loss',
     'A frame-wise sample processor accepts frames only within its declared size and channel count and before it is flushed, hands each accepted frame to the processing step exactly once with the output cleared, and exposes exactly the output that step produced; arranging, interleaving, channel conversion, trimming and reordering of samples are permutations that keep every sample exactly once.',
     ['histories', 'inputs'], 'all call sequences of push and flush, all frame shapes, channel orders, trims and sample values',
     'Tests follow one life cycle with a fixed shape.',
     ['iamf/cli/sample_processor_base.cc', 'iamf/cli/sample_processor_base.h', 'iamf/cli/sample_processing_utils.cc', 'iamf/cli/sample_processing_utils.h', 'iamf/api/conversion/channel_reorderer.cc'],
     [('state checks', 'iamf/cli/sample_processor_base.cc'), ('layout conversion', 'iamf/cli/sample_processing_utils.h')],
     'life-cycle state-machine monitor and conservation oracle with uniquely tagged samples, ASan+UBSan', NOTE)

prop('C25', 'LPCM coding is exact and every malformed frame or configuration is refused',
     'For every supported sample size, endianness and channel count, decoding an LPCM frame gives every coded sample exactly, in channel and time order, and encoding then decoding returns the input; frames that are not a whole number of samples or too long, sample sizes and rates outside IAMF, and substream channel counts other than one or two are refused without altering earlier output.',
     ['inputs', 'histories', 'configurations'], 'all decoder configurations, frame contents and lengths, and sequences of good and bad frames',
     'Tests decode a couple of frames for selected configurations.',
     ['iamf/cli/codec/lpcm_decoder.cc', 'iamf/cli/codec/lpcm_encoder.cc', 'iamf/cli/codec/decoder_base.h', 'iamf/cli/codec/encoder_base.cc', 'iamf/obu/substream_channel_count.cc', 'iamf/obu/decoder_config/lpcm_decoder_config.cc'],
     [('byte order and left justification', 'iamf/cli/codec/lpcm_decoder.cc'), ('frame validation', 'iamf/cli/codec/lpcm_decoder.cc')],
     'integer reference codec as oracle over frame histories, ASan+UBSan', NOTE)

prop('C26', 'Encoding keeps every sample and every described value',
     'For every valid user metadata and input audio (all layouts and scalable layer sets, ambisonics, one or several elements and mixes, LPCM, FLAC, AAC and Opus configurations, any trims and length), the encoder emits a sequence whose descriptors and parameter blocks hold exactly what was described, whose audio frames hold, substream by substream, the input samples (down-mixed for scalable layers), padded only as the declared codec delay, trims and frame size require, with no sample lost, duplicated or reordered; the decoder accepts it and renders the input audio. The codec libraries themselves are replaced by lossless stand-ins.',
     ['inputs', 'configurations', 'histories'], 'all layouts, frame sizes, codecs, input lengths and trimming requests',
     'Tests encode short fixed clips and mostly check counts.',
     ['iamf/cli/iamf_encoder.cc', 'iamf/cli/proto_conversion/proto_to_obu', 'iamf/cli/obu_with_data_generator.cc', 'iamf/cli/obu_sequencer_base.cc'],
     [('frame generation and trimming', 'iamf/cli/proto_conversion/proto_to_obu/audio_frame_generator.cc'),
      ('encoder loop', 'iamf/cli/iamf_encoder.cc')],
     'model oracle over the emitted bytes (descriptors and blocks byte-exact, frames sample-exact) plus decoding back', NOTE)

prop('C27', 'Hostile or inconsistent encoder metadata is refused cleanly',
     'Any user metadata given to the encoder is either encoded to a conformant sequence or refused with an error; it never causes a crash, undefined behaviour, an endless loop or a sequence that the library itself cannot decode. A value which does not fit the field it is meant for is refused, never truncated.',
     ['inputs', 'configurations'], 'all user metadata messages, including missing, out-of-range, conflicting and oversized fields',
     'Tests flip single fields.',
     ['iamf/cli/iamf_encoder.cc', 'iamf/cli/proto_conversion/proto_to_obu'],
     [('generator validation', 'iamf/cli/proto_conversion/proto_to_obu/*.cc')],
     'ASan+UBSan over mutated user metadata, decode-back oracle', NOTE)

prop('C28', 'ADM conversion preserves the programme, objects and audio',
     'Converting an ADM BW64 file yields metadata which an encoder accepts (as far as the profile has room for the elements) and which says what the document says: one mix per programme of at most two objects (one per alternative of complementary objects) made of exactly its objects that are important enough and of a common definition, with their labels, gains, layouts and the loudness of the programme. '
     'Each element names the WAV file that holds exactly the samples of the tracks of its object, whatever objects are left out and in whatever order they are declared or mentioned. '
     'In Dolby documents the channels are panned sample for sample by the positions of their blocks to third order ambisonics, and the LFE channels are split off unchanged for the base enhanced profile. '
     'Whatever the document, an error is reported or it is converted; it never crashes, and what is reported as converted names files that exist.',
     ['inputs'], 'all ADM documents with supported structures and their damaged variants, all track assignments',
     'Tests use a few documents.',
     ['iamf/cli/adm_to_user_metadata'],
     [('XML handlers', 'iamf/cli/adm_to_user_metadata/adm/xml_to_adm.cc'), ('track splicing', 'iamf/cli/adm_to_user_metadata/adm/wav_file_splicer.cc')],
     'generated ADM documents with known content as oracle, ASan+UBSan', NOTE)

prop('C29', 'The log-spectral-distance comparator measures and judges audio exactly',
     'For every pair of WAV files of equal format and length (however short) the comparator computes, per channel and per 512-sample hop, the root mean square over Mel bands of the log-spectral difference: zero for identical audio and symmetric. '
     'It reports exactly the frames strictly above the peak threshold and exactly the maximal runs strictly above the sustained threshold that last at least the given time, the true maxima, and a pass only when there is none; files differing in rate, channels, length or sample width are refused with an error. '
     'The written report states the same verdict, maxima and anomalies.',
     ['inputs', 'configurations'], 'all pairs of signals, sample widths, channel counts, rates, lengths and thresholds',
     'Tests compare a few sine waves with one glitch or one degradation.',
     ['validation/mlsd_comparator/mlsd_comparator.py', 'validation/mlsd_comparator/mlsd_comparator_main.py'],
     [('spectral distance', 'validation/mlsd_comparator/mlsd_comparator.py calc_per_channel_mlsd_pcm'), ('anomaly detection', 'validation/mlsd_comparator/mlsd_comparator.py'), ('report', 'validation/mlsd_comparator/mlsd_comparator_main.py')],
     'independent FFT and Mel filter-bank implementation and run-length reference as oracles over random signals and distance arrays', 'Held on the executions counted in the evidence file. The distance is compared to 1e-3 dB; verdicts within 2e-3 of a threshold are not judged. ')

prop('C30', 'The verifier passes exactly the files every check passed',
     'For a reference and a test file the verifier runs the compliance check, the loudness comparison, the Opus ambisonics check when a tool for it is given, and one decode-and-compare check for every mix presentation the loudness report names and every layout, each exactly once, on the right file (the extracted bitstream when the test file is an MP4). '
     'It reports overall PASS, and exits zero, only when every one of these passed; a failing or missing tool, a failed decode, differing sample counts, an audible difference or no mix presentation at all gives FAIL or an error. '
     'The ledger has one [PASS] or [FAIL] entry per check and the matching overall result; input files are unchanged and no temporary file is left behind.',
     ['inputs', 'fault_sequences', 'configurations'], 'all combinations of file kinds, mix presentations, layouts, failing, silent or missing tools and differing outputs',
     'Its tests mock the tools with one or two fixed outcomes; which combination of outcomes fails is open.',
     ['validation/iamf_verifier/iamf_verifier.py'],
     [('verdict and ledger', 'validation/iamf_verifier/iamf_verifier.py _run_verifier'), ('per-layout decode and compare', 'validation/iamf_verifier/iamf_verifier.py _decode_and_evaluate_layout')],
     'scripted stand-in tools that log every call; verdict, ledger, calls and left-over files compared with the script', 'Held on the executions counted in the evidence file. The external tools are shell stand-ins; the comparator is the real one. ')

prop('C31', 'Public API types, layouts and channel labels convert consistently',
     'Conversions between API layouts, profiles, channel orderings, channel labels, proto enumerations and OBU values are one-to-one over their documented domain, refuse values outside it, and agree on the number and order of channels of every layout.',
     ['inputs'], 'all values of all API enumerations, layouts and labels, inside and outside the documented domains',
     'Tests list selected pairs.',
     ['iamf/include/iamf_tools/iamf_tools_api_types.cc', 'iamf/include/iamf_tools/iamf_tools_api_types.h', 'iamf/api/conversion', 'iamf/cli/channel_label.cc', 'iamf/cli/proto_conversion/lookup_tables.h'],
     [('lookup tables', 'iamf/cli/proto_conversion/lookup_tables.h')],
     'exhaustive enumeration with bijection and agreement oracles', NOTE)

prop('C32', 'Ambisonics configurations are validated and mixed exactly',
     'Mono and projection ambisonics configurations are accepted exactly when counts, mappings and matrices are consistent with IAMF, and mixing or de-mixing ambisonics samples applies the mapping or matrix exactly to each sample.',
     ['inputs', 'configurations'], 'all orders, mappings, matrices and sample values',
     'Tests cover first-order examples.',
     ['iamf/obu/ambisonics_config.cc', 'iamf/cli/ambisonics_mixer.cc'],
     [('validation', 'iamf/obu/ambisonics_config.cc')],
     'reference validator and matrix oracle', NOTE)

prop('C33', 'Codec configurations are accepted exactly when consistent with IAMF',
     'Codec configuration and decoder configuration fields for LPCM, Opus, AAC and FLAC are accepted, written and read exactly when they satisfy the limits the specification sets (writers also refuse what the specification discourages), and derived sample rates, bit depths, losslessness and frame sizes equal those the fields encode. '
     'The audio roll distance is the one the codec and frame size require, is demanded when read and filled in on request; the codec delay only changes the Opus pre-skip.',
     ['inputs', 'configurations'], 'all field values of the four decoder configurations and the codec config',
     'Tests violate one field at a time.',
     ['iamf/obu/codec_config.cc', 'iamf/obu/decoder_config'],
     [('decoder config validation', 'iamf/obu/decoder_config/*.cc')],
     'rule-table reference validator and bit-level oracle', NOTE)

prop('C34', 'Recon gains computed by the encoder bound the reconstruction level error',
     'Recon gain values derive from the documented level ratio of the original and the reconstructed channel, lie in the coded range, are 0 where the original is silent and 1 where it is loud against the mixed channel; the encoder writes exactly these for every frame, layer and reconstructed channel, and refuses user gains which differ unless told to keep them.',
     ['inputs'], 'all frames of original and reconstructed channel samples and layouts',
     'Tests use constant frames.',
     ['iamf/cli/recon_gain_generator.cc', 'iamf/cli/proto_conversion/proto_to_obu/parameter_block_generator.cc'],
     [('level ratio', 'iamf/cli/recon_gain_generator.cc')],
     'reference formula oracle', NOTE)

prop('C35', 'The loudness comparator reports a match exactly when the loudness metadata match',
     'Two IAMF files are reported as matching if and only if every mix presentation of either is in the other with as many sub-mixes and layouts, every layout is found in the other whatever the order, and integrated loudness and digital peak of each differ by no more than the tolerance; the report names every mix compared, every missing one and the values and differences of every layout; damaged or cut input is never reported as matching; the tool exits with success exactly on a match.',
     ['inputs'], 'all sets of mix presentations, orders, tolerances and differences around them',
     'Tests compare a few hand-written presentations.',
     ['validation/iamf_loudness_comparator'],
     [('comparison', 'validation/iamf_loudness_comparator/iamf_loudness_comparator.cc')],
     'model of the comparison over generated pairs, both ways, and against itself', NOTE)

prop('C36', 'The encoder and decoder programs carry whole files exactly',
     'Given WAV files and user metadata, the encoder program exits with success exactly when the metadata can be encoded, and then writes, in the requested directory and under the requested prefix, exactly the sequence the library yields for that audio (every tick of every requested channel, padded and trimmed as described) and one rendered WAV per mix, sub-mix and layout with the right channels, rate, bit depth and samples, and nothing else. Given an IAMF file, the decoder program writes a WAV with exactly the decoded samples of every temporal unit in the selected mix, layout and sample type, for every block size.',
     ['inputs', 'configurations'], 'all user metadata and WAV inputs; all sequences x block sizes x requested mixes, layouts and sample types',
     'Tests of the programs run a few fixed test vectors and mostly look at exit status.',
     ['iamf/cli/encoder_main.cc', 'iamf/cli/encoder_main_lib.cc', 'iamf/cli/iamf_components.cc', 'iamf/cli/wav_sample_provider.cc', 'iamf/cli/decoder_main.cc', 'iamf/cli/rendering_mix_presentation_finalizer.cc'],
     [('frame loop over WAV input', 'iamf/cli/encoder_main_lib.cc'), ('rendered output files', 'iamf/cli/encoder_main_lib.cc, iamf/cli/proto_conversion/output_audio_format_utils.cc'), ('block loop', 'iamf/cli/decoder_main.cc')],
     'differential monitor: output files of the real programs against the library on the same audio and against the reference rendering', NOTE)

prop('C37', 'The Opus ambisonics verifier calls exactly the recommended elements canonical',
     'For every IAMF file, each Opus-coded ambisonics element of order 0 to 4 is reported once, as canonical if and only if it uses the recommended mode for its order (mono up to order 2, projection from 3), half of its channels coupled and, for order 3 and 4, the reference demixing matrix without the non-diegetic channels; otherwise as custom with the rules it departs from; other elements are not reported, unsupported channel counts are never canonical, files that cannot be parsed get an error and no verdict.',
     ['inputs'], 'all ambisonics configurations, matrices one coefficient away from the reference, mixtures of elements and codecs',
     'Tests cover a handful of configurations.',
     ['validation/opus_hoa'],
     [('verdict', 'validation/opus_hoa/opus_hoa.cc'), ('reference submatrix', 'validation/opus_hoa/mapping_matrix.h')],
     'rule oracle over generated files with stand-in reference matrices', NOTE)

prop('C38', 'Ambisonic encoding gains equal the normalised spherical harmonics',
     'Encoding sources at any azimuth, elevation and distance yields exactly the SN3D, ACN-ordered spherical harmonic weights for each order, linear in the input, independent of source order and of other sources.',
     ['inputs', 'histories'], 'all orders, positions, source counts, additions, removals and moves',
     'Tests compare a few positions.',
     ['iamf/cli/ambisonic_encoder/ambisonic_encoder.cc', 'iamf/cli/ambisonic_encoder/associated_legendre_polynomials_generator.cc', 'iamf/cli/ambisonic_encoder/ambisonic_utils.h'],
     [('associated Legendre recursion', 'iamf/cli/ambisonic_encoder/associated_legendre_polynomials_generator.cc')],
     'closed-form spherical-harmonic oracle in long double', NOTE)


def main():
    sys.path.insert(0, HERE)
    from checks import CHECKS
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['state']: a['state'] = p['state']
            if p['observe']: a['observe_at'] = p['observe']
            a['hook_needed'] = None
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in CHECKS:
            checks.append(dict(property=p['id'], quick_cmd=f"python3 tools/check.py {p['id']}",
                               thorough_cmd=f"python3 tools/check.py {p['id']} thorough",
                               evidence_file=f"evidence/{p['id']}.json", technique=p['technique'],
                               level='exploration', level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason=p.get('na') or 'No check built yet.'))
    m = dict(version=1, setup_cmd='python3 tools/check.py --setup', checks=checks, not_applicable=na,
             notes='No hooks in /repo: all observation is at public boundaries of the compiled code.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    for c in CHECKS:
        assert any(p['id'] == c for p in P), c
    print(len(P), 'properties', len(checks), 'claimed')


if __name__ == '__main__':
    main()
