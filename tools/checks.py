"""Which harness decides which property, and how its evidence is described."""
CHECKS = {
    'C05': dict(
        harnesses=[dict(name='bits')],
        rule='Random sequences of typed writes/reads/seeks/pushes/flushes, memory/file/stream sources, buffer capacities 1..200 bytes; '
             'non-trivial: more than two accepted operations, distinct by resulting bytes or trace.',
        min_counts={'writes': 1000, 'reads': 1000, 'seeks': 100, 'flushes': 100},
    ),
}
CHECKS['C06'] = dict(
    harnesses=[dict(name='leb')],
    rule='Values at the borders of every width, all generator modes and sizes, coded forms of 0..11 bytes (minimal, padded, overlong, truncated), '
         'OBU headers of all 32 types built from fields and damaged; distinct by bytes.',
    min_counts={'decoded': 100, 'refused': 100, 'headers-written': 100, 'headers-read': 100})
CHECKS['C07'] = dict(
    harnesses=[dict(name='numeric')],
    rule='Floats/doubles by class (bit patterns, borders, NaN, infinities), all 2^16 Q7.8 and 2^8 Q0.8 values, 18 integer type pairs against 128-bit arithmetic; distinct by input bits.',
    min_counts={'in-range': 100, 'out-of-range': 100})
CHECKS['C25'] = dict(
    harnesses=[dict(name='lpcm')],
    rule='Histories of good, short, long and misaligned frames over all sample sizes, byte orders and channel counts, encoder histories with bad frames and finalisation; distinct by configuration and frame bytes.',
    min_counts={'frames-decoded': 100, 'frames-refused': 100, 'frames-encoded': 100, 'configs-refused': 10})
CHECKS['C24'] = dict(
    harnesses=[dict(name='procs')],
    rule='Histories of well and badly shaped pushes and flushes on a recording processor with injected failures; label frames with random trims; every layout for reordering; distinct by history or arrangement.',
    min_counts={'pushed': 100, 'refused-shape': 100, 'refused-after-flush': 100, 'arranged': 100, 'arrange-refused': 100, 'reordered': 100})
CHECKS['C10'] = dict(
    harnesses=[dict(name='bw64')],
    rule='RIFF files of shuffled, duplicated, unknown, padded, lying, truncated and bit-flipped chunks as string and file streams; the ADM parser is a recorder; distinct by file bytes.',
    min_counts={'accepted': 100, 'refused': 100, 'chunks-compared': 1000})
CHECKS['C09'] = dict(
    harnesses=[dict(name='probejson')],
    rule='Random probe reports (every member, every presence, any string bytes, extreme numbers) parsed back with a strict independent JSON parser and compared member by member; distinct by output text.',
    min_counts={'reports': 1000})
CHECKS['C16'] = dict(
    harnesses=[dict(name='gains')],
    rule='All 400 ordered pairs of layout names in both encodings, value by value, against the recorded reference table and mirror symmetry; random and damaged keys and compressed blobs; distinct by pair, key or blob.',
    min_counts={'pairs': 200, 'values': 20000, 'unknown-refused': 1000, 'decompressed': 1000, 'decompress-refused': 1000, 'mirrored': 100})
CHECKS['C31'] = dict(
    harnesses=[dict(name='conv')],
    rule='Every value of every API enumeration, layout, label and lookup table, inside and outside the documented domain, against tables written from the specifications; random OBU headers, sequence headers, parameter data and Opus settings through the proto conversions and back; distinct by value.',
    min_counts={'api-layouts': 15, 'labels': 80, 'table-rows': 100, 'orders': 100, 'headers': 1000, 'sequence-headers': 1000, 'parameter-data': 1000, 'opus-settings': 100, 'opus-refused': 100})
PY = '/opt/iamf-venv/bin/python'
CHECKS['C29'] = dict(
    harnesses=[dict(name='mlsd', flavor='python', python=PY)],
    rule='Random signals and distortions, 8/16/24/32-bit, 1..12 channels, lengths from 1 sample, as arrays and WAV files; random distance arrays with runs around the limits; mismatched files; distinct by content and thresholds.',
    min_counts={'mel-pairs': 100, 'glitches': 1000, 'sustained-blocks': 500, 'evaluated': 50, 'mismatched-refused': 50, 'reports': 50})
CHECKS['C30'] = dict(
    harnesses=[dict(name='verifier', flavor='python', python=PY)],
    rule='Random scripts of tool outcomes, mix presentations, layouts, file kinds and missing tools, called directly and through main; distinct by script.',
    min_counts={'runs': 300, 'expected-pass': 50, 'expected-fail': 100, 'raised': 10, 'tool-calls': 1000})
CHECKS['C04'] = dict(
    harnesses=[dict(name='obus')],
    rule='Every OBU type with random and border field values, extensions, footers and padded leb128s, encoded by an independent model of the syntax, read, compared field by field, written and compared bit by bit; mutations, truncations and one-off limit violations of each; distinct by bytes.',
    min_counts={'read-codec-config': 1000, 'read-audio-element': 1000, 'read-mix-presentation': 1000, 'read-parameter-block': 1000,
                'mutated-round-trips': 5000, 'limits-refused': 5000, 'truncated': 5000})
CHECKS['C33'] = dict(
    harnesses=[dict(name='codecs')],
    rule='Legal configurations of the four codecs with 0..2 fields perturbed, read and created and written, judged by a rule table; every frame size for the roll distances; every value of the byte-wide fields and a grid of sample rates; distinct by bytes.',
    min_counts={'read-accepted': 5000, 'read-refused': 5000, 'written': 5000, 'write-refused': 2000, 'frame-sizes': 96000, 'swept': 20000})
CHECKS['C03'] = dict(
    harnesses=[dict(name='decexact')],
    rule='Generated IA sequences with LPCM audio (1..3 elements of every layout and ambisonics kind, trims, gain animations, several mixes), decoded by the real decoder unit by unit for random mix, layout, ordering, sample type and trim settings and compared sample by sample with a double-precision reference rendering; distinct by sequence and output.',
    min_counts={'recon-blocks': 3000, 'units-exact': 2000, 'units-mixed': 2000, 'units-trimmed': 500, 'units-with-gain-blocks': 500, 'streams-multi': 500, 'selected-by-stereo-headphones': 300, 'selected-by-stereo': 150, 'selected-by-binaural-element': 200, 'selected-by-binaural-layout': 100, 'selected-by-layout': 300, 'selected-by-id': 500})
CHECKS['C02'] = dict(
    harnesses=[dict(name='decchunk')],
    rule='Generated IA sequences cut into random, byte-wise, header-splitting and whole chunks with random draining, compared with the reference rendering; damaged sequences decoded chunked and whole and compared with each other; distinct by sequence, cuts and output.',
    min_counts={'units': 5000, 'damaged-accepted': 200, 'damaged-refused': 200})
CHECKS['C20'] = dict(
    harnesses=[dict(name='decapi')],
    rule='Random histories of every public decoder call (decode, output with roomy, small and empty buffers, getters, reset, end of decoding, and moving the decoder into a new or a used one) in both creation modes against a reference state machine and reference rendering; distinct by history and output.',
    min_counts={'decodes': 5000, 'takes-unit': 2000, 'takes-small': 200, 'takes-empty': 200, 'resets': 200, 'resets-refused': 100, 'ends': 500, 'decode-after-end': 50, 'getters-answered': 1000, 'getters-refused': 500, 'moves': 500})
CHECKS['C21'] = dict(
    harnesses=[dict(name='decreset')],
    rule='Scripts of decoder calls on clean and damaged input replayed on used and fresh decoders, before and after resets, seeks, mix changes, failing resets (injected codec failure) and beside other decoders; every observable compared; distinct by observations.',
    min_counts={'resets': 500, 'resets-with-mix': 500, 'rounds-damaged': 500, 'rounds-with-errors': 300, 'instances': 1000, 'seeks': 800, 'failed-resets': 300})
CHECKS['C01'] = dict(
    harnesses=[dict(name='hostile')],
    rule='Sequences with illegal field values, damaged bytes, moved, repeated, dropped and re-typed OBUs, loose legal OBUs and damaged repository vectors, through random decoder call orders, the descriptor parser, the OBU processor and each OBU reader (with lying payload sizes); watched by ASan/UBSan, largest allocation, CPU time and progress; distinct by bytes.',
    min_counts={'api-runs': 5000, 'parser-runs': 2000, 'reader-runs': 10000, 'units-out': 1000, 'units-rendered': 500, 'decode-errors': 5000, 'descriptors-accepted': 500, 'readers-accepted': 1000, 'vectors': 200})
CHECKS['C18'] = dict(
    harnesses=[dict(name='profiles')],
    rule='Every layout, expanded layout and element type with every subset of profiles; random worlds of codec configs, elements and sub-mixes around every limit, each with all, single and random profile sets; sequences offered to decoders with restricted profile requests; distinct by content and set.',
    min_counts={'elements-kept': 5000, 'elements-dropped': 5000, 'mixes-kept': 20000, 'mixes-dropped': 20000, 'limit-channels': 1000, 'limit-elements': 1000, 'limit-frames-differ': 50, 'limit-no-lpcm': 50, 'limit-3-codecs': 50, 'limit-head-locked': 100, 'decoder-narrowed': 20, 'decoder-none': 50})
CHECKS['C19'] = dict(
    harnesses=[dict(name='descparse')],
    rule='Descriptor sequences with redundant, duplicate, unresolvable, malformed, reserved and misplaced OBUs, parsed at every truncation point in both modes from random offsets and as data arrives in pieces, against a model walking the same OBUs; descriptors (redundant or not) among the temporal units of a decoded stream; distinct by bytes.',
    min_counts={'parsed': 5000, 'short': 50000, 'bad': 2000, 'arrived': 500, 'elements-found': 5000, 'mixes-found': 5000, 'late-descriptor': 500, 'late-header': 80, 'late-redundant': 300})
CHECKS['C13'] = dict(
    harnesses=[dict(name='timing')],
    rule='Histories of substream frames and parameter blocks through the timing module, demixing and recon gain state through the parameters manager, temporal units with one disagreement each, parameter blocks cut at frame boundaries and subblock schedules, each against a reference timeline; distinct by history.',
    min_counts={'clock-frames': 20000, 'clock-blocks': 3000, 'clock-gaps': 300, 'clock-refused': 100, 'params-demix-read': 10000, 'params-recon-read': 8000, 'params-inconsistent': 300, 'unit-accepted': 800, 'unit-refused': 1000, 'unit-trim': 200, 'cut-frames-whole': 1500, 'cut-refused': 2000, 'schedule-constant': 500, 'schedule-variable': 700})
CHECKS['C15'] = dict(
    harnesses=[dict(name='renders')],
    rule='Every loudspeaker layout and expanded layout, layered elements and sparse and projected ambisonics of order 0..4 to every playback layout and headphones mode, frames of random length, trims, demixing parameters and demixed labels, against the recorded gain matrices; broken frames and unsupported elements refused; distinct by configuration and output.',
    min_counts={'frames': 5000, 'samples': 500000, 'pairs-swept': 480, 'pass-through': 200, 'matrixed': 1000, 'ambisonics': 1000, 'frames-dynamic': 50, 'frames-refused': 500, 'refused': 200})
CHECKS['C12'] = dict(
    harnesses=[dict(name='anim')],
    rule='Step, linear and Bezier animations with any Q7.8 controls and control time, durations 1..2^32-1, queried at both ends, inside and outside; parameter blocks in both modes turned into per-tick linear gains; long blocks cut into pieces and frame-aligned runs, sub-block by sub-block; against the curve in double precision; distinct by curve, block or cut.',
    min_counts={'points': 10000, 'starts': 1000, 'ends': 1000, 'outside': 3000, 'bezier': 3000, 'monotone': 3000, 'ticks': 100000, 'ticks-past': 200, 'gains-refused': 200, 'pieces': 1000, 'pieces-refused': 500, 'linear-pieces': 500, 'aligned': 200, 'aligned-refused': 100})
CHECKS['C08'] = dict(
    harnesses=[dict(name='probe')],
    rule='Generated sequences with every descriptor kind, parameter blocks, delimiters, reserved, redundant and undeclared OBUs and any trims, probed in all three modes from memory and files; cut, ended and damaged at random places, with budgets and cancellation; every reported field compared with the generated description; distinct by bytes.',
    min_counts={'scans': 2000, 'units': 4000, 'blocks': 5000, 'ends-eof': 400, 'ends-truncated': 100, 'ends-malformed': 100, 'ends-next_ia_sequence': 100, 'flac-estimates': 1000, 'files-past-window': 30, 'short': 1500, 'complete': 1000, 'cuts': 1500, 'cut-inside': 700, 'budgets': 1500, 'cancels': 1500, 'damaged-scanned': 1000})
CHECKS['C32'] = dict(
    harnesses=[dict(name='ambi')],
    rule='Mono mappings and projection matrices of every size with one field wrong or right, element configurations with any substream list, channel-count queries over the whole byte, random frames through the mixer, the demixer and the projector, and channel labels; against a model of the validity rules and exact matrix arithmetic; distinct by configuration and samples.',
    min_counts={'mono-accepted': 500, 'mono-refused': 1000, 'mono-too-many': 10, 'projection-accepted': 500, 'projection-refused': 500, 'round-trips': 500, 'elements-made': 500, 'elements-refused': 500, 'presets-mono': 50, 'presets-projection': 50, 'configs-given': 500, 'frames-copied': 500, 'frames-mixed': 500, 'frames-demixed': 300, 'frames-refused': 300, 'projections': 1000, 'projections-refused': 300, 'labels-given': 500, 'labels-refused': 200, 'counts-asked': 8})
CHECKS['C26'] = dict(
    harnesses=[dict(name='encode')],
    rule='Generated user metadata of all layouts, layered, ambisonics (also by preset, mixed and projected) and object elements, several elements, mixes and codecs, random lengths, trims, gains and sub-block schedules, and borderline illegal metadata; descriptors, parameter blocks and frames of the emitted sequence compared with the description and input, then decoded back; distinct by sequence.',
    min_counts={'sequences': 2000, 'units': 8000, 'samples-exact': 1000000, 'decoded': 400, 'aac': 150, 'flac': 300, 'opus': 300, 'lpcm': 800, 'scalable': 800, 'output-gain': 600, 'demixing-blocks': 600, 'recon-blocks': 2000, 'refusals': 80, 'objects': 500, 'presets': 300, 'presets-projected': 150, 'several-codecs': 200, 'extension-parameters': 250, 'descriptors-alone': 700, 'getters': 2000})
CHECKS['C27'] = dict(
    harnesses=[dict(name='metadata')],
    rule='Valid user metadata of every kind damaged by one to four mutations of fields, entries and messages, and by misuse of the encoder (wrong or missing labels, short frames, undecodable keys and blocks, calls after the end); single fields set beyond the width of the bitstream; undamaged controls; whatever is accepted is read back by the library; distinct by mutation.',
    min_counts={'accepted': 1500, 'refused-Create': 1000, 'refused-Encode': 200, 'refused-OutputTemporalUnit': 500, 'read-back-units': 5000, 'control': 500, 'samples-length': 100, 'samples-missing-label': 100, 'samples-undeclared-needed': 100, 'width-ReconGains.ReconGainEntry.key': 10, 'width-DualCart16ParamDefinition.default_first_x': 8, 'width-MetadataITUTT35.itu_t_t35_country_code': 4})
CHECKS['C35'] = dict(
    harnesses=[dict(name='lcmp')],
    rule='Random sets of mix presentations and varied copies (loudness moved around the tolerance, layouts and mixes reordered, removed, added), as buffers mixed with other OBUs, as files and through the tool, compared both ways and with themselves, whole and cut; against a model of the comparison; distinct by report.',
    min_counts={'matches': 5000, 'differences': 4000, 'says-missing-1': 1000, 'says-missing-2': 1000, 'says-counts': 800, 'says-out': 4000, 'says-within': 50000, 'cuts': 1000, 'tool-runs': 500, 'empty': 40})
CHECKS['C36'] = dict(
    harnesses=[dict(name='tools')],
    rule='Generated jobs written as WAV files (any bit depth, extra and shuffled channels) and binary or text metadata, run through the encoder program: exit code, set of files, bytes of the sequence and samples of every rendered WAV against the library given the same audio; generated sequences run through the decoder program with random block sizes, mixes, layouts and sample types: the WAV against the reference rendering; distinct by metadata or bytes and block size.',
    min_counts={'sequences-written': 1500, 'wavs-compared': 5000, 'units': 5000, 'binary-metadata': 500, 'text-metadata': 1000, 'partitioned': 200, 'library-refused': 100, 'decoded': 2000, 'units-decoded': 6000})
CHECKS['C37'] = dict(
    harnesses=[dict(name='opushoa')],
    rule='Files with random ambisonics elements of both modes and all orders, near-canonical ones with one coefficient, count or order of matrix changed, other elements and codecs; verdicts, rationale, report and tool output against the rules; cut files; distinct by elements.',
    min_counts={'canonical': 2000, 'canonical-matrix': 800, 'custom-matrix-only': 500, 'custom-coupled-only': 100, 'custom-mode-only': 500, 'custom-channels': 15, 'others': 1000, 'cut': 3000, 'tool-runs': 3000})
CHECKS['C38'] = dict(
    harnesses=[dict(name='shenc')],
    rule='Associated Legendre polynomials of every degree, order and convention at random abscissas; a grid of directions for orders 0..7; random histories of setting, moving, muting and removing sources with processing in between; against explicit sums in long double; distinct by output.',
    min_counts={'polynomials': 50000, 'directions': 10000, 'processes': 8000, 'moves': 1500, 'mutes': 1000, 'removes': 2000, 'same-again': 300, 'back-again': 300, 'same-place': 300})
CHECKS['C14'] = dict(
    harnesses=[dict(name='demix')],
    rule='Every demixing mode, previous weight index and update rule; random histories of demixing and recon gain blocks (missing, shared, misplaced) for several elements; random layer stacks with output gains, down-mixed in random chunks and reconstructed from original and decoded frames, with broken frames refused; whole streams with gains and demixing blocks decoded; against the equations in double precision; distinct by history, stack or output.',
    min_counts={'modes': 222, 'histories': 500, 'w-moves': 4000, 'w-at-limit': 3000, 'first-frame': 1000, 'defaults': 3000, 'misplaced': 150, 'updates-refused': 150, 'recon-blocks': 3000, 'recon-refused': 400, 'downmixed-scalable': 1500, 'downmix-refused': 200, 'elements-with-gains': 900, 'reconstructed-scalable': 1300, 'original-scalable': 1300, 'demix-refused': 250, 'foreign-frames': 200, 'units': 1200, 'units-with-gains': 500})
CHECKS['C34'] = dict(
    harnesses=[dict(name='recon')],
    rule='Random original, mixed and reconstructed channels around the level thresholds for every reconstructed label, with channels missing or present under both names; layered elements of lossy codecs with random layers, gains and samples encoded with the gains a model computes (accepted, written bit for bit), with one gain or flag off (refused) and with gains to keep; distinct by gain.',
    min_counts={'silent': 3000, 'loud': 3000, 'computed': 1500, 'computed-clamped': 200, 'missing': 3000, 'jobs-with-computed': 100, 'blocks': 600, 'wrong-gains': 60, 'computed-gains': 400, 'silent-gains': 2000, 'unit-gains': 3000})

CHECKS['C11'] = dict(
    harnesses=[dict(name='wav')],
    rule='WAV files written in random formats, chunkings, as floats and as raw bytes, aborted, moved and flushed, parsed by an independent RIFF reader and read back by the real reader and sample provider; with room on disk for only a part of the file; damaged files read; distinct by format and history.',
    min_counts={'flushed-then-aborted': 150, 'aborted-twice': 150, 'files': 3000, 'pushes': 8000, 'clipped-samples': 100000, 'aborted': 800, 'moves': 5000, 'float-samples': 500000, 'int-samples': 500000, 'provided': 200000, 'provider-refused': 600, 'full-short': 400, 'full-reported': 300, 'short-files': 500, 'damaged-read': 300, 'raw-writes': 3000, 'raw-refused': 1000})

CHECKS['C17'] = dict(
    harnesses=[dict(name='seq')],
    rule='Random histories of push, temporal unit, update, close and abort over a file sequencer, one without a file, a streaming one and a recording one that may delay and fail at any call, in lock step with a model of what each emits; files written with room for a part only; encodings with arbitrary OBUs at every hook compared with the same encoding without them; distinct by history.',
    min_counts={'steps': 15000, 'files': 4000, 'refusals': 10000, 'trimmed-units': 1500, 'key-units': 300, 'arbitrary-units': 2000, 'block-units': 5000, 'injected': 300, 'aborts': 700, 'updates': 2000, 'delayed': 2000, 'full-short': 300, 'full-reported': 300, 'encoder-units': 2000, 'encoder-arbitrary': 500, 'encoder-refused': 100})

CHECKS['C23'] = dict(
    harnesses=[dict(name='loud')],
    rule='The ITU-1770-4 calculator over every layout with accepted and refused frames and arbitrary analyzer answers against weights from loudspeaker positions; the finalizer over random mixes, layouts (some that cannot be rendered), trims, gain blocks, processors, failing calculators and call orders against the reference rendering; encodings with recording calculators; distinct by layouts and history.',
    min_counts={'calc-answers': 6000, 'calc-frames': 4000, 'calc-refusals': 2000, 'calc-silent': 1000, 'measured': 15000, 'processed': 9000, 'rendered': 9000, 'unrenderable': 4000, 'loudness': 9000, 'finalized': 1500, 'flushed-samples': 700, 'mismatch': 300, 'injected': 70, 'wrong-timestamps': 250, 'early-get': 300, 'encode-loudness': 2000, 'encode-mismatch': 150, 'encode-kept': 100})

CHECKS['C22'] = dict(
    harnesses=[dict(name='race', flavor='tsan')],
    rule='Processes in which two to six threads, released together, decode, encode (to WAV and IAMF files, with loudness), probe, look up gains, read and write WAV files and parse descriptors with objects and files of their own: the same job, the same kind, or any; under ThreadSanitizer, each result compared with that of the same job run alone; distinct by job and companions.',
    min_counts={'processes': 350, 'threads': 1200, 'jobs-decode': 600, 'jobs-encode': 600, 'jobs-probe': 300, 'jobs-gains': 300, 'jobs-wav': 300, 'jobs-parse': 300, 'style-0': 80, 'style-1': 80, 'style-2': 80})

CHECKS['C28'] = dict(
    harnesses=[dict(name='adm'), dict(name='admtool')],
    rule='Generated BW64 files: default ADM documents (objects of common and other definitions in any order, importance thresholds, complementary objects, gains, loudness, entities) and Dolby documents (beds with and without LFE, moving objects) with random audio, converted and compared with what the document says, then encoded; and damaged ones of both kinds; files of both kinds through the converter program (metadata and WAV files against the library, also with no room for the metadata) and through the encoder program directly and over the converted files; distinct by audio and metadata.',
    min_counts={'documents': 900, 'files': 1800, 'tracks': 10000, 'mixes': 2200, 'elements': 2200, 'encoded': 1500, 'objects-removed': 20, 'nothing': 80, 'dolby-documents': 1000, 'dolby-base': 400, 'dolby-enhanced': 400, 'lfe-files': 100, 'bed-only-lfe': 10, 'toa-samples': 5000000, 'toa-samples-inside': 4000000, 'hostile-converted': 600, 'hostile-refused': 3000, 'no-directory': 300, 'converted-binary': 300, 'converted-text': 300, 'full': 60, 'refused': 100})
