#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title), title)
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          'mechanism': [dict(name=n, where=w) for n, w in mech], 'observe_at': observe, 'hook_needed': None}})
I, F, H, S, C = 'inputs', 'fault_sequences', 'histories', 'schedules', 'configurations'

p('C01', 'No input makes the decoder panic, overflow, misuse memory or hang',
  'For every byte sequence and every sequence of public API calls, each call returns a value or an error: it never panics, never overflows an arithmetic operation that a checked build would trap, never reads or writes outside an allocation, and always terminates. This includes corrupt headers, tables, entropy-coded data, truncated streams and calls made after an earlier error.',
  [I, H], 'all byte streams (structured as markers with symbolic fields, or wholly symbolic) and all call sequences within the stated sizes',
  'The crashtests directory holds a few dozen historic crashers; the space of corrupt headers, Huffman tables and entropy data is unbounded and each new arithmetic expression adds corner values (65535 dimensions, extreme DC predictors, 16-bit sums) no sample hits.',
  ['src/decoder.rs', 'src/huffman.rs', 'src/parser.rs', 'src/idct.rs', 'src/upsampler.rs', 'src/worker/mod.rs', 'src/worker/immediate.rs', 'src/decoder/lossless.rs'],
  [('bounds checks and length validation before every segment read', 'src/parser.rs'), ('Huffman code range checks', 'src/huffman.rs'), ('wrapping arithmetic in the inverse DCT', 'src/idct.rs'), ('size bounds checked against the buffer limit', 'src/decoder.rs:decode_internal')],
  ['Decoder::read_info', 'Decoder::decode', 'Decoder::scale', 'Decoder::info', 'Decoder::icc_profile'])
p('C02', 'Frame headers are accepted exactly when valid, and info() reports them exactly',
  'A frame header is accepted exactly when the coding process is supported and its precision, dimensions, component count, sampling factors, identifiers and table selectors are legal; anything else is rejected with an error before any pixel is produced. After acceptance, the reported width, height, pixel format and coding process are those the header encodes.',
  [I], 'every value of every field of a frame header for 1 to 4 components, for the baseline, extended, progressive and lossless processes',
  'Reftests use headers written by well-behaved encoders; only a handful of illegal values out of the cross product of fields is ever tried.',
  ['src/parser.rs', 'src/decoder.rs'], [('parse_sof validation', 'src/parser.rs:parse_sof'), ('update_component_sizes', 'src/parser.rs'), ('info', 'src/decoder.rs:info')],
  ['Decoder::read_info', 'Decoder::info'])
p('C03', 'The returned buffer has the announced size and row-major interleaved layout',
  'A successful decode returns exactly width x height x bytes-per-pixel bytes as announced by info(), and the bytes of pixel (x, y) are at offset (y*width+x)*bytes-per-pixel, one per component in frame order. This holds for every dimension, component count, sampling and scale, including dimensions that are not multiples of the block or MCU size.',
  [I, C], 'all image contents for a grid of dimensions, component counts, samplings and scales',
  'Reference images cover about a dozen sizes; layout errors appear only for particular residues of width and height combined with sampling factors.',
  ['src/decoder.rs', 'src/worker/mod.rs', 'src/worker/immediate.rs', 'src/upsampler.rs'],
  [('compute_image', 'src/decoder.rs:compute_image'), ('append_row block placement', 'src/worker/immediate.rs'), ('Upsampler::upsample_and_interleave_row', 'src/upsampler.rs')],
  ['Decoder::decode', 'Decoder::info'])
p('C04', 'scale() picks the smallest sufficient size and every later answer agrees with it',
  'scale(w, h) selects the smallest of 1/8, 1/4, 1/2 and 1/1 whose output reaches the requested width or the requested height (1/1 if none does), returns that output size (each dimension divided rounding up), and afterwards info() and the decoded buffer have that size. Lossless images cannot be scaled and keep their full size.',
  [I, H], 'every frame size, every requested size and every sampling arrangement, and repeated scale calls',
  'Tests request a few sizes on two images; the selection depends on two 16-bit dimensions and two 16-bit requests, with boundary cases at each division.',
  ['src/idct.rs', 'src/decoder.rs', 'src/parser.rs'], [('choose_idct_size', 'src/idct.rs'), ('update_idct_size', 'src/parser.rs'), ('scale', 'src/decoder.rs:scale')], ['Decoder::scale', 'Decoder::info', 'Decoder::decode'])
p('C05', 'The configured buffer limit is honoured exactly',
  'With a limit of N bytes set, decoding never returns a buffer larger than N bytes and fails cleanly, without allocating the output, when the image would need more; an image whose output needs at most N bytes is not rejected because of the limit. The same holds for every coding process, precision, component count and scale.',
  [I, C], 'every limit value and every frame size, for each coding process and pixel format',
  'One test sets one limit on one image; off-by-one and unit errors (samples against bytes, padded against visible size) need particular sizes and formats.',
  ['src/decoder.rs'], [('decoding_buffer_size_limit check', 'src/decoder.rs:decode_internal')], ['Decoder::set_max_decoding_buffer_size', 'Decoder::decode'],
  [('decoding_buffer_size_limit', 'maximum number of bytes of the result', 'src/decoder.rs')])
p('C06', 'Every canonical Huffman table decodes exactly the code it defines',
  'For every valid table (number of codes per length 1 to 16, and any symbol values), each code word decodes to the symbol that the canonical code assignment gives it, whatever bits follow, and a bit pattern that is no code word is reported as an error. Tables that are over-subscribed, too long or otherwise ill-formed are rejected.',
  [I], 'all code-length distributions and symbol values within the bound, and all bit strings',
  'Test images use a few encoder-generated tables; look-up acceleration for short codes and the slow path for long codes meet at lengths that these rarely exercise.',
  ['src/huffman.rs', 'src/parser.rs'], [('derive_huffman_codes, LUT construction', 'src/huffman.rs:HuffmanTable::new'), ('decode', 'src/huffman.rs:HuffmanDecoder::decode'), ('parse_dht', 'src/parser.rs')],
  ['Decoder::decode'])
p('C07', 'Block decoding reproduces exactly the coefficients that were encoded',
  'For every block and every legal entropy encoding of it (any DC difference category and extension, any sequence of zero runs, ZRL and end-of-block, any AC category), the decoder recovers exactly the coefficients encoded, at their zigzag positions, and leaves the bit position right after the block. DC prediction accumulates separately for each component. A DC category that no legal block has is an error.',
  [I], 'all coefficient values and run-length sequences within the bound, with both short and long Huffman codes',
  'Photographic test images rarely hit long runs, coefficient 63, maximum categories or codes longer than the look-up table, in combination.',
  ['src/decoder.rs', 'src/huffman.rs'], [('decode_block', 'src/decoder.rs:decode_block'), ('receive_extend, decode_fast_ac', 'src/huffman.rs'), ('UNZIGZAG', 'src/decoder.rs')], ['Decoder::decode'])
p('C08', 'Dequantization and inverse DCT meet their accuracy bound at every scale',
  'For every block of quantized coefficients and every quantization table whose products stay in the legal range, each output sample differs from the exact inverse DCT of the dequantized coefficients, level shifted and clamped to 0..255, by no more than a small fixed tolerance. At reduced scale the samples are those of the exact 4, 2 or 1 point inverse transform of the low frequencies, within the same kind of tolerance.',
  [I], 'all coefficient values of every listed set of non-zero coefficients, all 64 output positions, all four scales',
  'Reftests compare whole pictures with a tolerance; an error that needs large or specific coefficient combinations, saturation, or one basis position stays invisible.',
  ['src/idct.rs', 'src/worker/immediate.rs'], [('dequantize_and_idct_block_8x8/4x4/2x2/1x1', 'src/idct.rs')], ['Decoder::decode'])
p('C09', 'Each component is dequantized with the table in force when its scan begins',
  'Quantization tables given in 8-bit or 16-bit precision, in one segment or several, in any order and redefined any number of times, yield the same picture as the equivalent single definitions: a component uses the last definition of its selected destination before its first scan. Zero entries, bad precisions, bad destinations, wrong lengths and missing tables are errors.',
  [I, H], 'all table contents, precisions, destinations and definition orders within the bound',
  'Encoders write tables in one canonical way; the alternative encodings the standard allows are almost absent from test files.',
  ['src/parser.rs', 'src/decoder.rs', 'src/worker/mod.rs'], [('parse_dqt', 'src/parser.rs'), ('table capture at scan start', 'src/decoder.rs:decode_scan')], ['Decoder::decode'])
p('C10', 'Chroma upsampling computes the specified filter at every pixel and edge',
  'For subsampled components every output pixel is the documented interpolation of stored samples: triangle filter 3:1 for 2x1, 1x2 and 2x2 (with edge samples handled as specified), and replication for the other integral ratios. Only samples belonging to the component take part, for every width and height, including odd and minimal ones.',
  [I, C], 'all sample values, for a grid of dimensions and sampling factors',
  'Edge behaviour depends on the residue of the dimensions; the reftest tolerance hides one-pixel or rounding errors.',
  ['src/upsampler.rs', 'src/decoder.rs'], [('UpsamplerH1V1/H2V1/H1V2/H2V2/Generic', 'src/upsampler.rs'), ('choose_upsampler', 'src/upsampler.rs')], ['Decoder::decode'])
p('C11', 'Colour conversion computes the JFIF equations for every sample triple',
  'For every Y, Cb, Cr the result of the portable code is the JFIF conversion to RGB, rounded to the nearest integer (within 0.51 of the exact value) and clamped to 0..255; for YCCK the first three are converted so and inverted as the documentation says, with K passed along; greyscale, RGB and CMYK samples pass unchanged (CMYK inverted where specified). With an explicit request for no transformation, samples are returned exactly as decoded, interleaved.',
  [I, C], 'all 2^24 (2^32) sample combinations, per pixel, for each transformation',
  'Pictures sample a tiny part of the 2^24 triples, with tolerance; saturation corners are rarely present.',
  ['src/decoder.rs'], [('ycbcr_to_rgb, color_convert_line_*', 'src/decoder.rs')], ['Decoder::decode', 'Decoder::set_color_transform'])
p('C12', 'The colour interpretation follows the markers present, or the caller',
  'Which colour transformation applies is a function of the number of components, the component identifiers, the presence of JFIF and Adobe markers and the Adobe transform flag, as documented; a transformation set by the caller overrides all of it. An Adobe transform flag above 2 is an error. The order of the markers and unrelated markers do not matter.',
  [I, C], 'all component identifiers, all Adobe transform bytes, all marker presences and orders',
  'Test files contain four or five of the combinations.',
  ['src/decoder.rs', 'src/parser.rs'], [('determine_color_transform', 'src/decoder.rs'), ('parse_app', 'src/parser.rs')], ['Decoder::decode', 'Decoder::set_color_transform'])
p('C13', 'Restart intervals do not change the picture, and wrong markers are errors',
  'Decoding with any restart interval gives the same picture as the same data coded without restarts: predictors, end-of-band runs and bit position are reset exactly at each interval, in interleaved and non-interleaved scans, and the interval may be redefined between scans. An interval longer than the scan changes nothing. A missing or out-of-sequence restart marker is an error.',
  [I, H], 'all sample values for a grid of intervals, sizes and interleavings; all marker codes at a restart position',
  'Two or three test images use restarts with one interval each; interval boundaries against row ends and last MCUs are not covered.',
  ['src/decoder.rs', 'src/huffman.rs', 'src/decoder/lossless.rs'], [('restart handling in decode_scan', 'src/decoder.rs'), ('HuffmanDecoder::reset', 'src/huffman.rs')], ['Decoder::decode'])
p('C14', 'Progressive decoding accumulates the same coefficients as baseline',
  'A complete progressive image, in any legal script of spectral selection and successive approximation scans, decodes to the same picture as the baseline coding of the coefficients its scans add up to. This includes end-of-band runs across blocks, refinement of existing coefficients and zero-history handling, and interleaved DC scans.',
  [I, H], 'all coefficient bits for a set of scan scripts within the bound',
  'Refinement with end-of-band runs has many interacting cases (correction bits inside runs, sign bits, run end at a refined coefficient) that only particular coefficient patterns reach.',
  ['src/decoder.rs'], [('decode_block_successive_approximation, refine_non_zeroes', 'src/decoder.rs'), ('coefficients storage and finishing', 'src/decoder.rs:decode_scan')], ['Decoder::decode'])
p('C15', 'Interleaved and non-interleaved scans of the same data give the same picture',
  'The same component data coded as one interleaved scan, as separate scans, or as any legal grouping and order, decodes to the same picture for every size and sampling. In a non-interleaved scan exactly the blocks that cover the component are read.',
  [I, C], 'all sample values, for a grid of dimensions, samplings and scan groupings',
  'Few test files are non-interleaved; the number of blocks per component row depends on dimension residues with sampling factors.',
  ['src/decoder.rs'], [('block indexing in decode_scan', 'src/decoder.rs:decode_scan')], ['Decoder::decode'])
p('C16', 'Lossless decoding is exact for every predictor, precision and point transform',
  'For every lossless frame the decoded samples are exactly those encoded: for predictors 1 to 7, precisions 2 to 16, point transforms, restart intervals, first-row and first-column rules, and one or more components, with modulo 2^16 arithmetic. The result has the announced pixel format (8 or 16 bits in native byte order per sample).',
  [I, C], 'all difference values, for each predictor, a set of precisions and point transforms and small sizes',
  'There are a few lossless reference images (medical pictures, one predictor each).',
  ['src/decoder/lossless.rs', 'src/decoder.rs'], [('predict, decode_scan_lossless, compute_image_lossless', 'src/decoder/lossless.rs')], ['Decoder::decode', 'Decoder::info'])
p('C17', 'Metadata segments are returned exactly as stored',
  'The ICC profile is returned exactly when all of its chunks are present with consistent numbering, as the concatenation in sequence order whatever the order in the file; EXIF and XMP payloads are returned byte for byte. Incomplete, duplicated or inconsistent ICC chunks yield no profile, and metadata never affects the picture.',
  [I, H], 'all chunk numbers, counts, orders and contents within the bound',
  'The single ICC test has two well-formed chunks and one shuffled case.',
  ['src/decoder.rs', 'src/parser.rs'], [('icc_profile', 'src/decoder.rs'), ('parse_app', 'src/parser.rs')], ['Decoder::icc_profile', 'Decoder::exif_data', 'Decoder::xmp_data'])
p('C18', 'Marker syntax is exact: stuffing, fill bytes, skipped segments, end of image',
  'Byte stuffing and fill bytes are transparent, application and comment segments of any content are skipped by exactly their length, extraneous bytes between segments are tolerated, and reading never goes beyond the end-of-image marker. A segment whose length field is inconsistent with its content is an error.',
  [I], 'all contents of skipped segments, all stuffed byte positions, all length fields within the bound',
  'Random positions of 0xFF bytes in entropy data and odd segment lengths are a matter of luck in sample files.',
  ['src/decoder.rs', 'src/huffman.rs', 'src/parser.rs'], [('read_marker', 'src/decoder.rs'), ('read_bits and marker detection', 'src/huffman.rs'), ('read_length, skip_bytes', 'src/parser.rs')], ['Decoder::decode', 'position of the reader after decode'])
p('C19', 'The result does not depend on worker choice or thread scheduling',
  'For every image the pixels returned are the same whether work is done inline or spread over threads, and whatever order or interleaving the scheduler picks for the spawned tasks. No schedule loses, duplicates or mixes rows of components.',
  [S, I], 'all execution orders of the spawned tasks within the bound, all sample values',
  'A test run sees one schedule; the row-level tasks are independent only if offsets and row counts are right in every order.',
  ['src/worker/rayon.rs', 'src/worker/mod.rs', 'src/worker/immediate.rs', 'src/worker/multithreaded.rs', 'src/decoder.rs'],
  [('Scoped::append_rows, row scheduling', 'src/worker/rayon.rs'), ('select_worker', 'src/decoder.rs'), ('compute_image_parallel', 'src/decoder.rs')], ['Decoder::decode'])
p('C20', 'Reader behaviour is transparent: chunking, interruptions, errors and truncation',
  'The result does not depend on how many bytes each read call delivers, and interrupted reads are retried; a reader error is returned as that error; a stream cut before the picture is complete yields an error or, for entropy data already complete enough, the same picture, never different pixels.',
  [F, I], 'all splittings of the stream into reads, all positions of an interruption, error or end of stream within the bound',
  'Tests read from files or slices that always deliver whole buffers.',
  ['src/decoder.rs', 'src/parser.rs', 'src/huffman.rs', 'src/error.rs'], [('read_exact based helpers', 'src/parser.rs'), ('read_u8 in HuffmanDecoder', 'src/huffman.rs')], ['Decoder::new', 'Decoder::decode'])
p('C21', 'API calls compose: order and repetition of queries do not change the result',
  'info() is absent before the header has been read and stable afterwards; read_info() followed by decode() gives the same picture as decode() alone, and repeated read_info() is harmless. Scaling or metadata queries at any allowed moment have the documented effect and nothing else.',
  [H, I], 'all call sequences within the bound, over symbolic pictures',
  'Tests call the methods in the usual order only.',
  ['src/decoder.rs'], [('decode_internal(stop_after_metadata)', 'src/decoder.rs'), ('info, scale', 'src/decoder.rs')], ['Decoder::read_info', 'Decoder::decode', 'Decoder::info', 'Decoder::scale'])
p('C22', 'Motion-JPEG frames without tables decode with the standard Huffman tables',
  'A frame without Huffman tables that carries the AVI1 marker decodes exactly as if the standard luminance and chrominance tables of the specification had been given explicitly. Tables that are given explicitly always take precedence, and without that marker missing tables are an error.',
  [I], 'all code words of the standard tables and all coefficient values they carry, within the bound',
  'One sample frame uses only a part of the 162 AC codes.',
  ['src/huffman.rs', 'src/decoder.rs'], [('fill_default_mjpeg_tables', 'src/huffman.rs'), ('is_mjpeg', 'src/decoder.rs')], ['Decoder::decode'])
p('C23', 'The SIMD code paths compute what the portable code computes',
  'With architecture specific acceleration (SSSE3 on x86-64) the decoded pixels are within 1 of the exact inverse DCT and colour conversion as with the portable code, as long as the dequantized coefficients are those of 8-bit samples: DC up to 1023 in magnitude and AC coefficients whose sums fit the 16-bit arithmetic. For every triple of samples the vector colour conversion is within 0.6 of the exact one before rounding, converts every pixel of the line exactly once, and leaves the last pixels to the portable code.',
  [I, C], 'all coefficient values of listed coefficient sets, all sample triples',
  'The tests compare pictures with tolerance; saturating vector arithmetic differs from scalar arithmetic only for extreme values.',
  ['src/arch/ssse3.rs', 'src/arch/mod.rs'], [('dequantize_and_idct_block_8x8', 'src/arch/ssse3.rs'), ('color_convert_line_ycbcr', 'src/arch/ssse3.rs')], ['Decoder::decode'])
p('C24', 'An unfinished progressive image still decodes to what its scans carry',
  'A progressive image whose later scans are missing decodes to the picture of the coefficients received so far, with absent bits zero and absent components handled as documented; no scan already received is lost. This holds for every number of scans received and every size and sampling.',
  [I, H], 'all coefficient bits, all prefixes of a set of scan scripts within the bound',
  'One partial file is among the reference images.',
  ['src/decoder.rs', 'src/worker/mod.rs'], [('decode_planes for unfinished components', 'src/decoder.rs'), ('coefficients_finished', 'src/decoder.rs')], ['Decoder::decode'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
