from jobs import Job, prop, PROPS

# ---------------------------------------------------------------- C02
prop('C02', [
    Job('h_sof', [n, c], 'SOF%d with %d component records: every other header byte symbolic' % (n, c), covers=[1] if n in (0, 1, 2, 3) and c != 2 else [], cost=8,
         tier='quick' if (n, c) in [(0, 1), (0, 3), (1, 3), (2, 3), (3, 1), (3, 3), (0, 2), (9, 1), (5, 1)] else 'thorough')
    for n in (0, 1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15) for c in (1, 2, 3, 4)],
    ['one frame header segment; all 16-bit dimensions, all precisions, component counts, ids, sampling factors and table selectors'],
    ['headers with more than 4 component records; the frame header combined with earlier malformed segments (C01)'])

# ---------------------------------------------------------------- C03
_lay = []
for (w, h) in [(1, 1), (7, 9), (8, 8), (9, 7), (16, 16), (17, 15), (33, 18)]:
    _lay += [Job('h_layout', [w, h, 1, 11], '%dx%d grey' % (w, h), cost=1, covers=[1]), Job('h_layout', [w, h, 3, 11], '%dx%d RGB' % (w, h), cost=1, covers=[1]),
             Job('h_layout', [w, h, 4, 11], '%dx%d CMYK' % (w, h), cost=1, covers=[1])]
for s in (21, 12, 22, 41, 14, 44, 33):
    _lay += [Job('h_layout', [w, h, 1, s], '%dx%d grey with sampling %d' % (w, h, s), cost=1, covers=[1]) for (w, h) in [(9, 9), (17, 33), (40, 24)]]
    if s in (21, 12):
        _lay += [Job('h_layout', [w, h, 3, s], '%dx%d RGB with sampling %d throughout' % (w, h, s), cost=1, covers=[1]) for (w, h) in [(9, 9), (17, 25)]]
for sc in (1, 2, 4):
    for nc in (1, 3, 4):
        _lay += [Job('h_layout', [w, h, nc, 11, sc], '%dx%d, %d components at %d/8' % (w, h, nc, sc), cost=1, covers=[1]) for (w, h) in [(8, 8), (9, 17), (17, 9), (24, 23)]]
for sc in (1, 2, 4):
    _lay += [Job('h_layout', [w, h, nc, smp, sc], '%dx%d, %d components with sampling %d at %d/8' % (w, h, nc, smp, sc), cost=1, covers=[1])
             for (nc, smp) in ((1, 21), (1, 12), (1, 22), (1, 44), (1, 33), (3, 21), (3, 12), (3, 13), (3, 31)) for (w, h) in ((17, 25), (23, 33))]
_fa = [Job('h_fact', [17, 9, nc, sof, f, sc, sep], '17x9, %d components, SOF%d, any factors%s, %d/8%s' % (nc, sof, ' (first %02X)' % f if f else '', sc, ', separate scans' if sep else ''), cost=c, covers=[1], tier=t)
       for (nc, sof, f, sc, sep, c, t) in [(1, 0, 0, 8, 0, 1, 'quick'), (3, 0, 0x11, 8, 0, 4, 'quick'), (3, 0, 0x21, 8, 0, 4, 'quick'), (3, 0, 0x22, 8, 0, 4, 'quick'), (3, 1, 0x12, 8, 1, 4, 'quick'), (3, 2, 0x42, 8, 0, 2, 'quick'),
                                           (3, 0, 0x13, 8, 0, 4, 'quick'), (3, 0, 0x22, 2, 0, 4, 'quick'), (4, 0, 0x22, 8, 1, 20, 'quick'), (4, 0, 0x21, 4, 0, 20, 'quick'), (3, 0, 0, 8, 1, 40, 'quick'),
                                           (3, 2, 0, 8, 1, 40, 'thorough'), (3, 0, 0, 1, 1, 40, 'thorough'), (3, 0, 0, 8, 0, 40, 'thorough'), (4, 0, 0x11, 8, 0, 60, 'thorough'), (4, 0, 0x12, 8, 1, 60, 'thorough'), (4, 0, 0x44, 8, 1, 60, 'thorough')]]
_fa2 = [Job('h_format', [nc, p, sof], '%d components, precision %d, SOF%d: bytes returned and announced' % (nc, p, sof), cost=2, covers=[1])
       for (nc, p, sof) in [(1, 8, 0), (3, 8, 0), (4, 8, 1), (1, 8, 2), (3, 8, 2)] + [(nc, p, 3) for nc in (1, 3, 4) for p in (2, 7, 8, 9, 12, 16)]]
prop('C03', _lay + _fa + _fa2, ['sizes up to 40x33, 1/3/4 components, uniform sampling factors, four scales; one symbolic sample per block (flat blocks)', 'every combination of sampling factors for a 17x9 picture of constant colour'],
     ['images wider than 128 samples here (C19 has those); positions inside a block (C08 has those)'])

# ---------------------------------------------------------------- C04
prop('C04', [
    Job('h_scale', [0, 0], 'baseline, one component', covers=[1], cost=20),
    Job('h_scale', [0, 1], 'baseline 4:2:0', covers=[1], cost=20),
    Job('h_scale', [2, 1], 'progressive 4:2:0', covers=[1], cost=20),
    Job('h_scale', [1, 2], 'extended, four components', covers=[1], cost=20),
    Job('h_scale', [3, 0], 'lossless', covers=[1], cost=20),
    Job('h_scale', [0, 0, 1], 'baseline after an earlier scale call', covers=[1], cost=20),
    Job('h_scale', [0, 1, 1], 'baseline 4:2:0 after an earlier scale call', covers=[1], cost=20),
    Job('h_scale', [3, 2, 1], 'lossless after an earlier scale call', covers=[1], cost=20),
], ['every 16-bit frame size and every 16-bit requested size (symbolic), up to two scale calls'],
   ['the pixels at reduced scale are C03, C08 and C10'])

# ---------------------------------------------------------------- C05
prop('C05', [Job('h_limit', [k], w, covers=[1, 2] if k < 20 else [1], cost=5) for k, w in
             [(0, 'baseline grey'), (1, 'baseline RGB'), (2, 'baseline CMYK'), (3, 'grey at 1/8'), (4, 'lossless, 8 bits'), (5, 'lossless, 16 bits'), (12, 'lossless RGB, 8 bits'),
              (6, 'unfinished progressive grey'), (7, 'unfinished progressive 4:2:0'), (8, '4:2:2 at 1/8'), (9, 'CMYK at 1/8'), (10, 'lossless, 9 bits'), (11, 'lossless, 2 bits'),
              (20, 'grey frame of any size without data'), (21, '3 components of any size without data'), (22, 'progressive frame of 4 components, any width, six heights, without data'),
              (23, 'lossless frame of any size without data'), (24, 'lossless frame of 12 bits of any size without data')]],
     ['every 64-bit limit, with pictures of fixed sizes; every limit and every 16-bit frame size for frames without entropy-coded data'], ['allocations made before the size is checked (working memory is not bounded by the limit)'])

# ---------------------------------------------------------------- C10
_up = []
for (hm, vm, h, v) in [(2, 1, 1, 1), (1, 2, 1, 1), (2, 2, 1, 1), (2, 2, 2, 1), (2, 2, 1, 2)]:
    for (w, hh) in [(1, 1), (5, 3), (2, 17), (17, 2), (20, 17)]:
        _up.append(Job('h_up', [w, hh, hm, vm, h, v, 8], '%dx%d, %dx%d / %dx%d / 1x1' % (w, hh, hm, vm, h, v), cost=5, covers=[1],
                       tier='quick' if (w, hh) in [(5, 3), (20, 17)] or (hm, vm, h, v) == (2, 2, 1, 1) else 'thorough'))
for (hm, vm, h, v) in [(4, 1, 2, 1), (4, 1, 1, 1), (1, 4, 1, 2), (3, 1, 1, 1), (1, 3, 1, 1), (4, 1, 4, 1), (2, 3, 1, 1)]:
    _up.append(Job('h_up', [13, 11, hm, vm, h, v, 8], '13x11, %dx%d / %dx%d / 1x1' % (hm, vm, h, v), cost=5, covers=[1]))
# at 1/8 every block is one sample of its own; with two blocks per MCU there are padding samples beside the component's own
for (w, hh, hm, vm, h, v, g) in [(3, 10, 1, 4, 1, 2, 0), (3, 9, 1, 4, 1, 2, 1), (10, 3, 4, 1, 2, 1, 0), (9, 3, 4, 1, 2, 1, 1), (9, 10, 4, 4, 2, 2, 1), (10, 9, 4, 4, 2, 2, 2), (5, 9, 2, 4, 1, 2, 1), (5, 13, 2, 4, 2, 2, 1), (13, 5, 4, 2, 2, 2, 1), (9, 5, 4, 2, 2, 1, 1),
                                 (2, 10, 2, 4, 1, 2, 1), (1, 10, 2, 4, 1, 2, 1), (10, 2, 4, 2, 2, 1, 1), (10, 1, 4, 2, 2, 1, 1), (2, 2, 2, 2, 1, 1, 0), (2, 1, 2, 2, 1, 1, 0), (1, 2, 2, 2, 1, 1, 0), (3, 3, 2, 2, 1, 1, 0)]:
    _up.append(Job('h_up', [w, hh, hm, vm, h, v, 1, g], '%dx%d at 1/8, %dx%d / %dx%d / 1x1' % (w, hh, hm, vm, h, v), cost=3, covers=[1]))
for sc in (4, 2, 1):
    _up.append(Job('h_up', [10, 6, 2, 2, 1, 1, sc], 'scaled to 10x6 at %d/8, 4:2:0' % sc, cost=10, covers=[1]))
    _up.append(Job('h_up', [6, 10, 2, 1, 1, 1, sc], 'scaled to 6x10 at %d/8, 4:2:2' % sc, cost=10, covers=[1], tier='thorough'))
prop('C10', _up, ['listed sizes and samplings; all sample values (one symbolic sample per block), all four scales'],
     ['sample variation inside a block in subsampled components (flat blocks); sizes above 128'])

# ---------------------------------------------------------------- C11
prop('C11', [
    Job('h_color', [0], 'all 2^24 YCbCr triples', covers=[1], cost=8),
    Job('h_color', [1], 'all YCCK quadruples', covers=[1], cost=8),
    Job('h_color', [2, 9, 9], '9x9, pixels with different samples, YCbCr', covers=[1], cost=8),
    Job('h_color', [3, 9, 9], '9x9, pixels with different samples, YCCK', covers=[1], cost=8),
    Job('h_color', [4, 9, 9, 3], 'no transform, 3 components', covers=[1], cost=8),
    Job('h_color', [4, 9, 9, 4], 'no transform, 4 components', covers=[1], cost=8),
    Job('h_color', [4, 17, 3, 3], 'no transform, 3 components, 17x3', covers=[1], cost=8),
    Job('h_color', [2, 17, 2], '17x2, pixels with different samples, YCbCr', covers=[1], cost=8),
    Job('h_color', [2, 24, 1, 3, 1], '24x1, every pixel different, YCbCr', covers=[1], cost=8),
    Job('h_color', [3, 24, 1, 4, 1], '24x1, every pixel different, YCCK', covers=[1], cost=8),
], ['every sample value of every pixel of the listed images'], ['the big-gamut transforms, which are not supported'])

# ---------------------------------------------------------------- C23
def _sv(e, p, d, cost=3, **k):
    return Job(e, p, d, ir='simd', cost=cost, covers=[1], **k)
_si = [_sv('h_color', [2, w, h, 3, 1, 600], '%dx%d, every pixel different, YCbCr' % (w, h), c, time=200, tier=t) for (w, h, c, t) in ((16, 1, 20, 'thorough'), (24, 1, 40, 'quick'), (17, 2, 40, 'quick'), (47, 1, 100, 'thorough'))]
_si += [_sv('h_color', [3, 24, 1, 4, 1, 600], '24x1, YCCK')]
_si += [_sv('h_idct', [p, 31, 1023, 1000, 8, 1, 63, 0], 'pixel %d, all 64 coefficients, AC products up to 31, DC up to 1023' % p, 4) for p in range(64)]
_si += [_sv('h_idct', [p, m, 1023, 1000, 8, a, b, 0], 'pixel %d, AC products up to %d at zigzag %d..%d' % (p, m, a, b), 1, tier='quick' if p % 5 == 0 else 'thorough')
        for p in range(64) for (a, b, m) in [(1, 3, 255), (4, 9, 127), (10, 14, 255), (31, 35, 255), (55, 57, 255), (61, 63, 255)]]
_si += [_sv('h_idct', [p, 1, 8, 1500, 8, 1, 63, 1], 'pixel %d, every coefficient -31..31 including zeros' % p, 4, tier='quick' if p in (0, 13, 27, 38, 56, 63) else 'thorough') for p in range(64)]
_si += [_sv('h_idct', [p, 6, 6, 1500, 8, 1, 10, 1], 'pixel %d, ten low coefficients including zeros' % p, 1, tier='quick' if p % 5 == 0 else 'thorough') for p in range(64)]
_si += [_sv('h_up', [w, h, hm, vm, a, b, 8], '%dx%d, %dx%d / %dx%d / 1x1' % (w, h, hm, vm, a, b)) for (w, h, hm, vm, a, b) in ((17, 9, 2, 2, 1, 1), (20, 9, 2, 1, 1, 1), (9, 17, 1, 2, 1, 1), (17, 9, 1, 1, 1, 1))]
_si += [_sv('h_restart', [17, 25, 3, 2, 1, 0], 'restarts')]
prop('C23', _si, ['SSSE3 code on x86-64: colour conversion within 0.6 of the exact value for every triple; inverse DCT within 1.0 of the exact one (1.5 where stated) for all 64 coefficients with products up to 31 (DC 1023) and groups of them with products up to 255'],
     ['coefficients so large that 16-bit vector sums saturate, which no encoder makes from 8-bit samples', 'the NEON and WebAssembly code, which this machine cannot compile', 'run-time detection of SSSE3 (the IR is built with it enabled)'])

# ---------------------------------------------------------------- C12
prop('C12', [Job('h_transform', [nc, ad, jf, order, ov], '%d components, Adobe %s, JFIF %d, order %d, override %d' % (nc, ad - 1 if ad else 'absent', jf, order, ov), cost=3,
                 tier='quick' if order == 0 or (ad and jf) else 'thorough')
             for nc in (3, 4) for ad in ((0, 1, 2) if nc == 3 else (0, 1, 3)) for jf in (0, 1) for order in (0, 1) for ov in (0, 1)]
     + [Job('h_adobe', [nc, m, l], 'any Adobe segment with %d further bytes %s the frame header, %d components' % (m, ('before', 'behind')[l], nc), cost=1, covers=[1, 2]) for nc in (1, 3, 4) for m in (0, 1, 3) for l in (0, 1)],
     ['every Adobe segment of 12, 13 and 15 bytes; every triple/quadruple of distinct component identifiers; JFIF and Adobe present or absent in both orders; with and without an override'],
     ['Adobe transform 1 with four components and 2 with three, which the documentation leaves open'])

# ---------------------------------------------------------------- C13
prop('C13', [Job('h_dri', [w, h, nc, i], 'any interval, %dx%d, %d components, %s' % (w, h, nc, 'interleaved' if i else 'separate scans'), cost=2, covers=[1, 2]) for (w, h, nc, i) in ((20, 20, 1, 0), (17, 9, 3, 1), (17, 9, 3, 0), (128, 20, 1, 0))] + [Job('h_restart', [w, h, nc, r, i, rd], '%dx%d, %d components, interval %d, %s%s' % (w, h, nc, r, 'interleaved' if i else 'separate scans', ', redefined' if rd else ''), cost=2, covers=[1],
                 tier='quick')
             for (w, h) in [(8, 8), (17, 25), (40, 16)] for nc in (1, 3) for r in (0, 1, 2, 3, 5) for i in (0, 1) for rd in (0, 1) if not (rd and (i or nc == 1))] +
     [Job('h_restart', [72, 16, 1, 1, 1, 0], 'marker numbers wrap after RST7', cost=2, covers=[1])] +
     [Job('h_rstmark', [k], 'any marker byte after %d correct restarts' % k, cost=2) for k in (0, 1, 6, 7, 8)] +
     [Job('h_up', [20, 17, 2, 2, 1, 1, 8, 0, r], '4:2:0 with interval %d' % r, cost=5, covers=[1]) for r in (1, 2, 3)] +
     [Job('h_lossless', [s, 8, 0, 2, 4, 1, rows, 4], 'lossless, predictor %d, restart every %d lines' % (s, rows), cost=2, covers=[1]) for s in (1, 2, 4, 6, 7) for rows in (1, 2)],
     ['listed sizes and intervals; every sample value (one per block); every byte value as the marker at a restart point'],
     ['intervals above 5'])

# ---------------------------------------------------------------- C15
_il = []
for arr in (1, 2, 3, 4):
    for (w, h, hm, vm, hh, v) in [(9, 9, 1, 1, 1, 1), (20, 17, 2, 1, 1, 1), (20, 17, 2, 2, 1, 1), (5, 5, 2, 2, 2, 1), (20, 20, 1, 2, 1, 1), (17, 9, 4, 1, 2, 1), (40, 9, 4, 1, 2, 1), (9, 40, 1, 4, 1, 2), (9, 44, 1, 4, 1, 2)]:
        _il.append(Job('h_up', [w, h, hm, vm, hh, v, 8, arr], '%dx%d, %dx%d / %dx%d / 1x1, scan arrangement %d' % (w, h, hm, vm, hh, v, arr), cost=5, covers=[1],
                       tier='quick' if arr in (1, 3) or (arr == 2 and hm == 2) else 'thorough'))
for (w, h, hm, vm, hh, v) in [(9, 40, 1, 3, 1, 1), (5, 25, 1, 3, 1, 3), (40, 9, 3, 1, 1, 1), (25, 26, 3, 3, 1, 1), (9, 50, 2, 3, 1, 3), (50, 9, 3, 2, 3, 1)]:
    for arr in (0, 1, 3, 4):
        if hm * vm + hh * v + 1 > 10 and arr == 0:
            continue        # too many blocks in an MCU
        _il.append(Job('h_up', [w, h, hm, vm, hh, v, 8, arr], '%dx%d, %dx%d / %dx%d / 1x1, scan arrangement %d' % (w, h, hm, vm, hh, v, arr), cost=5, covers=[1],
                       tier='quick' if arr in (0, 1) or hm * vm == 3 else 'thorough'))
_il.append(Job('h_up', [41, 37, 4, 4, 2, 2, 8, 1], '41x37, 4x4 / 2x2 / 1x1, separate scans', cost=20, covers=[1]))
_il.append(Job('h_up', [10, 6, 2, 2, 1, 1, 4, 1], 'scaled, 4:2:0, separate scans', cost=10, covers=[1]))
for (w, h, hm, vm, hh, v) in [(9, 9, 1, 1, 1, 1), (20, 17, 2, 2, 1, 1), (17, 9, 4, 1, 2, 1), (9, 17, 1, 2, 1, 1), (17, 9, 2, 1, 2, 1)]:
    for ri in (0, 1000, 1):
        _il.append(Job('h_up', [w, h, hm, vm, hh, v, 8, 99, ri], '%dx%d, %dx%d / %dx%d / 1x1, every arrangement of the scans%s' % (w, h, hm, vm, hh, v, {0: '', 1000: ', progressive', 1: ', restarts'}[ri]), cost=15, covers=[1],
                       tier='quick'))
_il += [Job('h_layout', [w, 9, n, 11, 8, ri, 1], '%d components, %d wide, every arrangement of the scans%s' % (n, w, ', progressive' if ri else ''), cost=10, covers=[1]) for n in (3, 4) for w in (9,) for ri in (0, 1000)]
prop('C15', _il, ['every distribution of three or four components over scans in every order', 'listed sizes, samplings and scan arrangements (separate, reordered, partly interleaved); every sample value (one per block)'],
     ['AC coefficients in this comparison (block decoding is C07)', 'progressive scans (C14)'])

# ---------------------------------------------------------------- C16
_ll = [Job('h_lossless', [s, 8, 0, 3, 3, 1, 0, 4], '3x3, 8 bit, predictor %d' % s, cost=3, covers=[1]) for s in range(1, 8)]
_ll += [Job('h_lossless', [s, 16, 0, 2, 2, 1, 0, 15], '2x2, 16 bit, predictor %d, differences up to 15 bits' % s, cost=5, covers=[1]) for s in range(1, 8)]
_ll += [Job('h_lossless', [s, 8, pt, 2, 2, 1, 0, 5], '2x2, predictor %d, point transform %d' % (s, pt), cost=2, covers=[1]) for s in range(1, 8) for pt in (1, 3)]
_ll += [Job('h_lossless', [s, p, 0, 2, 2, 1, 0, 6], '2x2, predictor %d, precision %d' % (s, p), cost=2, covers=[1]) for s in (1, 4, 7) for p in (2, 4, 7, 9, 12, 15)]
_ll += [Job('h_lossless', [s, 8, 0, 2, 2, nc, 0, 4, sep], '2x2, predictor %d, %d components, %s' % (s, nc, 'separate' if sep else 'interleaved'), cost=3, covers=[1]) for s in (1, 5) for nc in (3, 4) for sep in (0, 1)]
_ll += [Job('h_lossless', [s, 8, 0, 2, 4, 1, rows, 4], '2x4, predictor %d, restart every %d lines' % (s, rows), cost=2, covers=[1]) for s in range(1, 8) for rows in (1, 2)]
_ll += [Job('h_lossless', [s, 16, 0, 2, 2, 1, 0, 16], 'category 16 (difference 32768), predictor %d' % s, cost=2, covers=[1]) for s in (1, 4)]
_ll += [Job('h_lossless', [s, 12, 2, 3, 2, 1, 1, 7], '3x2, 12 bit, point transform 2, restarts, predictor %d' % s, cost=2, covers=[1]) for s in (1, 3, 6)]
_ll += [Job('h_lossless', [s, p, pt, 2, 2, 1, 0, c], '2x2, %d bit, predictor %d, point transform %d' % (p, s, pt), cost=2, covers=[1]) for s in (1, 2, 4, 7) for (p, pt, c) in ((8, 4, 4), (8, 6, 2), (8, 7, 1), (16, 4, 7), (16, 9, 7), (16, 15, 1), (12, 11, 1))]
_ll += [Job('h_lossless', [s, 8, 0, w, h, 1, 0, 3], '%dx%d, predictor %d' % (w, h, s), cost=3, covers=[1]) for s in range(1, 8) for (w, h) in ((4, 4), (8, 1), (1, 8))]
_ll += [Job('h_lossless', [s, 8, 0, 3, 3, nc, r, 3, sep], '3x3, predictor %d, %d components, %s, restarts every %d lines' % (s, nc, 'separate' if sep else 'interleaved', r), cost=6, covers=[1]) for s in (2, 3, 4, 6, 7) for nc in (3, 4) for sep in (0, 1) for r in (0, 2)]
prop('C16', _ll, ['larger pictures of up to 4x4, 8x1 and 1x8 samples with differences of 3 bits; point transforms up to 15', 'images up to 3x3 (2x4 with restarts); every difference of the listed category'],
     ['larger images; subsampled lossless components'])

# ---------------------------------------------------------------- C06
_hf = [Job('h_huff', [3, l, r], 'all tables of 3 codes whose shortest has %d bits, symbols rotated by %d, any bit string' % (l, r), cost=60 if l < 4 else 10, time=150, tier='quick' if r in (0, 4) else 'thorough')
       for l in range(1, 17) for r in (0, 1, 2, 4, 9)]
_hf += [Job('h_huff', [2, l, r], 'all tables of 2 codes, shortest %d bits, symbols rotated by %d' % (l, r), cost=1) for l in (1, 2, 7, 8, 9, 15, 16) for r in (3, 6, 8)]
_hf += [Job('h_huff', [1, l, r], 'one code of %d bits, symbols rotated by %d' % (l, r), cost=1) for l in range(1, 17) for r in (0, 2)]
_hf += [Job('h_huff', [4, l, r], 'all tables of 4 codes, shortest %d bits, symbols rotated by %d' % (l, r), cost=40, time=600, tier='thorough') for l in range(1, 17) for r in (0, 2)]
_hf += [Job('h_hufft', [k, r], 'larger table %d, symbols rotated by %d, any bit string' % (k, r), cost=5, tier='quick' if r in (0, 5) else 'thorough') for k in range(10) for r in (0, 2, 5, 7)]
_hf += [Job('h_dht', [a, b, n], 'any numbers of codes of %d and %d bits with %d values' % (a, b, n), cost=5 if n < 100 else 100, time=150 if n < 100 else 600, tier='quick' if n < 100 else 'thorough') for (a, b, n) in
        [(1, 2, 2), (1, 2, 3), (2, 3, 5), (3, 4, 9), (4, 8, 17), (7, 8, 129), (8, 16, 255), (8, 9, 256), (1, 16, 16), (15, 16, 3), (6, 9, 40)]]
_hf += [Job('h_halign', [a, 8, k], 'table %d, a code behind %d to %d bits' % (k, a, a + 7), cost=3, tier='quick' if k == 0 or a in (26, 34, 42, 50) else 'thorough', covers=[1, 3]) for k in range(3) for a in (2, 10, 18, 26, 34, 42, 50, 58, 66)]
_hf += [Job('h_dest', [s], 'SOF%d, any class and destination' % s, cost=1, covers=[1, 2]) for s in range(4)]
prop('C06', _hf, ['a code behind every number of bits from 2 to 73', 'every table of up to 3 codes (4 in the thorough tier) of any lengths, and ten larger ones; every string of 64 bits without FF bytes; two symbols decoded per string',
                  'AC tables: some of the programs of C07'],
     ['tables of more codes than listed with every shape at once; a code consisting of 1-bits only, which the standard forbids'])

# ---------------------------------------------------------------- C07
E_ = -1
_progs = [
    ('DC only', [0, 0, E_]),
    ('two blocks, short runs', [3, 1, 0, E_, 5, 17, 33, 0, E_]),
    ('ZRL and a long run', [5, 2, 0, E_, 4, 240, 33, 0, E_]),
    ('three ZRL up to position 63', [2, 240, 240, 240, 0xE2, E_, 1, 0xF1, 0, E_]),
    ('last coefficient reached by runs of 15', [4, 0xF1, 0xF1, 0xF1, 0xE1, E_, 3, 1, 1, 0, E_]),
    ('wide coefficients', [11, 10, 10, 0, E_]),
    ('sizes 1 to 6', [6, 1, 2, 3, 4, 5, 6, 0, E_]),
    ('sizes 7 to 10 behind runs', [6, 0x17, 0x28, 0x39, 0x4A, 0, E_]),
    ('mixed runs', [7, 0x12, 0x31, 0x52, 0x71, 0x93, 0, E_, 7, 0xB1, 0xD2, 0, E_]),
    ('ZRL then EOB then another block', [1, 240, 0, E_, 2, 240, 240, 0x13, 0, E_]),
    ('dense', [3] + [1] * 20 + [0, E_]),
    ('dense with runs of one', [3] + [0x11] * 15 + [0, E_]),
    ('all 63', [3] + [1] * 63 + [E_]),
]
_bl = []
for kind in range(6):
    for (name, pr) in _progs:
        big = name in ('wide coefficients',)
        n1 = len(pr)
        _bl.append(Job('h_block', [kind, 2 if big else 8 if n1 < 40 else 2] + pr + [-2], '%s, code lengths %s' % (name, ['short', '12 to 14', '16', 'growing', 'growing from 6', '8 then 9'][kind]),
                       cost=4 if n1 < 18 else 20, covers=[1], time=120 if n1 > 40 else 60,
                       tier='quick' if (kind in (0, 1, 3) and n1 < 40 and (kind or name != 'mixed runs')) or (name == 'mixed runs' and kind) else 'thorough'))
_bl += [Job('h_badblock', [0], 'every DC category above 11', cost=1, covers=[1]), Job('h_dcwrap', [3, 11], 'DC differences of category 11', cost=3, covers=[1]),
        Job('h_dcwrap', [2, 9], 'DC differences of category 9', cost=3, covers=[1])]
_bl += [Job('h_pairs', [a, min(8, 63 - a), s1, s2, l], 'coefficients of %d and %d bits at any two positions, the first at %d to %d, %s codes' % (s1, s2, a, min(a + 7, 62), ('short', 'long')[l]), cost=3, covers=[1],
            tier='quick' if (s1, l) in ((3, 0), (2, 1)) else 'thorough') for a in range(1, 63, 8) for (s1, s2, l) in ((3, 2, 0), (2, 4, 1), (1, 3, 0), (10, 10, 1))]
_bl += [Job('h_balign', [a, 8, k], 'block %d behind %d to %d bits' % (k, a, a + 7), cost=3, covers=[1]) for a in range(2, 74, 8) for k in range(4)]
prop('C07', _bl, ['two coefficients at every two positions; blocks behind 2 to 73 other bits', 'the listed programs of DC category, runs, sizes and end-of-block, over six assignments of code lengths 1 to 16; every value of every coefficient in its size class'],
     ['other programs; entropy bytes equal to FF (C18)'])
# the table that joins short code words with the bits behind them belongs to C06 as well
PROPS['C06'].jobs += [j for j in _bl if j.entry == 'h_block' and j.tier == 'quick' and any(j.what.startswith(n) for n in ('sizes 1 to 6', 'mixed runs', 'two blocks'))]

# ---------------------------------------------------------------- C08
_id = [Job('h_idct', [p, 255, 1023, 1500, 8, 1, 63, 0], 'pixel %d, all 64 coefficients, AC products up to 255, DC up to 1023' % p, cost=6, covers=[1]) for p in range(64)]
_id += [Job('h_idct', [p, 2047, 1023, 1500, 8, a, b, 0], 'pixel %d, AC products up to 2047 at zigzag %d..%d' % (p, a, b), cost=1, covers=[1], tier='quick' if p % 9 == 0 else 'thorough')
        for p in range(64) for (a, b) in [(1, 3), (4, 9), (10, 14), (31, 35), (55, 57), (61, 63)]]
_id += [Job('h_idct', [p, 2, 8, 1000, 8, 1, 63, 1], 'pixel %d, every coefficient -31..31 including zeros' % p, cost=6, covers=[1], tier='quick' if p in (0, 13, 27, 38, 56, 63) else 'thorough') for p in range(64)]
_id += [Job('h_idct', [p, 16, 16, 1500, 8, 1, 10, 1], 'pixel %d, ten low coefficients including zeros' % p, cost=1, covers=[1], tier='quick' if p % 5 == 0 else 'thorough') for p in range(64)]
for (n, q) in [(4, 1023), (2, 1023), (1, 1023)]:
    _id += [Job('h_idct', [p, q, 1023, 1500, n, 1, 63, 0], 'scale %d/8, sample %d' % (n, p), cost=1, covers=[1]) for p in range(n * n)]
    _id += [Job('h_idct', [p, 32, 32, 1500, n, 1, 63, 1], 'scale %d/8, sample %d, including zeros' % (n, p), cost=1, covers=[1]) for p in range(n * n)]
_id += [Job('h_idct', [p, 511, 2047, 2000, 8, 1, 63, 0], 'pixel %d, AC products up to 511, DC up to 2047' % p, cost=12, time=240, covers=[1], tier='thorough') for p in range(64)]
prop('C08', _id, ['every sample position; all 64 coefficients at once with products up to 255 (DC 1023), groups of coefficients with products up to 2047; tolerance 1.5 (1.0 where stated)',
                  'quantization as a symbolic product of table entry and coefficient'],
     ['all coefficients above 255 at the same time; products beyond 11 bits'])

# ---------------------------------------------------------------- C09
_q = [Job('h_qtable', [k, p, n, t], 'zigzag position %d, %d-bit entry, destination %d' % (k, 16 if p else 8, t), cost=1, covers=[1], tier='quick' if p == k % 2 else 'thorough')
      for k in range(64) for p in (0, 1) for n in ((k // 2) % 2,) for t in (k % 4,)]
_q += [Job('h_qdef', [w], d, cost=2, covers=[1]) for w, d in enumerate(['one segment, mixed precisions', 'one segment, other order', 'redefined before the frame', 'redefined before the scan', 'redefined between scans', 'redefined within a segment'])]
_q += [Job('h_qbad', [k], d, cost=2) for k, d in enumerate(['8-bit tables: every precision and destination byte, every entry', '16-bit tables likewise', 'segment lengths', 'selectors of tables that were not defined'])]
_q += [Job('h_qmiss', [n, s, p], 'any tables defined, any selectors, %d components, SOF%d, %s' % (n, s, ('one scan', 'a scan each')[p]), cost=n, covers=[1, 2]) for n in (1, 3, 4) for s in (0, 2) for p in (0, 1)]
prop('C09', _q, ['every choice of defined tables and selectors of up to three components', 'every table entry in turn (all others symbolic as well), all four destinations; six ways of redefining; all header bytes of one table'],
     ['more than four redefinitions'])


# ---------------------------------------------------------------- C14, C24
_FULL = [1, 0, 0, 0, 1, 1, 1, 5, 0, 2, 1, 6, 63, 0, 2, 1, 1, 63, 2, 1, 1, 0, 0, 1, 0, 1, 1, 63, 1, 0]
_SPEC = [1, 0, 0, 0, 0, 1, 1, 5, 0, 0, 1, 6, 63, 0, 0]
_SPEC4 = [1, 0, 0, 0, 2, 1, 1, 1, 0, 0, 1, 2, 9, 0, 1, 1, 10, 20, 0, 0, 1, 21, 63, 0, 0, 1, 2, 9, 1, 0, 1, 0, 0, 2, 1, 1, 0, 0, 1, 0]
_REF = [1, 0, 0, 0, 0, 1, 1, 63, 0, 1, 1, 1, 63, 1, 0]
_REF2 = [1, 0, 0, 0, 0, 1, 1, 63, 0, 2, 1, 1, 63, 2, 1, 1, 1, 63, 1, 0]
_HIGH = [1, 0, 0, 0, 4, 1, 1, 63, 0, 5, 1, 0, 0, 4, 3, 1, 1, 63, 5, 4]
_M3 = [7, 0, 0, 0, 1, 1, 1, 63, 0, 0, 2, 1, 63, 0, 0, 4, 1, 63, 0, 0, 7, 0, 0, 1, 0]
_SEP = [4, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 1, 63, 0, 0, 1, 1, 63, 0, 0]
_PART = [5, 0, 0, 0, 0, 2, 0, 0, 0, 0, 4, 1, 63, 0, 0, 1, 1, 63, 0, 0]
_B1 = [0, 4, 1, 3, 2, 1, 7, 2, 20, 1, 40, 1, E_]
_E = [0, 3, E_]
def _pr(what, nc, samp, mx, my, eob, lens, ri, send, scans, blocks, cost=10, tier='quick', time=120):
    return Job('h_prog', [nc, samp, mx, my, eob, lens, ri, send, 4] + scans + [E_] + blocks + [-2], what, cost=cost, covers=[1], tier=tier, time=time)
_pg = [
    _pr('spectral selection and refinement of both kinds', 1, 11, 1, 1, 0, 0, 0, 0, _FULL, _B1, 14),
    _pr('end-of-band runs over 17 empty blocks', 1, 11, 6, 3, 0, 0, 0, 0, _SPEC, _B1 + _E * 16 + [0, 2, 5, 3, E_], 23),
    _pr('one end-of-band code per block', 1, 11, 3, 2, 1, 0, 0, 0, _SPEC, _B1 + _E + [0, 2, 9, 3, 63, 2, E_], 8),
    _pr('runs of two blocks', 1, 11, 6, 2, 2, 1, 0, 0, _SPEC, _B1 + _E * 5 + [0, 2, 9, 3, 63, 2, E_] + _E * 3, 15),
    _pr('bands with different shifts', 1, 11, 2, 1, 0, 0, 0, 0, _SPEC4, [0, 4, 1, 2, 3, 1, 12, 3, E_] + [0, 2, 2, 2, 21, 4, E_], 20),
    _pr('end-of-band runs and restarts', 1, 11, 4, 2, 0, 0, 2, 0, _SPEC, _B1 + _E * 5 + [0, 2, 9, 3, 63, 2, E_] + _E, 9),
    _pr('restart interval 3, last run cut', 1, 11, 4, 2, 0, 0, 3, 0, _SPEC, [0, 4, 1, 2, 3, 1, E_] + _E * 5 + [0, 2, 9, 1, 63, 2, E_] + _E, 9),
    _pr('refinement of a dense block', 1, 11, 1, 1, 0, 0, 0, 0, _REF, [0, 4, 1, 1, 2, 2, 18, 1, 20, 2, 40, 1, E_], 9),
    _pr('refinement with ZRL over refined positions', 1, 11, 1, 1, 0, 0, 0, 0, _REF, [0, 4, 5, 2, 30, 1, 63, 1, E_], 2),
    _pr('refinement with ZRL, last coefficient only refined', 1, 11, 1, 1, 0, 2, 0, 0, _REF, [0, 4, 17, 2, 34, 1, 50, 2, E_], 9),
    _pr('three ZRL in a refinement scan', 1, 11, 1, 1, 0, 2, 0, 0, _REF, [0, 4, 50, 1, E_], 1),
    _pr('refinement within a run of blocks', 1, 11, 3, 1, 0, 0, 0, 0, _REF, [0, 4, 5, 2, E_, 0, 3, 8, 2, E_, 0, 3, 9, 1, E_], 20),
    _pr('new coefficients before a run', 1, 11, 3, 1, 0, 0, 0, 0, _REF, [0, 4, 5, 1, 9, 2, E_] + _E + [0, 3, 8, 2, E_], 20),
    _pr('a run of blocks with and without coefficients', 1, 11, 4, 1, 0, 0, 0, 0, _REF, _E + [0, 4, 5, 2, E_] + _E + [0, 3, 9, 1, E_], 10),
    _pr('refinement, one end-of-band code per block', 1, 11, 2, 1, 1, 0, 0, 0, _REF, [0, 4, 5, 1, 9, 2, E_, 0, 3, 8, 2, E_], 16),
    _pr('refinement and restarts', 1, 11, 4, 1, 0, 0, 2, 0, _REF, [0, 4, 5, 2, E_] + _E + [0, 3, 8, 2, E_] + _E, 26),
    _pr('two refinements of one band', 1, 11, 1, 1, 0, 0, 0, 0, _REF2, [0, 4, 1, 3, 2, 2, 3, 1, E_], 12),
    _pr('two refinements, two blocks', 1, 11, 2, 1, 0, 0, 0, 0, _REF2, [0, 4, 1, 3, E_, 0, 2, 5, 1, E_], 9),
    _pr('high shifts', 1, 11, 1, 1, 0, 0, 0, 0, _HIGH, [0, 4, 1, 6, 9, 5, E_], 9),
    _pr('three components', 3, 11, 2, 1, 0, 0, 0, 0, _M3, [0, 4, 1, 3, 2, 1, E_] + _E, 5),
    _pr('4:2:0', 3, 22, 1, 1, 0, 0, 0, 0, _M3, [0, 4, 1, 3, 2, 1, E_, 0, 1, 3, 2, E_, 0, 2, 3, 1, E_, 0, 3, E_, 0, 4, E_, 0, 4, E_], 8),
    _pr('4:2:2', 3, 21, 1, 2, 0, 0, 0, 0, [7, 0, 0, 0, 1, 1, 1, 63, 0, 0, 7, 0, 0, 1, 0], [0, 4, 1, 3, E_] + _E * 7, 8, tier='thorough'),
    _pr('separate DC scans out of order', 3, 11, 2, 2, 0, 0, 0, 0, _SEP, [0, 4, 2, 1, E_] + _E * 2, 11),
    _pr('AC of a component before the DC of others', 3, 11, 1, 1, 0, 0, 0, 0, [3, 0, 0, 0, 0, 1, 1, 63, 0, 0, 4, 0, 0, 0, 0, 2, 1, 63, 0, 0, 4, 1, 63, 0, 0], [0, 4, 2, 1, E_], 2),
    _pr('partly interleaved DC scans', 3, 11, 2, 1, 0, 1, 0, 0, _PART, [0, 4, 2, 1, E_] + _E, 5),
    _pr('4:2:0 with restarts', 3, 22, 1, 1, 0, 0, 1, 0, _M3, [0, 4, 1, 3, 2, 1, E_] + _E * 5, 10),
] + [_pr('all kinds, code lengths %s' % t, 1, 11, 1, 1, 0, l, 0, 0, _FULL, [0, 4, 1, 3, 7, 2, 40, 1, E_], 11, tier='quick' if l == 3 else 'thorough') for l, t in ((1, '11'), (2, '1 to 16'), (3, '16'))] + [
    _pr('three refined coefficients, three blocks', 1, 11, 3, 1, 0, 0, 0, 0, _FULL, _B1 + _E + [0, 2, 6, 2, E_], 400, 'thorough', 60),
    _pr('bands with different shifts, 2x2', 1, 11, 2, 2, 0, 0, 0, 0, _SPEC4, [0, 4, 1, 2, 3, 1, 12, 3, 22, 1, 63, 4, E_] + _E + [0, 2, 1, 5, E_] + [0, 1, 2, 2, 3, 2, 21, 4, E_], 400, 'thorough', 60),
    _pr('end-of-band run of 130 blocks', 1, 11, 13, 10, 0, 0, 0, 0, _SPEC, [0, 4, 6, 1, E_] + [0, 0, E_] * 128 + [0, 0, 63, 1, E_], 400, 'thorough', 60),
]
_LAST = [1, 1, 63, 0, 0, 7, 0, 0, 0, 0]                                     # AC before DC
_LASTR = [7, 0, 0, 0, 1, 1, 1, 63, 0, 0, 7, 0, 0, 1, 0]                     # interleaved DC refinement last
_MID = [2, 0, 0, 0, 0, 1, 0, 0, 0, 0, 4, 0, 0, 0, 1, 1, 1, 63, 0, 1, 1, 1, 63, 1, 0, 4, 0, 0, 1, 0]
_MIX = [1, 2, 63, 0, 0, 7, 0, 0, 0, 1, 1, 1, 1, 0, 0, 7, 0, 0, 1, 0]
_FAC = [(22, '4:2:0'), (21, '4:2:2'), (12, '4:4:0'), (41, '4:1:1'), (112211, 'second component larger'), (222111, 'three sizes'), (112112, 'wide and tall'), (221222, 'first two different'), (13, 'height 3'), (14, 'height 4'), (42, '4x2')]
_Z = [0, 0, E_]
_DCAC = [0, 3, 1, 2, 9, 1, E_] + _Z * 2 + [0, 2, 5, 1, E_] + _Z
_DC1 = [0, 3, E_] + _Z * 4
for _f, _t in _FAC:
    for _sc_, _n in ((_LAST, 'AC before interleaved DC'), (_LASTR, 'interleaved DC refinement last'), (_MIX, 'mixed order')):
        # two MCUs each way, the last with only its first samples
        _hv = [(_f // 100 ** i % 10 ** 2) for i in range(3) if _f >= 100 ** i]
        _cx, _cy = max(x // 10 for x in _hv) * 8, max(x % 10 for x in _hv) * 8
        for _mx, _my in ((2, 2), (1, 2)):
            if _mx == 1 and _sc_ is _MIX:
                continue
            _pg.append(_pr('%s, %s, %dx%d MCUs, the last ones cut' % (_t, _n, _mx, _my), 3, _f, _mx + 100 * (_cx - 7), _my + 100 * (_cy - 7), 0, 0, 0, 0, _sc_, _DC1 if _f in (13, 14, 41, 42) else _DCAC, 6))
_pg += [_pr('%s, every component apart' % t, 3, f, 2, 2, 0, 0, 0, 0, _MID, _DC1, 6) for f, t in _FAC[:5]]
_pg += [_pr('one component with factors %d, refinement' % f, 1, f, 3, 3, 0, 0, 0, 0, _REF, [0, 3, 1, 2, 2, 1, E_] + _Z * 3, 8) for f in (22, 31)]
_pg += [_pr('4:2:0 with restarts every %d MCUs, last column cut' % r, 3, 22, 802, 2, 0, 0, r, 0, _LASTR, _DC1, 6) for r in (1, 2, 3)]
_pg += [_pr('four components, %d' % f, 4, f, 802 if f > 11111111 else 2, 2, 0, 0, 0, 0, [8, 0, 0, 0, 0, 7, 0, 0, 0, 0, 1, 1, 63, 0, 1, 8, 1, 20, 0, 0, 1, 1, 63, 1, 0], _DC1, 6) for f in (11111111, 21111121, 22111112)]
_HI = [1, 0, 0, 0, 0, 1, 6, 63, 0, 0, 1, 1, 5, 0, 0]                        # the high band before the low one
_HIR = [1, 6, 63, 0, 1, 1, 1, 5, 0, 2, 1, 0, 0, 0, 1, 1, 6, 63, 1, 0, 1, 1, 5, 2, 1, 1, 0, 0, 1, 0, 1, 1, 5, 1, 0]
_HI3 = [7, 0, 0, 0, 0, 2, 6, 63, 0, 0, 4, 6, 63, 0, 1, 1, 6, 63, 0, 0, 4, 1, 5, 0, 0, 2, 1, 5, 0, 0, 1, 1, 5, 0, 0, 4, 6, 63, 1, 0]
_HC = [0, 4, 1, 3, 7, 2, E_]
_pg += [_pr('high band first', 1, 11, 2, 1, 0, 0, 0, 0, _HI, _HC + _HC, 4), _pr('high band first, DC last, refinement', 1, 11, 2, 1, 0, 0, 0, 0, _HIR, _HC + _E, 6),
        _pr('high bands first, three components', 3, 11, 1, 1, 0, 0, 0, 0, _HI3, _HC * 3, 4)]
_pb = ['the listed scan scripts; every value of every DC difference, AC sign and magnitude bit; code lengths 2 to 16', 'every order of merged and single end-of-band codes listed']
prop('C14', _pg, _pb, ['other scripts and coefficient positions', 'entropy bytes equal to FF (C18)'])
_un = [_pr('%d of 6 scans' % k, 1, 11, 2, 1, 0, 0, 0, k, _FULL, [0, 4, 1, 3, 7, 2, E_] + _E, 4) for k in range(1, 6)]
_un += [_pr('three components, %d of 5 scans' % k, 3, 11, 2, 1, 0, 0, 0, k, _M3, [0, 4, 1, 3, 2, 1, E_] + _E, 5) for k in range(1, 5)]
_un += [_pr('separate DC scans, %d of 5 sent' % k, 3, 11, 2, 2, 0, 0, 0, k, _SEP, [0, 4, 2, 1, E_] + _E * 2, 10) for k in range(1, 5)]
_un += [_pr('partly interleaved, %d of 4 sent' % k, 3, 11, 2, 1, 0, 0, 0, k, _PART, [0, 4, 2, 1, E_] + _E, 5) for k in range(1, 4)]
_un += [_pr('4:2:0, %d of 5 scans' % k, 3, 22, 1, 1, 0, 0, 0, k, _M3, _E * 6, 10) for k in range(1, 3)]
_un += [_pr('bands, %d of 8 scans' % k, 1, 11, 3, 2, 0, 0, 0, k, _SPEC4, [0, 4, 1, 2, 3, 1, 12, 3, E_] + _E * 4 + [0, 3, 63, 4, E_], 10) for k in (2, 3, 5)]
_un += [_pr('refinement missing, with restarts, %d of 3' % k, 1, 11, 4, 1, 0, 0, 2, k, _REF, [0, 4, 5, 2, E_] + _E + [0, 3, 8, 2, E_] + _E, 8) for k in (1, 2)]
_un += [_pr('%s, %d of %d sent, last MCUs cut' % (t, k, len(sc) // 5), 3, f, mx + 100 * cx, my + 100 * cy, 0, 0, 0, k, sc, _DC1, 4)
        for (f, t, mx, my, cx, cy) in ((22, '4:2:0', 2, 2, 9, 9), (21, '4:2:2', 2, 1, 8, 0), (12, '4:4:0', 1, 2, 0, 8), (112211, 'second component larger', 2, 2, 8, 8), (222111, 'three sizes', 2, 1, 8, 0))
        for sc in (_LASTR, _MID) for k in range(1, len(sc) // 5)]
_un += [_pr('one component with factors %d, %d of 2 sent' % (f, k), 1, f, 3, 3, 0, 0, 0, k, [1, 0, 0, 0, 0, 1, 1, 63, 0, 1, 1, 1, 63, 1, 0], [0, 3, 1, 2, 2, 1, E_] + _Z * 3, 4) for f in (22, 31) for k in (1, 2)]
_un += [_pr('four components %d, %d of 5 sent' % (f, k), 4, f, 802 if f > 11111111 else 2, 2, 0, 0, 0, k, [8, 0, 0, 0, 0, 7, 0, 0, 0, 1, 1, 1, 63, 0, 0, 8, 1, 20, 0, 0, 7, 0, 0, 1, 0], _DC1, 4) for f in (11111111, 21111121, 22111112) for k in (2, 3, 4)]
_un += [_pr('high band first, %d of 3 sent' % k, 1, 11, 2, 1, 0, 0, 0, k, _HI, _HC + _HC, 4) for k in (1, 2)]
_un += [_pr('high band first, DC last, %d of 7 sent' % k, 1, 11, 2, 1, 0, 0, 0, k, _HIR, _HC + _E, 4) for k in range(1, 7)]
_un += [_pr('high bands first, three components, %d of 8 sent' % k, 3, 11, 1, 1, 0, 0, 0, k, _HI3, _HC * 3, 4) for k in range(1, 8)]
prop('C24', _un, _pb, ['streams that end inside a scan (C20)'])

# ---------------------------------------------------------------- C17
_pl = ['before the tables', 'before the frame', 'before the code tables', 'before the scan', 'after the scan']
_ic = [Job('h_icc', [1, 0, p, 0], 'one ICC chunk %s, any number and count' % _pl[p], cost=1, covers=[1, 2]) for p in (0, 4)]
_ic += [Job('h_icc', [n, m, p, q], '%d ICC chunks, the first %s, others %s; numbers and counts up to %d' % (n, _pl[p], _pl[q], m), cost=1, covers=[1, 2])
        for (n, m) in ((2, 6), (3, 4)) for (p, q) in ((0, 0), (1, 0), (0, 3), (4, 1))]
_ic += [Job('h_icc', [4, 5, p, q], '4 ICC chunks, numbers and counts up to 5', cost=5, covers=[1, 2]) for (p, q) in ((0, 0), (3, 1))]
_ic += [Job('h_icc', [2, 0, 0, 0], 'two ICC chunks, any numbers and counts', cost=100, covers=[1, 2], tier='thorough', time=360)]
_ic += [Job('h_icc', [5, 6, 0, 2], '5 ICC chunks, numbers and counts up to 6', cost=100, covers=[1, 2], tier='thorough', time=120)]
_ic += [Job('h_iccmany', [n, -1, o], '%d ICC chunks in %s order' % (n, 'reverse' if o else 'file'), cost=1, covers=[1]) for n in (16, 254, 255) for o in (0, 1)]
_ic += [Job('h_iccmany', [n, k, 0], '%d ICC chunks, number %d missing' % (n, k + 1), cost=1, covers=[2]) for (n, k) in ((20, 0), (20, 19), (255, 7), (255, 254), (255, 0))]
_ic += [Job('h_iccmany', [256, -1, 0], 'more chunks than there are numbers', cost=1, covers=[2])]
_ic += [Job('h_app1', [p, l, 0, 0, 0], 'any APP1 segment of %d bytes %s' % (l, _pl[p]), cost=1, covers=[3] + ([1] if l >= 6 else []) + ([2] if l >= 29 else []))
        for p in (0, 1, 3, 4) for l in (0, 5, 6, 7, 28, 29, 30, 60)]
_ic += [Job('h_app1', [p, l, k, q, m], 'any APP1 segment of %d bytes %s and %s of %d bytes %s' % (l, _pl[p], ('Exif', 'XMP')[k - 1], m, _pl[q]), cost=1, covers=[3, k])
        for (p, l, k, q, m) in ((0, 40, 1, 1, 5), (0, 40, 2, 4, 5), (4, 29, 1, 0, 0), (2, 6, 2, 0, 0), (3, 35, 1, 3, 9), (3, 12, 2, 3, 9))]
_ic += [Job('h_metalong', [k, n], '%s of %d bytes' % (('Exif', 'XMP', 'ICC chunk', 'two ICC chunks')[k], n), cost=2 if n < 9999 else 6, covers=[1]) for k in range(4) for n in (300, 4095, 8192, (65527, 65504, 65519, 65519)[k])]
prop('C17', _ic, ['contents of up to the longest possible segment, six bytes of them symbolic', 'up to 4 ICC chunks with symbolic numbers, counts and contents (5 in the thorough tier), up to 256 with fixed numbers; EXIF/XMP segments of up to 60 symbolic bytes',
                  'metadata at any place between the segments of a one-block picture'],
     ['ICC chunks without data; several EXIF or several XMP segments; longer segments (C18 has the skipping of those)'])

# ---------------------------------------------------------------- C18
_mk = [Job('h_skip', [0, p, n], 'any APPn segment of %d bytes %s' % (n, _pl[p]), cost=1, covers=[1]) for p in range(5) for n in (0, 1, 5, 12, 14, 20, 31)]
_mk += [Job('h_skip', [1, p, n], 'any comment of %d bytes %s' % (n, _pl[p]), cost=1, covers=[1]) for p in range(5) for n in (0, 1, 3, 30)]
_mk += [Job('h_skip', [2, p, n], '%d fill bytes %s' % (n, _pl[p]), cost=1, covers=[1]) for p in range(5) for n in (1, 2, 5)]
_mk += [Job('h_skip', [3, p, n], '%d bytes other than FF %s' % (n, _pl[p]), cost=1, covers=[1]) for p in range(5) for n in (1, 4)]
_mk += [Job('h_skip', [4, p, n], '%d times FF 00 and another byte %s' % (n, _pl[p]), cost=1, covers=[1]) for p in range(5) for n in (1, 3)]
_mk += [Job('h_skiplong', [m, n], 'segment %02X of %d bytes that look like markers' % (m, n), cost=1, covers=[1]) for m in (0xFE, 0xE0, 0xE1, 0xE2, 0xE3, 0xED, 0xEE, 0xEF) for n in (2, 40, 300, 8192, 8206, 65533)]
_mk += [Job('h_stuff', a, d, cost=2, covers=[1]) for a, d in [
    ([1, 11, 0, 0], 'DC bits with FF bytes'), ([3, 11, 0, 0], 'three components'), ([3, 8, 2, 1], 'restarts and a fill byte'), ([4, 11, 0, 2], 'four components, fill bytes'), ([4, 9, 2, 0], 'four components, restart'),
    ([3, 11, 3, 0], 'three components, two restarts'), ([16, 0, 0, 0], 'any two bytes'), ([32, 0, 0, 2], 'any four bytes, fill bytes'), ([40, 0, 0, 0], 'any five bytes'), ([24, 0, 8, 1], 'any byte before a restart'), ([32, 0, 16, 0], 'any two bytes before a restart')]]
_mk += [Job('h_stop', [k, e, f], '%s, %d bytes behind the end, %d fill bytes before it' % (d, e, f), cost=1, covers=[1])
        for k, d in enumerate(['baseline', 'progressive', 'lossless', 'restarts', 'separate scans']) for (e, f) in ((0, 0), (1, 0), (5, 0), (2, 3))]
_mk += [Job('h_len', [k, n], 'every length of the %s segment, %d components' % (('DQT', 'SOF', 'DHT', 'SOS', 'DRI')[k], n), cost=1, covers=[1]) for k in range(5) for n in (1, 3)]
_mk += [Job('h_len01', [m], 'lengths 0 and 1 of segment %02X' % m, cost=1, covers=[1]) for m in (0xC0, 0xC4, 0xDB, 0xDD, 0xE0, 0xE1, 0xE2, 0xE5, 0xED, 0xEE, 0xFE)]
_mk += [Job('h_rstmark', [k], 'any marker byte after %d correct restarts' % k, cost=2) for k in (0, 3)]
prop('C18', _mk, ['one inserted piece of up to 31 symbolic bytes at each of five places, long segments with symbolic first and last bytes; up to five entropy-coded bytes of any value',
                  'every 16-bit length field of one segment'],
     ['several inserted pieces at once'])

# ---------------------------------------------------------------- C19
def _sc(p, d, cost, covers=(1, 2), **k):
    return Job('h_sched', p, d, ir='par', cost=cost, covers=list(covers), time=k.pop('time', max(60, cost * 4)), **k)
_tk = ['tasks at the end in order', 'every order of the tasks', 'tasks at the end in reverse', 'tasks at once']
_im = ['rows in order', 'any row first', 'rows in reverse', 'every order of the rows', 'any row last']
_ws = [_sc([3, 1, 0, 99, 0, 136, h, 1, 11, 0, 1000], 'one component, %d rows of blocks, %s' % ((h + 7) // 8, _tk[1]), h, covers=[1, 2]) for h in (9, 20, 25)]
_ws += [_sc([3, 1, 0, 99, 0, 136, h, 1, 22, 0, 1000], 'one component with factors 2x2, %s' % _tk[1], h, covers=[1, 2]) for h in (9, 20)]
_ws += [_sc([3, 1, 0, 99, 0, w, h, 1, 11, s, 1000], 'one component at %d/8, %s' % (s, _tk[1]), 20, covers=[1, 2]) for (w, h, s) in ((272, 20, 4),)]
_ws += [_sc([0, 1, 0, 5, 0, 136, 20, 2, 2, 1, 1, 8, g, 1000], 'DC-only progressive 4:2:0, %s for the first component' % _tk[1], 20) for g in (0, 1, 2, 3, 4)]
_ws += [_sc([0, 1, 2, 5, 3, 136, 20, 2, 2, 1, 2, 8, g, r], 'DC-only progressive, restarts, %s for the second component, %s' % (_tk[1], _im[2]), 30) for (g, r) in ((1, 1002), (0, 1005))]
_ws += [_sc([0, 1, 2, 5, 6, 136, 9, 2, 1, 1, 1, 8, g, 1000], 'DC-only progressive 4:2:2, %s for the third component, %s' % (_tk[1], _im[2]), 20) for g in (0, 1)]
_ws += [_sc([0, t, i, 99, 0, 136, 17, hm, vm, h, v, 8, g, 1000], 'DC-only progressive %dx%d, %s, %s' % (hm, vm, _tk[t], _im[i]), 3) for (t, i) in ((2, 2), (3, 0)) for (hm, vm, h, v) in ((2, 2, 1, 1), (1, 2, 1, 1), (2, 1, 2, 1), (4, 1, 2, 1), (1, 1, 1, 1)) for g in (0, 1)]
_ws += [_sc([0, 0, i, 0, 0, 130, h, hm, vm, a, b, 8, g, 0], 'baseline %dx%d, %s' % (hm, vm, _im[i]), 10) for (h, i) in ((4, 3), (17, 1), (17, 4), (20, 2)) for (hm, vm, a, b, g) in ((2, 2, 1, 1, 0), (1, 1, 1, 1, 1), (2, 2, 2, 1, 1))]
_ws += [_sc([3, t, i, 99, 0, w, h, nc, 11, s, p], '%d components, %dx%d at %d/8, %s, %s' % (nc, w, h, s, _tk[t], _im[i]), 3, covers=[1, 2] if nc > 1 and h > 1 and (w > 128 * 8 / s) else [1])
        for (t, i) in ((2, 2), (3, 0)) for (w, h, nc, s, p) in ((136, 9, 3, 8, 0), (136, 9, 4, 8, 0), (136, 17, 4, 8, 1000), (264, 9, 3, 4, 1000), (264, 9, 4, 4, 0), (128, 9, 3, 8, 1000), (129, 1, 4, 8, 0), (136, 9, 3, 8, 1), (136, 9, 1, 8, 0))]
_ew = [0, 3, E_] + [0, 0, E_] * 4 + [-2]
def _spp(nc, f, mx, my, ri, send, scans):
    return [nc, f, mx, my, 0, 0, ri, send, 4] + scans + [E_] + _ew
_Q = [15, 0, 0, 0, 1, 1, 1, 63, 0, 0, 15, 0, 0, 1, 0]
_ws += [_sc([2, t, i, 99, 0] + _spp(nc, f, mx, my, ri, k, _Q if nc == 4 else _LASTR), 'progressive, %d components %d, %s, %s, %s' % (nc, f, '%d of 3 scans' % k if k else 'all scans', _tk[t], _im[i]), 6)
        for (nc, f, mx, my, ri) in ((4, 11111121, 809, 1, 0), (4, 21212111, 809, 1, 0), (4, 11111112, 17, 801, 3), (3, 22, 809, 901, 2), (3, 112211, 9, 801, 0), (3, 12, 17, 902, 2))
        for (t, i, k) in ((0, 2, 0), (3, 0, 2), (2, 0, 1))]
_ws += [_sc([3, t, i, 99, 0, w, h, nc, 11, 0, p], '%d components, %dx%d, %s, %s' % (nc, w, h, _tk[t], _im[i]), 6, covers=[1]) for (t, i) in ((2, 2), (3, 0)) for (w, h, nc, p) in ((520, 9, 1, 0), (1000, 9, 1, 1000), (400, 9, 3, 0), (700, 9, 3, 1000))]
_ws += [_sc([3, 1, 0, 99, 0, 136, 9, 4, 11, 0, 1000], 'four components, %s' % _tk[1], 400, time=1200, tier='thorough', par=4)]
_ws += [_sc([3, 1, 0, 99, 0, 136, 20, 3, 11, 0, 1000], 'three components, %s' % _tk[1], 1500, time=3000, tier='thorough', par=8)]
_ws += [_sc([3, 1, 0, 99, 0, 136, 33, 1, 11, 0, 1000], 'one component, 5 rows of blocks, %s' % _tk[1], 400, time=1200, tier='thorough', par=4)]
_ws += [_sc([0, 0, 3, 0, 0, 130, 5, 2, 2, 2, 1, 8, 1, 0], 'every order of five rows', 20, tier='thorough')]
# the worker of builds without rayon
def _mp(e, p, d, cost=3, covers=(1,), **k):
    return Job(e, p, d + ', std threads', ir='mpsc', cost=cost, covers=list(covers), **k)
_ws += [_mp('h_sched', [e, 0, 0, 0, 0] + list(r), d, cost=4) for (e, r, d) in sorted({(j.params[0], tuple(j.params[5:]), j.what.split(', tasks')[0].split(', every')[0].split(', any')[0].split(', rows')[0]) for j in _ws if j.tier == 'quick'})]
prop('C19', _ws, ['rayon worker: every order in which the tasks of one component with up to 4 rows of blocks (5 in the thorough tier) can run relative to each other and to the spawning loop, other components in a fixed order; every order of 4 output rows, and any row first or last of 17',
                  'the std::thread worker: the same pictures, each worker thread running when its result is asked for',
                  'pictures 129 to 272 wide with 1, 3 and 4 components, symbolic sample values, baseline and DC-only progressive, interleaved or not, all scale factors that leave more than 128 columns'],
     ['tasks are executed one at a time: they share only what safe Rust lets them share (rayon.rs and multithreaded.rs contain no unsafe code), so data races are excluded by the type system, not by the check',
      'rayon itself is replaced by harness/rayon-stub, which asks the engine for every scheduling decision',
      'std threads and channels (the worker of builds without rayon) are replaced by harness/thread-stub: a thread runs once its messages are queued, so a worker that looks for messages without waiting is only covered for the moments at which it would start'])

# ---------------------------------------------------------------- C20
_kinds = ['baseline with metadata, 4:2:2 and restarts', 'grey with metadata and restarts', 'progressive', 'lossless', 'separate scans', 'grey with restart markers at the end', 'lossless with restarts', 'CMYK with many segments and stuffing']
_rd = [Job('h_reader', [k, c, 0, 0, i], '%s, %d bytes per read' % (_kinds[k], c), cost=1, covers=[1]) for k in range(8) for c in (1, 2, 3, 7, 64, 1000) for i in (0, 1)]
_rd += [Job('h_reader', [k, c, f, 1500, i], '%s, %s at any read, %d bytes per read' % (_kinds[k], {1: 'one interruption', 2: 'an error', 3: 'a short read', 4: 'four interruptions'}[f], c), cost=2,
            covers=[1] + ([2] if f == 2 else []), tier='quick' if i == 0 or f == 2 else 'thorough') for k in range(8) for c in (3, 1000) for f in (1, 2, 3, 4) for i in (0, 1)]
_rd += [Job('h_trunc', [k, c], '%s, every proper prefix, %d bytes per read' % (_kinds[k], c), cost=4, covers=[2]) for k in range(8) for c in (2, 1000)]
prop('C20', _rd, ['eight pictures with symbolic samples; one fault at a symbolic read; every proper prefix'], ['several faults of different kinds; readers that return wrong counts'])

# ---------------------------------------------------------------- C21
_ap = [Job('h_api', [k, n], '%s, any %d calls before decode' % (_kinds[k], n), cost=4 ** n / 8., covers=[1], time=100, tier='quick' if n < 4 else 'thorough') for k in range(8) for n in (1, 2, 3, 4)]
prop('C21', _ap, ['every sequence of up to 3 calls (4 in the thorough tier) of read_info, scale (4 sizes), set_color_transform, the metadata queries, set_max_decoding_buffer_size and info, followed by decode and read_info',
                  'eight pictures with symbolic samples'], ['calls after an error (C01 shows only that they do not crash)', 'other arguments (C04, C05, C12)'])

# ---------------------------------------------------------------- C22
_mj = [Job('h_mjpeg', [t, 0, a, 0, 162, 1], 'no tables, selectors %d/%d, AVI1 %s, every DC category and AC symbol' % (t >> 1, t & 1, ('', 'first', 'after the frame')[a]), cost=4, covers=[1]) for t in range(4) for a in (1, 2)]
_mj += [Job('h_mjpeg', [t, d, 1, k, n, 3], 'three components, selectors %d/%d, explicit tables %s' % (t >> 1, t & 1, bin(d)), cost=2 if n < 100 else 13, covers=[1], tier='quick' if n < 100 else 'thorough')
        for t in range(4) for d in range(16) for (k, n) in ((d * 9, 12), (0, 162))]
_mj += [Job('h_mjpeg', [t, d, 0, 5, 12, n], 'no AVI1, explicit tables %s, selectors %d/%d, %d components' % (bin(d), t >> 1, t & 1, n), cost=1, covers=[1] if d == 15 else [2]) for t in range(4) for d in (0, 7, 11, 13, 14, 15) for n in (3,)]
_mj += [Job('h_mjpeg', [0, d, 0, 5, 12, 1], 'no AVI1, explicit tables %s' % bin(d), cost=1, covers=[1] if d & 3 == 3 else [2]) for d in (1, 2, 3, 12)]
_mj += [Job('h_mjpeg23', [0], 'tables 2 and 3 have no default', cost=1, covers=[1])]
prop('C22', _mj, ['every combination of table selectors and explicitly defined tables; every DC category and every AC symbol, all magnitude bits'], ['AVI1 segments of other sizes; progressive frames'])

# ---------------------------------------------------------------- C01
def _rb(p, d, cost=2, ir='dbg', covers=(1,), **k):
    return Job('h_raw', p + [0] * (7 - len(p)), d, ir=ir, cost=cost, covers=list(covers), time=max(60, cost * 5), **k)
_c1 = [_rb([8, 1], 'any 8 bytes behind SOI', 10), _rb([4, 0], 'any 4 bytes'), _rb([7, 2], 'any 7 bytes behind a quantization table', 5), _rb([6, 3], 'any 6 bytes behind a frame header', 3),
       _rb([5, 4, 3], 'any 5 bytes behind a scan, then more calls', 10), _rb([5, 4, 1, 0, 0, 3], 'any 5 bytes behind a scan of 3 components, after read_info and scale', 10),
       _rb([5, 4, 3, 0, 0, 1, 2], 'any 5 bytes behind a progressive scan', 10), _rb([5, 4, 3, 0, 0, 1, 3], 'any 5 bytes behind a lossless scan', 10),
       _rb([10, 1], 'any 10 bytes behind SOI', 60, tier='thorough'), _rb([9, 2], 'any 9 bytes behind a quantization table', 40, tier='thorough'), _rb([8, 3], 'any 8 bytes behind a frame header', 40, tier='thorough'),
       _rb([7, 4, 3], 'any 7 bytes behind a scan, then more calls', 100, tier='thorough')]
for (m, nm, lens) in ((0xDB, 'DQT', (0, 1, 64, 65, 66, 129, 130)), (0xC4, 'DHT', (0, 1, 16, 17, 18)), (0xDD, 'DRI', (0, 1, 2, 3)), (0xEE, 'APP14', (0, 5, 11, 12, 13)), (0xE0, 'APP0', (0, 4, 5, 14)),
                      (0xE1, 'APP1', (0, 6, 30)), (0xE2, 'APP2', (0, 13, 14, 15, 16)), (0xFE, 'COM', (0, 9)), (0xDA, 'SOS', (0, 1, 6, 7, 10)), (0xC0, 'SOF0', (0, 5, 6, 8, 9)), (0xC3, 'SOF3', (9,)), (0xDC, 'DNL', (2,)), (0xCC, 'DAC', (2, 4))):
    for n in lens:
        for pre in (1, 4):
            if m == 0xC4 and n > 16 and pre == 4:
                continue
            _c1.append(_rb([n, pre, 3 if n < 6 else 0, m, 2 if pre == 1 and m not in (0xC4, 0xC0, 0xC3, 0xDA) else pre], 'any %s segment of %d bytes %s' % (nm, n, 'behind SOI' if pre == 1 else 'behind a scan'), 12 if m == 0xC4 and n > 16 else 1))
for sof, nm in ((0, 'baseline'), (2, 'progressive'), (3, 'lossless')):
    _c1.append(_rb([6, 3, 0, 0xDA, 3, 1, sof], 'any scan header, %s' % nm, 5 if sof != 2 else 80, tier='quick' if sof != 2 else 'thorough'))
    _c1.append(_rb([10, 3, 0, 0xDA, 3, 3, sof], 'any scan header of 3 components, %s' % nm, 2))
    _c1.append(_rb([10, 4, 0, 0xDA, 4, 3, sof], 'any second scan header of 3 components, %s' % nm, 2))
_c1 += [_rb([18, 3, 0, 0xC4, 1], 'any code table of one code behind a frame header', 10), _rb([19, 3, 0, 0xC4, 3], 'any code table of two codes, then a scan', 100, tier='thorough'),
        _rb([20, 1, 0, 0xC4, 1], 'any code table of three codes', 200, tier='thorough'), _rb([15, 2, 0, 0xC0, 2, 3], 'any frame header of 3 components', 3)]
for (m, nm, n, more) in ((0xDB, 'DQT', 0, 5), (0xDB, 'DQT', 1, 132), (0xDB, 'DQT', 64, 69), (0xDB, 'DQT', 65, 68), (0xDB, 'DQT', 66, 67), (0xDB, 'DQT', 100, 33), (0xDB, 'DQT', 128, 5), (0xDB, 'DQT', 130, 66), (0xDB, 'DQT', 194, 70),
                         (0xC4, 'DHT', 1, 20), (0xC4, 'DHT', 16, 5), (0xC4, 'DHT', 17, 3), (0xC4, 'DHT', 18, 2),
                         (0xDD, 'DRI', 0, 4), (0xDD, 'DRI', 1, 3), (0xDD, 'DRI', 3, 2), (0xEE, 'APP14', 3, 12), (0xEE, 'APP14', 11, 3), (0xE0, 'APP0', 2, 5), (0xE1, 'APP1', 3, 6), (0xE2, 'APP2', 12, 4), (0xED, 'APP13', 5, 12), (0xFE, 'COM', 2, 3),
                         (0xC0, 'SOF0', 5, 6), (0xC0, 'SOF0', 7, 4), (0xC0, 'SOF0', 9, 8), (0xC3, 'SOF3', 6, 4)):
    _c1.append(_rb([n, 1, 0, m, 1, 1, 0, more], 'any %s segment of %d bytes, then any %d bytes' % (nm, n, more), 2))
for (n, more) in ((0, 8), (1, 6), (3, 6), (5, 5), (7, 3)):
    _c1.append(_rb([n, 3, 0, 0xDA, 1, 1, 0, more], 'any scan header of %d bytes, then any %d bytes' % (n, more), 2))
_rest = lambda d, **k: d
_en = ['baseline', 'progressive DC', 'progressive DC refinement', 'progressive AC', 'progressive AC refinement', 'lossless 8 bit', 'lossless 16 bit']
for k in range(7):
    for (nc, ri, w, h, md, a, b) in ((1, 0, 9, 9, 0, 1 if k > 4 else 0, 0), (3, 1, 9, 9, 1, 4 if k > 4 else 1, 0), (2, 0, 17, 1, 3, 7 if k > 4 else 2, 3), (4, 2, 9, 9, 4, 6 if k > 4 else 13, 15)):
        n = 1 if nc > 1 else 2
        if n == 2:
            w = h = 8 if k < 5 else 2
        _c1.append(Job('h_ent', [n, k, nc, ri, w, h, md, a, b], '%s, any %d entropy-coded bytes, %d components, interval %d' % (_en[k], n, nc, ri), ir='dbg', cost=30 if n == 2 and k not in (1, 2) else 2, time=150, covers=[1]))
    _c1.append(Job('h_ent', [3, k, 1, 0, 8 if k < 5 else 2, 8 if k < 5 else 2, 0, 1 if k > 4 else 0, 0], '%s, any 3 entropy-coded bytes' % _en[k], ir='dbg', cost=300, time=100, par=2, tier='thorough', covers=[1]))
    _c1.append(Job('h_ent', [2, k, 3, 1, 9, 9, 1, 4 if k > 4 else 1, 0], '%s, any 2 entropy-coded bytes, 3 components' % _en[k], ir='dbg', cost=300, time=100, par=2, tier='thorough', covers=[1]))
for (nc, sd, sof, lim, f, e) in ((1, 1, 0, 0xFFFFFFFFFF, 11, 0), (1, 1, 0, 1000, 22, 1), (3, 1, 0, 0xFFFFFFFFFF, 22, 0), (3, 1, 2, 0xFFFFFFFFFF, 22, 0), (3, 1, 3, 0xFFFFFFFFFF, 11, 0), (4, 1, 0, 0xFFFFFFFFFF, 44, 0), (4, 8, 0, 0xFFFFFFFFFF, 42, 0),
                                 (3, 8, 2, 0xFFFFFFFFFF, 33, 0), (3, 8, 0, 5000, 21, 1), (1, 2, 0, 0xFFFFFFFFFF, 41, 0)):
    _c1.append(Job('h_big', [0, 0, nc, sd, sof, lim, f, e], 'any frame size, %d components, SOF%d, factors %d, limit %d, scale 1/%d' % (nc, sof, f, lim, sd), ir='pardbg', cost=6, covers=[1]))
_c1 += [Job('h_fact', j.params, j.what, ir='dbg', cost=j.cost, covers=[1], tier=j.tier, crashes=True) for j in _fa]
_seen = {}
for _p in list(PROPS.values()):
    for j in _p.jobs:
        if j.ir == 'mpsc':
            _nm = _seen['mpsc'] = _seen.get('mpsc', 0) + 1
            _c1.append(Job(j.entry, j.params, j.what, ir='mpscdbg', tier='quick' if _nm % 8 == 3 and j.params[0] != 2 else 'thorough', time=j.time, cost=j.cost, covers=j.covers, crashes=True))
            continue
        if j.ir == 'simd':
            if j.entry != 'h_idct':
                _c1.append(Job(j.entry, j.params, j.what + ', vector code', ir='simd', tier='quick' if j.cost < 4 else 'thorough', time=j.time, cost=j.cost, covers=j.covers, crashes=True))
            continue
        if j.entry == 'h_fact' or (j.entry, tuple(j.params)) in _seen:
            continue
        c = _seen.setdefault(j.entry, [0, 0])
        _seen[(j.entry, tuple(j.params))] = 1
        q = j.tier == 'quick' and j.cost <= 4
        if q:
            c[0] += 1
            q = c[1] < 5 and c[0] % 5 == 1
            c[1] += q
        if j.entry == 'h_stuff' and j.params[0] == 3:
            q = False
        if j.entry in ('h_sof', 'h_scale', 'h_limit', 'h_mjpeg23') and j.tier == 'quick' and j.entry != 'h_sof':
            q = True
        if j.entry == 'h_sof' and j.params in ([0, 1], [2, 3], [3, 1]):
            q = True
        _c1.append(Job(j.entry, j.params + [1] if j.entry == 'h_format' else j.params, j.what, ir={'rel': 'dbg', 'par': 'pardbg'}[j.ir], tier='quick' if q else 'thorough', time=j.time * 2, cost=j.cost * 2, par=j.par, covers=j.covers, crashes=True))
prop('C01', _c1, ['wholly symbolic: 8 bytes behind SOI, 7 behind a table, 6 behind a frame header, 5 behind a scan (10, 9, 8, 7 in the thorough tier); every segment type with symbolic content of the lengths at which its parser branches, before the frame and after a scan; 1 or 2 symbolic entropy-coded bytes (3 in the thorough tier) in every kind of scan',
                  'every frame size with the allocations it leads to; all sampling factors; call sequences of C21', 'the pictures of the other properties, on a build with overflow checks and debug assertions'],
     ['longer symbolic byte strings at once', 'running out of memory (allocation failure aborts)', 'stack depth'],
     ['a path of more than 50 million instructions is taken for a hang and replayed natively'])
