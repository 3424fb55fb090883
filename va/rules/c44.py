"""C44: constant tables and code numbers of the formats."""
from ..lib import *
from ..engine import *
from ..stream import Stream
from . import c03

PROP = dict(
    id='C44',
    title='Format tables and code numbers equal their specification',
    statement='The constants that file formats prescribe have the prescribed values. Tables: JPEG zigzag order and the default Huffman tables of JPEG Annex K for motion JPEG; DEFLATE length, distance and precode tables, code length order and the code lengths of fixed blocks; '
              'the CRC-32 tables of PNG and inflate; Adam7 pass offsets and steps; the scaling of 1, 2, 4 bit PNG samples and of 1 to 8 bit BMP bit fields to 8 bits; the nibble reversal of the JPEG XL bit writer. '
              'Codes: JPEG marker and frame type bytes, PNG chunk names, row filters, interlacing, APNG dispose and blend operations, BMP compression, PSD color modes and compression each stand for what the format says, and numbers a format does not define are not taken for another code.',
    quantifier=dict(over=['inputs'], text='every table entry, every code number'),
    why_tests_cant='Files in the test suite use few of the table entries and codes (long distances, rare symbols, omitted Huffman tables, rare bit depths, other dispose operations).',
    anchors=dict(files=['crates/zune-jpeg/src/misc.rs', 'crates/zune-jpeg/src/marker.rs', 'crates/zune-inflate/src/constants.rs', 'crates/zune-inflate/src/crc/crc_tables.rs', 'crates/zune-png/src/crc/crc_tables.rs', 'crates/zune-png/src/enums.rs', 'crates/zune-png/src/apng.rs',
                        'crates/zune-png/src/decoder.rs', 'crates/zune-bmp/src/common.rs', 'crates/zune-bmp/src/decoder.rs', 'crates/zune-psd/src/constants.rs'],
                 mechanism=[dict(name='UN_ZIGZAG, fill_default_mjpeg_tables', where='crates/zune-jpeg/src/misc.rs'), dict(name='LITLEN_DECODE_RESULTS, OFFSET_DECODE_RESULTS', where='crates/zune-inflate/src/constants.rs'),
                            dict(name='from_int, from_u8, from_u32, read_chunk_header', where='the enums of each codec')]))
TECHNIQUE = 'comparison of compiler-evaluated constant tables with tables derived in the rule; constant propagation through the code-to-enum functions for every code'
EXPLAIN = """
The fact extractor records the value the compiler gives every constant and static.  The rule derives each prescribed table from its definition (polynomial, zigzag walk, deflate recurrence, pass geometry, bit replication; the Annex K tables as published) and compares all entries.  Functions that map a code
to an enum variant are propagated once for each code with the argument known; the only values that can be returned must be the variant named for it, or none.  PNG chunk names go through read_chunk_header with the eight header bytes of the stream known.  Default Huffman tables are identified by the slot they are stored
in, fixed-block code lengths by the constant ranges that are filled.  A table or function that is no longer there under its name is reported as undecided.
"""
ASSUME = ['the entry format of the deflate tables (base value in the upper half, extra bits in the lower byte) is the one the decoder reads']


def flat(v):
    if isinstance(v, dict) and 'ref' in v:
        v = v['ref']
    if isinstance(v, list):
        out = []
        for x in v:
            out += flat(x)
        return out
    return [v]


def crc_table(k):
    t = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ (0xEDB88320 if c & 1 else 0)
        t.append(c)
    out = list(t)
    for _ in range(k - 1):
        out += [t[x & 255] ^ (x >> 8) for x in out[-256:]]
    return out


def zigzag():
    return [r * 8 + c for r, c in sorted(((r, c) for r in range(8) for c in range(8)), key=lambda p: (p[0] + p[1], p[0] if (p[0] + p[1]) % 2 else p[1]))]


def lengths():
    """(base, extra bits) of the length symbols"""
    out, b = [], 3
    for i in range(28):
        x = max(0, i // 4 - 1)
        out.append((b, x))
        b += 1 << x
    return out + [(258, 0)]


def distances():
    out, b = [], 1
    for i in range(30):
        x = max(0, i // 2 - 1)
        out.append((b, x))
        b += 1 << x
    return out


ADAM7 = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]
B_DC_L = [0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0]
B_DC_C = [0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0]
B_AC_L = [0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d]
B_AC_C = [0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77]
V_AC_L = bytes.fromhex('01020300041105122131410613516107227114328191a1082342b1c11552d1f02433627282090a161718191a25262728292a3435363738393a434445464748494a535455565758595a636465666768696a737475767778797a838485868788898a92939495969798999aa2a3a4a5a6a7a8a9aab2b3b4b5b6b7b8b9bac2c3c4c5c6c7c8c9cad2d3d4d5d6d7d8d9dae1e2e3e4e5e6e7e8e9eaf1f2f3f4f5f6f7f8f9fa')
V_AC_C = bytes.fromhex('0001020311040521310612415107617113223281081442 91a1b1c109233352f0156272d10a162434e125f11718191a262728292a35363738393a434445464748494a535455565758595a636465666768696a737475767778797a82838485868788898a92939495969798999aa2a3a4a5a6a7a8a9aab2b3b4b5b6b7b8b9bac2c3c4c5c6c7c8c9cad2d3d4d5d6d7d8d9dae2e3e4e5e6e7e8e9eaf2f3f4f5f6f7f8f9fa'.replace(' ', ''))
HUFF = {('dc', 0): (B_DC_L, bytes(range(12))), ('dc', 1): (B_DC_C, bytes(range(12))), ('ac', 0): (B_AC_L, V_AC_L), ('ac', 1): (B_AC_C, V_AC_C)}
for b_, v_ in HUFF.values():
    assert sum(b_) == len(v_)


def expands(mul, shift, widths):
    """entries of a scale table that do not replicate the bits of a sample"""
    bad = []
    for b in widths:
        for v in range(1 << b):
            bits = ''.join(format(v, '0%db' % b) for _ in range(8))[:8]
            if (v * mul[b]) >> (shift[b] if shift else 0) != int(bits, 2):
                bad.append(b)
                break
    return bad


def cmp(got, want):
    bad = [i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or want[i] is not None and got[i] != want[i]]
    if not bad:
        return True, '%d entries' % len(want)
    i = bad[0]
    return False, '%d entries differ, the first is entry %d: %s where %s is prescribed' % (len(bad), i, got[i] if i < len(got) else 'missing', want[i] if i < len(want) else 'nothing')


def tables(cx):
    F = cx.F
    def find(crate, name):
        return [(flat(c['v']), c['name']) for c in sorted(F.consts.values(), key=lambda c: c['name']) if c['name'].startswith(crate + '::') and c['name'].split('::')[-1] == name]
    lit = next((v[0] for v, _ in find('zune_inflate', 'HUFFDEC_LITERAL')), None)
    eob = next((v[0] for v, _ in find('zune_inflate', 'HUFFDEC_EXCEPTIONAL')), None)
    eo2 = next((v[0] for v, _ in find('zune_inflate', 'HUFFDEC_END_OF_BLOCK')), None)
    pack = lambda l: [(b << 16) | x for b, x in l]
    lens = ([(i << 16) | lit for i in range(256)] + [eob | eo2] + pack(lengths()) + [None, None]) if None not in (lit, eob, eo2) else [None] * 257 + pack(lengths()) + [None, None]
    want = [
        ('zune_jpeg', 'UN_ZIGZAG', lambda v: cmp(v, zigzag() + [None] * max(0, len(v) - 64))),
        ('zune_inflate', 'DEFLATE_PRECODE_LENS_PERMUTATION', lambda v: cmp(v, [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15])),
        ('zune_inflate', 'PRECODE_DECODE_RESULTS', lambda v: cmp(v, [i << 16 for i in range(19)])),
        ('zune_inflate', 'LITLEN_DECODE_RESULTS', lambda v: cmp(v, lens)),
        ('zune_inflate', 'OFFSET_DECODE_RESULTS', lambda v: cmp(v, pack(distances()) + [None, None])),
        ('zune_inflate', 'CRC32_SLICE1_TABLE', lambda v: cmp(v, crc_table(1))), ('zune_inflate', 'CRC32_SLICE8_TABLE', lambda v: cmp(v, crc_table(8))),
        ('zune_png', 'CRC32_SLICE1_TABLE', lambda v: cmp(v, crc_table(1))), ('zune_png', 'CRC32_SLICE8_TABLE', lambda v: cmp(v, crc_table(8))),
        ('zune_jpegxl', 'K_NIBBLE_LOOKUP', lambda v: cmp(v, [int(format(i, '04b')[::-1], 2) for i in range(16)])),
        ('zune_qoi', 'LAST_BYTES', lambda v: cmp(v, [0] * 7 + [1])),
        ('zune_jpeg', 'XMP_NAMESPACE_PREFIX', lambda v: cmp(v, list(b'http://ns.adobe.com/xap/1.0/\0'))),
        ('zune_jpeg', 'IPTC_PREFIX', lambda v: cmp(v, list(b'Photoshop 3.0\0'))),
        ('zune_jpeg', 'MPF_DATA', lambda v: cmp(v, list(b'MPF\0'))),
        ('zune_jpeg', 'HDR_META', lambda v: cmp(v, list(b'urn:iso:std:iso:ts:21496:-1\0'))),
    ]
    for i, n in enumerate(('XORIG', 'YORIG', 'XSPC', 'YSPC')):
        want.append(('zune_png', n, lambda v, i=i: cmp(v, [p[i] for p in ADAM7])))
    def scale(v):
        bad = expands(v, None, (1, 2, 4, 8))
        return not bad, '%d bit samples are not scaled to the full range' % bad[0] if bad else '4 depths'
    want.append(('zune_png', 'DEPTH_SCALE_TABLE', scale))
    for crate, name, check in want:
        got = find(crate, name)
        if not got:
            cx.undec('table/%s/%s' % (crate, name), 'no constant of this name')
        for v, n in got:
            if any(not isinstance(x, int) or isinstance(x, bool) for x in v):
                cx.undec('table/%s/%s' % (crate, name), 'value not evaluated', n)
                continue
            ok, msg = check(v)
            cx.ob('table/%s/%s' % (crate, name), ok, '%s: %s' % (name, msg), n)
    m, s = find('zune_bmp', 'MUL_TABLE'), find('zune_bmp', 'SHIFT_TABLE')
    if len(m) != 1 or len(s) != 1 or len(m[0][0]) < 9 or len(s[0][0]) < 9:
        cx.undec('table/zune_bmp/MUL_TABLE', 'no tables of this name')
    else:
        bad = expands(m[0][0], s[0][0], range(1, 9))
        cx.ob('table/zune_bmp/MUL_TABLE', not bad, 'bit fields of %d bits are not replicated to 8 bits' % bad[0] if bad else '8 widths', m[0][1])


def some(*p):
    return ('Some',) + p


def codes(cx):
    F = cx.F
    marker = {0xFE: 'COM', 0xC0: ('SOF', 0), 0xC1: ('SOF', 1), 0xC2: ('SOF', 2), 0xC4: 'DHT', 0xCC: 'DAC', 0xD8: 'SOI', 0xD9: 'EOI', 0xDA: 'SOS', 0xDB: 'DQT', 0xDC: 'DNL', 0xDD: 'DRI'}
    for i in range(8):
        marker[0xD0 + i] = ('RST', i)
    for i in (0, 1, 2, 13, 14):
        marker[0xE0 + i] = ('APP', i)
    # the remaining frame types and application segments may be known or unknown to the decoder
    also = {**{0xC0 + i: ('SOF', i) for i in (3, 5, 6, 7, 9, 10, 11, 13, 14, 15)}, **{0xE0 + i: ('APP', i) for i in range(16)}}
    sof = {0xFFC0: 'BaselineDct', 0xFFC1: 'ExtendedSequentialHuffman', 0xFFC2: 'ProgressiveDctHuffman', 0xFFC3: 'LosslessHuffman', 0xFFC9: 'ExtendedSequentialDctArithmetic', 0xFFCA: 'ProgressiveDctArithmetic', 0xFFCB: 'LosslessArithmetic'}
    maps = [
        ('zune_jpeg::marker::Marker::from_u8', range(256), marker, also),
        ('zune_jpeg::misc::SOFMarkers::from_int', list(range(0xFFC0, 0xFFD0)) + [0, 1, 0xC0, 0xC2, 0xFFFF, 0xC0FF], sof, {}),
        ('zune_png::enums::FilterMethod::from_int', range(256), dict(enumerate(['None', 'Sub', 'Up', 'Average', 'Paeth'])), {}),
        ('zune_png::enums::InterlaceMethod::from_int', range(256), {0: 'Standard', 1: 'Adam7'}, {}),
        ('zune_png::enums::PngColor::from_int', range(256), {0: 'Luma', 2: 'RGB', 3: 'Palette', 4: 'LumaA', 6: 'RGBA'}, {}),
        ('zune_png::apng::BlendOp::from_int', range(256), {0: 'Source', 1: 'Over'}, {}),
        ('zune_png::apng::DisposeOp::from_int', range(256), {0: 'None', 1: 'Background', 2: 'Previous'}, {}),
        ('zune_bmp::common::BmpCompression::from_u32', list(range(16)) + [255, 256, 0x10000, 0xFFFFFFFF], {0: 'RGB', 1: 'RLE8', 2: 'RLE4', 3: 'BITFIELDS'}, {}),
        ('zune_psd::constants::ColorModes::from_int', list(range(16)) + [256, 0x300, 65535], {0: 'Bitmap', 1: 'Grayscale', 2: 'IndexedColor', 3: 'RGB', 4: 'CYMK', 7: 'MultiChannel', 8: 'DuoTone', 9: 'LabColor'}, {}),
        ('zune_psd::constants::CompressionMethod::from_int', list(range(8)) + [256, 65535], {0: 'NoCompression', 1: 'RLE'}, {}),
    ]
    for name, dom, want, also in maps:
        short = '::'.join(name.split('::')[-2:])
        f = F.fn(name)
        if f is None:
            cx.undec('code/' + short, 'no function of this name')
            continue
        cx.analysed(f)
        adt = '::'.join(name.split('::')[:-1])
        names = {v for v, _ in variants(F, adt)}
        bad = und = None
        n = 0
        for x in dom:
            e, v, st, fr = apply(F, f, [C(x)])
            alts = [plain(y) for y, _ in alternatives(e, st, v)] if v is not None else ['diverges']
            n += 1
            for p in alts:
                if isinstance(p, str) and p.startswith('?'):
                    und = 'code %d gives %s' % (x, p)
                    continue
                # peel Some/Ok; None, an error or a variant that keeps the number are "not known"
                p = p[1] if isinstance(p, tuple) and p[0] in ('Some', 'Ok') and len(p) > 1 else None if p == 'None' or isinstance(p, tuple) and p[0] == 'Err' or p == 'diverges' else p
                if isinstance(p, tuple) and p[0].lower() == 'unknown' or isinstance(p, str) and p.lower() == 'unknown':
                    p = None
                w = want.get(x)
                if p == w or p is not None and w is None and p == also.get(x):
                    continue
                wn = w[0] if isinstance(w, tuple) else w
                if wn is not None and names and wn not in names:
                    und = 'no variant %s' % wn
                    continue
                if p is None or w is not None or (p[0] if isinstance(p, tuple) else p) in {z[0] if isinstance(z, tuple) else z for z in list(want.values()) + list(also.values())}:
                    bad = bad or 'code %#x is %s where %s is prescribed' % (x, pretty(p), pretty(w))
                # otherwise a code this list does not know of
        if bad:
            cx.ob('code/' + short, False, bad, f.where())
        elif und:
            cx.undec('code/' + short, und, f.where())
        else:
            cx.ob('code/' + short, True, '%d codes' % n, f.where())


def pretty(p):
    return 'nothing' if p is None else p if isinstance(p, str) else '%s(%s)' % (p[0], ', '.join(map(str, p[1:])))


CHUNKS = ['IHDR', 'PLTE', 'IDAT', 'IEND', 'tRNS', 'pHYs', 'tIME', 'gAMA', 'acTL', 'fcTL', 'iCCP', 'iTXt', 'eXIf', 'zTXt', 'tEXt', 'fdAT']
OTHER = ['IhDR', 'idat', 'IDAU', 'TDAI', 'abcd', 'PLTe', 'tRNs', 'fdAt', 'zTXT', 'cHRN']
RARE = {'cHRM': 'cHRM', 'sBIT': 'sBit', 'sRGB': 'sRGB', 'bKGD': 'bKGD', 'hIST': 'hIST', 'sPLT': 'sPLT'}


def chunks(cx):
    F = cx.F
    ty = decoder_types(F).get('zune_png')
    f = F.fn(ty + '::read_chunk_header') if ty else None
    if f is None:
        cx.undec('chunk', 'no read_chunk_header')
        return
    cx.analysed(f)
    fields = None
    for name in CHUNKS + sorted(RARE) + OTHER:
        pins = {i: b for i, b in enumerate((0).to_bytes(4, 'big') + name.encode())}
        e = c03.engine(F, 'zune_png')
        S = Stream(pins)
        e.model, e.opaque = S, S.opaque
        selfv = mk('arg', 'decoder', 0)
        ctor, st0 = c03.start(e, F, ty, selfv)
        if ctor is None:
            cx.undec('chunk', 'no constructor')
            return
        S.begin(st0)
        try:
            fr, st = e.run(f, args=[selfv], state=st0)
        except Budget as b:
            cx.undec('chunk/' + name, 'budget %s' % b)
            continue
        got = set()
        if st is not None:
            for s2, v in split(e, st, retval(e, fr, st), 'Ok'):
                if fields is None:
                    fields = next((i for i, x in enumerate(F.adts.get('zune_png::decoder::PngChunk', {}).get('v', [{}])[0].get('f', [])) if x['n'] == 'chunk_type'), None)
                y = e.project(s2, v, (('d', 0, 'Ok'), ('f', 0, '0'), ('f', fields if fields is not None else 1, 'chunk_type')))
                for z, _ in alternatives(e, s2, y):
                    got.add(plain(e.deep(s2, z)))
        want = name if name in CHUNKS else 'unkn'
        if not got or any(not isinstance(g, str) or g.startswith('?') for g in got):
            cx.undec('chunk/' + name, 'gives %s' % sorted(map(str, got)), f.where())
            continue
        ok = got == {want} or name in RARE and got == {RARE[name]}
        cx.ob('chunk/' + name, ok, 'chunk %s is taken for %s' % (name, ', '.join(sorted(got))), f.where())


def const_of(f, op, n=0):
    """constant an operand stands for, through copies"""
    if n > 12:
        return None
    if op[0] == 'k':
        return op[1].get('v')
    if op[0] not in 'cm':
        return None
    l = op[1]
    base = l if isinstance(l, int) else l[0]
    if not isinstance(l, int) and any(p != '*' for p in l[1]):
        return None
    ds = [s for b in f.blocks for s in b['s'] if s[0] == '=' and s[1] == base]
    if len(ds) != 1:
        return None
    r = ds[0][2]
    if r[0] == 'use':
        return const_of(f, r[1], n + 1)
    if r[0] == 'cast':
        return const_of(f, r[2], n + 1)
    if r[0] in ('ref', 'raw'):
        return const_of(f, ['c', r[2]], n + 1)
    return None


def huffman(cx):
    F = cx.F
    f = F.fn('zune_jpeg::misc::fill_default_mjpeg_tables')
    if f is None:
        cx.undec('huffman', 'no fill_default_mjpeg_tables')
        return
    cx.analysed(f)
    seen = {}
    for i, b in enumerate(f.blocks):
        t = b['t']
        if t['k'] != 'call' or not isinstance(t['f'][1], dict) or not str((t['f'][1].get('v') or {}).get('name', '')).endswith('HuffmanTable::new_unfilled'):
            continue
        vals = [const_of(f, a) for a in t['a'][:3]]
        # the slot stored next
        j, slot = t.get('t'), None
        for _ in range(8):
            if j is None:
                break
            for s in f.blocks[j]['s']:
                if s[0] == '=' and isinstance(s[1], list) and s[1][0] in (2, 3) and s[1][1][:1] == ['*'] and len(s[1][1]) == 2:
                    p = s[1][1][1]
                    k = const_of(f, ['c', p[1]]) if p[0] == 'i' else p[1] if p[0] == 'ci' else None
                    slot = ('dc' if s[1][0] == 2 else 'ac', k)
            if slot:
                break
            j = f.blocks[j]['t'].get('t')
        if slot is None or slot[1] is None or any(v is None for v in vals):
            continue
        seen.setdefault(slot, []).append((flat(vals[0]), flat(vals[1]), vals[2]))
    for slot, (bits, vals) in sorted(HUFF.items()):
        key = 'huffman/%s%d' % slot
        if len(seen.get(slot, [])) != 1:
            cx.undec(key, 'the table stored in this slot was not identified', f.where())
            continue
        b, v, dc = seen[slot][0]
        ok1, m1 = cmp(b, [None] + bits)
        ok2, m2 = cmp(v, list(vals))
        cx.ob(key, ok1 and ok2 and dc is (slot[0] == 'dc'), 'code counts: %s; values: %s' % (m1, m2) if dc is (slot[0] == 'dc') else 'built as a %s table' % ('DC' if dc else 'AC'), f.where())


def fixed(cx):
    """code lengths of fixed deflate blocks"""
    F = cx.F
    want = {(0, 144, 8), (144, 256, 9), (256, 280, 7), (280, 288, 8), (288, None, 5)}
    best = None
    for f in F.fns.values():
        if f.crate != 'zune_inflate':
            continue
        got = set()
        for b in f.blocks:
            t = b['t']
            if t['k'] != 'call' or not isinstance(t['f'][1], dict) or not str((t['f'][1].get('v') or {}).get('name', '')).endswith('::fill'):
                continue
            v = const_of(f, t['a'][1])
            r = range_of(f, t['a'][0])
            if isinstance(v, int) and r:
                got.add(r + (v,))
        got = {g for g in got if g[2] != 0}
        if len({g[0] for g in got} & {144, 256, 280, 288}) >= 2 and (best is None or len(got) > len(best[1])):
            best = (f, got)
    if best is None:
        cx.undec('fixed', 'no function fills the code lengths of fixed blocks')
        return
    f, got = best
    cx.analysed(f)
    got = {(a, None if a == 288 and b is not None and b >= 318 else b, v) for a, b, v in got}
    lens = [None] * 318
    for a, b, v in sorted(got, key=lambda g: g[0]):
        for i in range(a, 318 if b is None else min(b, 318)):
            lens[i] = v
    if None in lens:
        cx.undec('fixed', 'code lengths %s' % sorted(got, key=str), f.where())
        return
    exp = [8] * 144 + [9] * 112 + [7] * 24 + [8] * 8 + [5] * 30
    ok, m = cmp(lens, exp)
    cx.ob('fixed', ok, 'code lengths of fixed blocks: %s' % m, f.where())


def range_of(f, op, n=0):
    """constant range of the slice an operand is"""
    if n > 12 or op[0] not in 'cm':
        return None
    l = op[1]
    base = l if isinstance(l, int) else l[0]
    for b in f.blocks:
        t = b['t']
        if t['k'] == 'call' and t.get('d') == base and isinstance(t['f'][1], dict) and str((t['f'][1].get('v') or {}).get('name', '')).split('::')[-1] in ('index_mut', 'index'):
            a = t['a'][1]
            v = const_of(f, a)
            if isinstance(v, dict) and isinstance(v.get('f'), dict):
                return v['f'].get('start', 0), v['f'].get('end')
            x = a[1] if isinstance(a[1], int) else a[1][0] if isinstance(a[1], list) else None
            ds = [s for b2 in f.blocks for s in b2['s'] if s[0] == '=' and s[1] == x]
            if len(ds) == 1 and ds[0][2][0] == 'agg':
                r = ds[0][2]
                cs = [const_of(f, o) for o in r[2]]
                nm = dict(zip(r[6], cs)) if len(r) > 6 else {}
                if None in cs:
                    return None
                return nm.get('start', 0), nm.get('end')
            return None
    ds = [s for b in f.blocks for s in b['s'] if s[0] == '=' and s[1] == base]
    if len(ds) != 1:
        return None
    r = ds[0][2]
    if r[0] == 'use':
        return range_of(f, r[1], n + 1)
    if r[0] == 'cast':
        return range_of(f, r[2], n + 1)
    if r[0] in ('ref', 'raw'):
        return range_of(f, ['c', r[2]], n + 1)
    return None


def run(cx):
    tables(cx)
    codes(cx)
    chunks(cx)
    huffman(cx)
    fixed(cx)
