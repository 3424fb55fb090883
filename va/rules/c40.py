"""C40: header decoding reports what the header bytes say."""
import multiprocessing, os
from ..lib import *
from ..engine import *
from ..stream import *
from . import c03

PROP = dict(
    id='C40',
    title='Reported size, depth and colorspace are those encoded in the header bytes',
    statement='When header decoding succeeds, what the decoder reports is what the format stores, at the place and in the byte order of the format: farbfeld width, height = big-endian 32 bit at 8, 12; QOI width, height = big-endian 32 bit at 4, 8 and '
              'channels (byte 12) 3 RGB, 4 RGBA; PNG width, height = big-endian 32 bit at 0, 4 of IHDR, bit depth 16 is reported as 16 bit and 1, 2, 4, 8 as 8 bit, color type 0 luma, 2 RGB, 3 RGB, 4 luma+alpha, 6 RGBA (with a tRNS chunk the same with alpha); '
              'PSD height, width = big-endian 32 bit at 14, 18, depth (big-endian 16 bit at 22) 8 or 16, mode (at 24) 1 gray, 3 RGB (RGBA with four channels), 4 CMYK; '
              'BMP width, height = little-endian 16 bit at 18, 20 in 12 byte headers, otherwise little-endian 32 bit at 18 and magnitude of the signed 32 bit at 22, 1/2/4/8/24 bits per pixel give RGB (8 bits without palette: luma), 32 give RGBA, 16 give RGB, or RGBA when bit fields are used; '
              'GIF output size = 4 * little-endian 16 bit at 6 * at 8; JPEG height, width = big-endian 16 bit at 3, 5 of the frame header; PPM P5 is luma, P6 RGB. '
              'Decoding the header of a BMP, QOI or farbfeld file needs no bytes beyond the header. Header values the format or decoder does not know (other QOI channel counts, PNG color types, depths, compression, filter or interlace methods, palette PNG of 16 bit, PSD depths and modes, BMP header sizes and bits per pixel, JPEG precisions, zero sizes) are refused and all the listed ones accepted.',
    quantifier=dict(over=['inputs'], text='every header; the enumerated bytes (color type, depth, mode...) by value, the sizes symbolically'),
    why_tests_cant='Tests decode a few valid files, most of them square or small, of the common kinds; a byte order, position, color type or accepted value that is wrong elsewhere goes unseen.',
    anchors=dict(files=['crates/zune-%s/src/decoder.rs' % x for x in ('bmp', 'farbfeld', 'gif', 'jpeg', 'png', 'ppm', 'psd', 'qoi')] + ['crates/zune-png/src/headers/readers.rs', 'crates/zune-jpeg/src/headers.rs', 'crates/zune-png/src/enums.rs', 'crates/zune-psd/src/constants.rs', 'crates/zune-bmp/src/common.rs'],
                 mechanism=[dict(name='decode_headers', where='each decoder'), dict(name='parse_ihdr', where='crates/zune-png/src/headers/readers.rs'), dict(name='parse_start_of_frame', where='crates/zune-jpeg/src/headers.rs')]))
TECHNIQUE = 'abstract interpretation of MIR over a symbolic input stream: reported values traced to stream positions, enumerated header bytes by constant propagation'
EXPLAIN = """
A decoder is constructed abstractly and its header decoding run with a model of the input stream: every read yields the symbol of the bytes at its position (be32@16), the position being part of the abstract state.
One run per enumerated header kind, in which the selecting bytes (signature, color type, depth, header size...) are given constants and everything else stays symbolic.  In every success exit the decoder's own queries are evaluated:
dimensions must be the required stream fields, colorspace and depth the required constants.  Runs of unknown header values must have no success exit, runs of known ones must have one.
"""
ASSUME = ['the reader methods of zune-core read the stream in order and combine bytes as named', 'PNG: IHDR is the first chunk; JPEG: the frame header is the first segment (later positions are the same code)', 'a value that mixes unknown parts is reported undecided']

PNG = b'\x89PNG\r\n\x1a\n\x00\x00\x00\x0dIHDR'


def at(d, off, data):
    for i, x in enumerate(data):
        d[off + i] = x
    return d


def pins(**kw):
    return kw


def cases(tier):
    """(crate, label, pinned bytes, peeled iterations, expectation, options)"""
    D = lambda w, h, **k: dict(dims=(w, h), **k)
    out = []
    q = lambda ch, cs=0: at(at({}, 0, b'qoif'), 12, bytes([ch, cs]))
    out.append(('zune_farbfeld', 'header', at({}, 0, b'farbfeld'), 0, D('be32@8', 'be32@12', end=16)))
    for ch in list(range(0, 9)) + [16, 32, 64, 127, 128, 131, 132, 254, 255]:
        out.append(('zune_qoi', 'channels %d' % ch, q(ch), 0, D('be32@4', 'be32@8', color={'RGB' if ch == 3 else 'RGBA'}, end=14) if ch in (3, 4) else None))
    # zero sizes
    for i, off in enumerate((4, 8)):
        out.append(('zune_qoi', 'zero ' + ('width', 'height')[i], at(q(3), off, bytes(4)), 0, None))
    def psd(ch, depth, mode):
        d = at({}, 0, b'8BPS\x00\x01')
        return at(at(d, 12, ch.to_bytes(2, 'big')), 22, depth.to_bytes(2, 'big') + mode.to_bytes(2, 'big'))
    good = {1: 'Luma', 3: 'RGB', 4: 'CMYK'}
    for mode in range(0, 12):
        out.append(('zune_psd', 'mode %d' % mode, psd(4 if mode == 4 else 3, 8, mode), 0, D('be32@18', 'be32@14', color={good[mode]}, depth={'Eight'}) if mode in good else None))
    out.append(('zune_psd', 'mode 3 with alpha', psd(4, 8, 3), 0, D('be32@18', 'be32@14', color={'RGBA'}, depth={'Eight'})))
    for depth in (0, 1, 4, 7, 8, 9, 12, 15, 16, 17, 24, 32, 0x800, 0x1000):
        out.append(('zune_psd', 'depth %d' % depth, psd(3, depth, 3), 0, D('be32@18', 'be32@14', color={'RGB'}, depth={'Eight' if depth == 8 else 'Sixteen'}) if depth in (8, 16) else None))
    for i, off in enumerate((14, 18)):
        out.append(('zune_psd', 'zero ' + ('height', 'width')[i], at(psd(3, 8, 3), off, bytes(4)), 0, None))
    for fl in (0, 0x80):
        out.append(('zune_gif', 'flags %02x' % fl, at(at({}, 0, b'GIF89a'), 10, bytes([fl])), 0, dict(size=('le16@6', 'le16@8', 4))))
    def bmp(ih, bpp, comp=0, pal=1024):
        d = at({}, 0, b'BM')
        at(d, 10, (14 + ih + pal).to_bytes(4, 'little') + ih.to_bytes(4, 'little'))
        at(d, 24 if ih == 12 else 28, bpp.to_bytes(2, 'little'))
        if ih != 12:
            at(d, 30, comp.to_bytes(4, 'little'))
        return d
    def bdim(ih, **k):
        return D('le16@18', 'le16@20', **k) if ih == 12 else D('le32@18', '|le32@22|', **k)
    for ih in (0, 8, 11, 12, 13, 16, 20, 36, 39, 40, 41, 52, 56, 64, 100, 108, 124, 125, 200):
        out.append(('zune_bmp', 'header size %d' % ih, bmp(ih, 24, 99 if ih == 16 else 0), 0, bdim(ih, color={'RGB'}, depth={'Eight'}) if ih in (12, 16, 40, 52, 56, 64, 108, 124) else None))
    for bpp in list(range(0, 34)) + [48, 64, 255, 256, 0x1800]:
        for ih in (12, 40):
            ok = bpp in (1, 2, 4, 8, 16, 24, 32)
            if not ok and ih == 12:
                continue
            out.append(('zune_bmp', '%d bits, header size %d' % (bpp, ih), bmp(ih, bpp), 0, bdim(ih, color={'RGBA' if bpp == 32 else 'RGB'}, depth={'Eight'}) if ok else None))
    out.append(('zune_bmp', '8 bits without palette', bmp(40, 8, pal=0), 0, bdim(40, color={'Luma'}, depth={'Eight'})))
    out.append(('zune_bmp', '16 bits with bit fields', bmp(40, 16, 3), 0, bdim(40, color={'RGBA'}, depth={'Eight'})))
    out.append(('zune_bmp', 'header size 16, 8 bits, palette', bmp(16, 8, 99), 0, bdim(16, color={'RGB'}, depth={'Eight'})))
    # a file with so few pixels that nothing follows the header but them
    for ih in (12, 40, 52, 56, 64, 108):
        out.append(('zune_bmp', '24 bits, header size %d, no palette' % ih, bmp(ih, 24, pal=0), 0, bdim(ih, color={'RGB'}, depth={'Eight'}, end=14 + ih)))
    for i, off in enumerate((18, 22)):
        out.append(('zune_bmp', 'zero ' + ('width', 'height')[i], at(bmp(40, 24), off, bytes(4)), 0, None))
    def png(depth, color, comp=0, filt=0, lace=0):
        return at(at({}, 0, PNG), 24, bytes([depth, color, comp, filt, lace]))
    names = {0: {'Luma', 'LumaA'}, 2: {'RGB', 'RGBA'}, 3: {'RGB', 'RGBA'}, 4: {'LumaA'}, 6: {'RGBA'}}
    E_ = lambda depth, color: D('be32@16', 'be32@20', color=names[color], need=min(names[color], key=len), depth={'Sixteen' if depth == 16 else 'Eight'})
    for color in range(0, 10):
        out.append(('zune_png', 'color type %d' % color, png(8, color), 1, E_(8, color) if color in names else None))
    for depth in (0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 15, 16, 17, 24, 32, 64, 128, 255):
        out.append(('zune_png', 'depth %d' % depth, png(depth, 0), 1, E_(depth, 0) if depth in (1, 2, 4, 8, 16) else None))
    out.append(('zune_png', 'depth 16, palette', png(16, 3), 1, None))
    out.append(('zune_png', 'depth 16, RGBA', png(16, 6), 1, E_(16, 6)))
    for what, k in (('compression', 'comp'), ('filter', 'filt')):
        for x in (1, 2, 5, 255):
            out.append(('zune_png', '%s method %d' % (what, x), png(8, 2, **{k: x}), 1, None))
    for x in (1, 2, 3, 255):
        out.append(('zune_png', 'interlace method %d' % x, png(8, 2, lace=x), 1, E_(8, 2) if x == 1 else None))
    for i, off in enumerate((16, 20)):
        out.append(('zune_png', 'zero ' + ('width', 'height')[i], at(png(8, 2), off, bytes(4)), 1, None))
    def jpeg(prec, sof=0xC0, n=1):
        return at(at({}, 0, bytes([0xff, 0xd8, 0xff, sof])), 4, (8 + 3 * n).to_bytes(2, 'big') + bytes([prec])) | {11: n}
    J = D('be16@9', 'be16@7')
    out.append(('zune_jpeg', 'SOF0', jpeg(8), 2, J))
    out.append(('zune_jpeg', 'SOF2', jpeg(8, 0xC2), 2, J))
    for x in (0, 2, 12, 16):
        out.append(('zune_jpeg', 'precision %d' % x, jpeg(x), 2, None))
    out.append(('zune_jpeg', 'no components', jpeg(8, n=0), 2, None))
    for i, off in enumerate((7, 9)):
        out.append(('zune_jpeg', 'zero ' + ('height', 'width')[i], at(jpeg(8), off, bytes(2)), 2, None))
    for m, cs in ((b'P5', 'Luma'), (b'P6', 'RGB')):
        out.append(('zune_ppm', m.decode(), at({}, 0, m), 0, dict(color={cs})))
    return out


def getters(F, ty):
    """[(kind, function)] queries answering with a size, colorspace or depth"""
    out = []
    for f in F.fns.values():
        if f.name.startswith(ty + '::') and f.kind != 'Closure' and f.argc == 1 and f.reach and f.ins()[0].startswith('&') and not f.ins()[0].startswith('&mut'):
            o = f.out()
            o = o[len('core::option::Option<'):-1] if o.startswith('core::option::Option<') else o
            k = {'(usize, usize)': 'dims'}.get(o) or ('color' if o.endswith('::ColorSpace') else 'depth' if o.endswith('::BitDepth') else 'size' if o == 'usize' else None)
            if k:
                out.append((k, f))
    return sorted(out, key=lambda x: x[1].name)


def spec(w):
    """(byte weights, magnitude of a signed value?)"""
    a = w.startswith('|')
    k, p = w.strip('|').split('@')
    return weights(field(k, int(p))), a


def magnitude(v):
    """(inner value, is an absolute value)"""
    w = v
    v = uncast(v)
    if v.tag == 'call' and 'abs' in v.a[0].split('::')[-1]:
        return v.a[1][0], True
    if v.tag in ('unsigned_abs', 'abs'):
        return v.a[0], True
    return w, False


def names_in(v, n=0):
    """stream fields somewhere in a value"""
    out = set()
    if n > 60:
        return out
    if v.tag == 'sym' and len(v.a) > 2 and v.a[1] == 'stream':
        return {v.a[0]}
    for x in v.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, V):
                out |= names_in(y, n + 1)
    return out


def agree(v, w):
    """True / False / None: is v the field w"""
    want, mag = spec(w)
    inner, isabs = magnitude(v)
    got = weights(inner)
    if got is None:
        return None
    if isabs and mag and len(want) == 4:
        return got == {**want, ('signed', 'i32'): 1}
    if got != want:
        return False
    if mag == isabs or isabs and len(want) < 4:
        return True
    return False


def product(v):
    """factors of a product"""
    v = uncast(v)
    if v.tag in ('checked', 'payload') and isinstance(v.a[0], V):
        return product(v.a[0])
    if v.tag == 'op' and v.a[0] == 'Mul':
        return product(v.a[1]) + product(v.a[2])
    return [v]


def one(F, ty, crate, case):
    """[(key, ok, message, where)], functions"""
    _, label, pin, unroll, want = case
    e = c03.engine(F, crate)
    e.unroll = unroll
    e.max_steps = 4000000
    S = Stream(pin)
    e.model, e.opaque = S, S.opaque
    selfv = mk('arg', 'decoder', 0)
    ctor, st0 = c03.start(e, F, ty, selfv)
    if ctor is None:
        return [('%s:%s' % (crate, label), None, 'constructor missing', '')], set()
    S.begin(st0)
    h = F.fn(ty + '::decode_headers')
    key = '%s: %s' % (crate[5:], label)
    try:
        fr, st = e.run(h, args=[selfv], state=st0)
    except Budget as b:
        return [(key, None, 'budget %s' % b, h.where())], set()
    oks = [] if st is None else [x for x, _ in split(e, st, retval(e, fr, st), 'Ok') if consistent(e, x)]
    fns = set(e.inlined) | {h.id}
    out = []
    if want is None:
        return [(key + ': refused', not oks, '%d success exits' % len(oks) if oks else 'no success exit', h.where())], fns
    out.append((key + ': accepted', bool(oks), '%d success exits' % len(oks), h.where()))
    if want.get('end'):
        out.append((key + ': read to the end of the header only', S.end <= want['end'], 'bytes up to %d are needed to decode a header of %d bytes' % (S.end, want['end']), h.where()))
    for kind, q in getters(F, ty):
        if kind not in want:
            continue
        fns.add(q.id)
        bad, und, seen = None, None, set()
        for x in oks:
            fr2, s2 = e.run(q, args=[selfv], state=x)
            if s2 is None:
                bad = 'never answers'
                continue
            v = e.resolve(s2, retval(e, fr2, s2))
            alts = [(s2, v)]
            if q.out().startswith('core::option::Option<'):
                alts = [(s3, e.project(s3, y, (('d', 0, 'Some'), ('f', 0, '0')))) for s3, y in split(e, s2, v, 'Some') if consistent(e, s3)]
            for s3, y in alts:
                if kind == 'dims':
                    for i in (0, 1):
                        c = e.project(s3, y, (('f', i, str(i)),))
                        for z, _ in alternatives(e, s3, e.deep(s3, c)):
                            z = e.deep(s3, z)
                            r = agree(z, want['dims'][i])
                            if r is None and magnitude(z)[1]:
                                # magnitude of a choice
                                inner = [k for k, _ in alternatives(e, s3, uncast(magnitude(z)[0]))]
                                rs = {agree(mk('abs', k), want['dims'][i]) for k in inner}
                                r = False if False in rs else True if rs == {True} else None
                            t = '%s is %s instead of %s' % (('width', 'height')[i], show(z)[:80], want['dims'][i])
                            seen.add(want['dims'][i])
                            if r is False:
                                bad = t
                            elif r is None:
                                f = names_in(z)
                                if f and want['dims'][i].strip('|') not in f and not any('unknown' in n for n in f):
                                    bad = t
                                else:
                                    und = t
                elif kind == 'size':
                    fs = [z for z in product(e.deep(s3, y))]
                    names = sorted(str(w) for w in want['size'])
                    got = []
                    for z in fs:
                        z, _ = magnitude(z)
                        w = next((w for w in want['size'] if isinstance(w, str) and weights(z) == spec(w)[0]), None)
                        got.append(w or (str(cv(z)) if intc(z) else None))
                    if None in got:
                        und = 'size is %s' % show(y)[:120]
                    elif sorted(got) != names:
                        bad = 'size is %s instead of the product of %s' % (show(y)[:120], ', '.join(names))
                    seen |= set(names)
                else:
                    for z, f2 in alternatives(e, s3, y):
                        z = uncast(z)
                        n = z.a[2] if z.tag == 'agg' and z.a[0] == 'adt' else None
                        if n is None:
                            und = '%s is %s' % (kind, show(z)[:100])
                        elif n not in want[kind]:
                            if consistent(e, State(s3.mem, f2)):
                                bad = '%s is %s instead of %s' % (kind, n, ' or '.join(sorted(want[kind])))
                        else:
                            seen.add(n)
        if oks and kind == 'color' and want.get('need') and not bad and not und and want['need'] not in seen:
            bad = 'colorspace is never %s' % want['need']
        if kind in ('dims', 'color', 'depth', 'size') and oks:
            out.append(('%s: %s' % (key, q.name.split('::')[-1]), False if bad else None if und else True, bad or und or ', '.join(sorted(seen)), q.where()))
    return out, fns


_G = {}


def job(i):
    F, ty, case = _G['F'], _G['types'].get(_G['cases'][i][0]), _G['cases'][i]
    if ty is None:
        return i, [('%s: decoder' % case[0], None, 'no decoder type', '')], set()
    try:
        r, fns = one(F, ty, case[0], case)
    except (RecursionError, Budget) as x:
        r, fns = [('%s: %s' % (case[0][5:], case[1]), None, 'not followed: %s' % type(x).__name__, '')], set()
    return i, r, fns


def run(cx):
    F = cx.F
    _G.update(F=F, types=decoder_types(F), cases=cases(cx.tier))
    order = sorted(range(len(_G['cases'])), key=lambda i: -_G['cases'][i][3])
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        res = sorted(pool.imap_unordered(job, order, chunksize=1))
    skip = set()
    # where the bytes of a header are not followed, a header that is not refused is no news
    open_ = {_G['cases'][i][0] for i, rs, _ in res if any(ok is None for _, ok, _, _ in rs)}
    for i, rs, fns in sorted(res, key=lambda x: x[0]):
        for f in fns:
            if f in F.fns:
                cx.analysed(F.fns[f])
        for key, ok, msg, where in rs:
            if ok is None or ok is False and key.endswith((': refused', ': accepted', ' only')) and _G['cases'][i][0] in open_:
                cx.undec(key, msg, where)
            elif (key, ok, msg) not in skip:
                skip.add((key, ok, msg))
                cx.ob(key, ok, msg, where)
