"""C14: the format registry pairs every format with its own codec."""
from ..lib import *

PROP = dict(
    id='C14',
    title='Each image format is paired with its own decoder, encoder and signature',
    statement='For every image format: the decoder created for it is that format\'s decoder and receives the caller\'s data and decoding options; an encoder exists exactly when the format says it has one, and encoding with it runs that format\'s encoder with the caller\'s options and image; '
              'file signatures and the file extensions the library encodes by are mapped to the format they belong to, and every extension maps to a format with an encoder. '
              'Reading headers through the generic decoder interface reports the format, and the width, height, depth and colorspace the codec itself reports.',
    quantifier=dict(over=['configurations', 'inputs'], text='every format, every file extension, every signature, every image (default feature set)'),
    why_tests_cant='Tests go through the registry for two or three formats; a swapped arm for another one is never executed.',
    anchors=dict(files=['crates/zune-image/src/codecs.rs', 'crates/zune-image/src/codecs'],
                 mechanism=[dict(name='decoder_with_options / encode / has_encoder / encoder_for_extension / guess_format', where='crates/zune-image/src/codecs.rs'), dict(name='DecoderTrait::read_headers and EncoderTrait::format of each codec', where='crates/zune-image/src/codecs/*.rs')]))
TECHNIQUE = 'constant propagation and value numbering over MIR: registry functions evaluated per format, call targets and value flow compared with the format'
EXPLAIN = """
decoder_with_options, encode and has_encoder are evaluated on the MIR once per ImageFormat variant; the constructors and encode calls on that path, and the arguments they get, are
compared with the format (type -> format through EncoderTrait::format / the metadata read_headers builds).  encoder_for_extension is evaluated once per extension constant it compares with.
The signature table in guess_format is collected as constants and compared with the published signatures.  read_headers of each codec is evaluated with the codec's own queries kept symbolic.
"""
ASSUME = ['published file signatures and extensions', 'decoder types are told apart by their type name', 'default features of zune-image']
IF = 'zune_image::codecs::ImageFormat'
TYPES = dict(JPEG='JpegDecoder', PNG='PngDecoder', PPM='PPMDecoder', PSD='PSDDecoder', Farbfeld='FarbFeldDecoder', QOI='QoiDecoder', JPEG_XL='JxlDecoder', HDR='HdrDecoder', BMP='BmpDecoder', WEBP='WebpDecoder')
MAGIC = {
    'PNG': [b'\x89PNG\r\n\x1a\n'], 'JPEG': [b'\xff\xd8', b'\xff\xd8\xff'], 'PPM': [b'P5', b'P6', b'P7', b'Pf', b'PF', b'P1', b'P2', b'P3', b'P4'], 'PSD': [b'8BPS'],
    'Farbfeld': [b'farbfeld'], 'QOI': [b'qoif'], 'HDR': [b'#?RADIANCE\n', b'#?RGBE\n', b'#?RADIANCE', b'#?RGBE', b'#?'],
    'JPEG_XL': [b'\0\0\0\x0cJXL \r\n\x87\n', b'\xff\x0a'], 'BMP': [b'BM'], 'WEBP': [b'RIFF', b'WEBP'],
}
REQUIRED = {'PNG': 1, 'JPEG': 1, 'PPM': 5, 'PSD': 1, 'Farbfeld': 1, 'QOI': 1, 'HDR': 2, 'JPEG_XL': 2}
EXT = dict(qoi='QOI', ppm='PPM', pam='PPM', pgm='PPM', pbm='PPM', pfm='PPM', pnm='PPM', jpeg='JPEG', jpg='JPEG', jxl='JPEG_XL', ff='Farbfeld', farbfeld='Farbfeld', hdr='HDR', png='PNG', apng='PNG', bmp='BMP', psd='PSD', webp='WEBP')

NEED = ('qoi', 'ppm', 'pam', 'pgm', 'pbm', 'pfm', 'jpeg', 'jpg', 'jxl', 'ff', 'hdr', 'png')


def tyname(n):
    """last type segment before the method of a path"""
    segs = [x for x in strip_generics(n).split('::')]
    return segs[-2] if len(segs) > 1 else n


def run(cx):
    F = cx.F
    vs = [n for n, _ in variants(F, IF)]
    cx.ob('formats', set(vs) >= set(TYPES), '%d formats' % len(vs), 'crates/zune-image/src/codecs.rs')
    g = lambda m: F.fn(IF + '::' + m)
    for m in ('decoder_with_options', 'encode', 'has_encoder', 'encoder_for_extension', 'decoder'):
        if g(m) is None:
            cx.ob('anchor:' + m, False, 'function missing')
            return
        cx.analysed(g(m))
    inl = lambda fr, c, fn: fn.crate == 'zune_image' and fn.name.startswith(IF)
    encs = {}
    for V in vs:
        fmt = enumval(F, IF, V)
        # ---- decoder
        calls = []

        def oc(fr, b, t, c, args, st):
            if c is not None:
                calls.append((c['name'], rname(c), args, st, fr, b, t))
        data, opts = mk('arg', 'data', 1), mk('arg', 'options', 2)
        e, v, s, fr = apply(F, g('decoder_with_options'), [fmt, data, opts], inline=inl, on_call=oc, byref=(0,))
        ctors = [c for c in calls if re.search(r'Decoder(::<[^:]*>)?::(new|try_new)\w*$', c[1])]
        w = g('decoder_with_options').where()
        if V not in TYPES:
            okp = v is not None and any(True for _ in split(e, s, v, 'Ok'))
            cx.ob('%s:decoder' % V, not okp and not ctors, 'no decoder for this format', w)
        else:
            names = {tyname(c[1]) for c in ctors}
            cx.ob('%s:decoder' % V, len(names) == 1 and TYPES[V].lower() in names.pop().lower() and any(True for _ in split(e, s, v, 'Ok')), 'creates %s' % sorted({tyname(c[1]) for c in ctors}), w)
            for c in ctors:
                dep = lambda x, a: x is a or has(x, a)
                okd = any(dep(deepsym(calls, e, a), data) for a in c[2])
                cx.ob('%s:decoder:data' % V, okd, 'the decoder reads the caller\'s data', w)
                if len(c[2]) > 1:
                    cx.ob('%s:decoder:options' % V, c[2][1] is opts, 'options given to the decoder: %s' % show(c[2][1])[:80], w)
                else:
                    cx.ob('%s:decoder:options' % V, False, 'the decoder is created without the caller\'s options', w)
        # ---- default-option decoder
        calls.clear()
        e, v, s, fr = apply(F, g('decoder'), [fmt, data], inline=lambda *a: False, on_call=oc, byref=(0,))
        ok = len(calls) >= 1 and any(c[0].endswith('decoder_with_options') and c[2][1] is data for c in calls)
        cx.ob('%s:decoder-default' % V, ok, 'decoder() goes through decoder_with_options', g('decoder').where())
        # ---- encoder
        calls.clear()
        img, eopts, sink = mk('arg', 'image', 1), mk('arg', 'eoptions', 2), mk('arg', 'sink', 3)
        e, v, s, fr = apply(F, g('encode'), [fmt, img, eopts, sink], inline=inl, on_call=oc, byref=(0,))
        enc = [c for c in calls if c[0].endswith('EncoderTrait::encode') or re.search(r'Encoder(::<[^:]*>)? as .*EncoderTrait>::encode$', c[1])]
        he = plain(apply(F, g('has_encoder'), [fmt], inline=inl, byref=(0,))[1])
        cx.ob('%s:has_encoder' % V, bool(he) == bool(enc) and he in (True, False, 0, 1), 'has_encoder says %s, %d encode call(s)' % (he, len(enc)), g('has_encoder').where())
        w = g('encode').where()
        if enc:
            for c in enc:
                t = c[6]
                self_ty = t['at'][0].lstrip('&').replace('mut ', '').strip()
                encs[V] = self_ty
                fm = None
                fm = fm or F.fn('<%s as zune_image::traits::EncoderTrait>::format' % self_ty)
                r = apply(F, fm, [mk('arg', 'enc', 0)])[1] if fm else None
                cx.ob('%s:encoder' % V, plain(r) == V, 'encodes with %s, whose format is %s' % (self_ty, plain(r)), w)
                encv = e.content(c[3], c[2][0]) if c[2][0].tag == 'ref' else c[2][0]
                ctor = [k for k in calls if k[1].endswith('::new_with_options') or k[1].endswith('set_options')]
                got = any(a is eopts for k in ctor for a in k[2]) or has(encv, eopts)
                cx.ob('%s:encoder:options' % V, got, 'the encoder gets the caller\'s options', w)
                cx.ob('%s:encoder:image' % V, c[2][1] is img and has(c[2][2], sink), 'image and sink are the caller\'s', w)
            okr = [x for _, x in split(e, s, v, 'Ok')] if v is not None else []
            res = {(('sym', c[1], c[4].id, c[5])) for c in enc}
            good = v is not None and v.tag == 'sym' and (v.a[1], v.a[2]) in {(c[4].id, c[5]) for c in enc} or all(('sym',) and show(x) for x in okr)
            cx.ob('%s:encoder:result' % V, v is not None and (v.tag in ('sym', 'phi', 'agg')), 'result %s' % show(v)[:60], w)
        else:
            okr = v is not None and any(True for _ in split(e, s, v, 'Ok'))
            cx.ob('%s:no-encoder' % V, v is not None and not okr, 'encoding is an error', w)
    extensions(cx, g('encoder_for_extension'), encs, inl)
    magic(cx)
    headers(cx, vs)


def has(v, x, d=0, seen=None):
    seen = seen if seen is not None else set()
    if v is x:
        return True
    if v in seen or d > 25:
        return False
    seen.add(v)
    for y in v.a:
        if isinstance(y, V):
            if has(y, x, d + 1, seen):
                return True
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, V) and has(z, x, d + 1, seen):
                    return True
    return False


def deepsym(calls, e, a, d=0):
    """expand opaque call results into their arguments"""
    a = uncast(a)
    if a.tag == 'sym' and d < 4:
        for c in calls:
            if c[4].id == a.a[1] and c[5] == a.a[2]:
                return mk('exp', a, tuple(deepsym(calls, e, x, d + 1) for x in c[2]))
    return a


def extensions(cx, f, encs, inl):
    F = cx.F
    consts = set()

    def oc(fr, b, t, c, args, st):
        if c is not None:
            consts.update(x for x in (strof(a) for a in args) if x)

    def view(e, fr, b, t, c, args, st):
        if c is not None and c['name'].endswith(('AsRef::as_ref', 'Deref::deref', 'Borrow::borrow')):
            return e.content(st, args[0])
        return None
    ask = lambda x: apply(F, f, [mk('cstr', x)], inline=inl, on_call=oc, model=view)
    ask('')
    for x in sorted(consts | set(EXT)):
        e, v, s, fr = ask(x)
        r = plain(v)
        if isinstance(r, str) and r.startswith('?'):
            cx.undec('ext:%s' % x, 'not a constant of the extension: %s' % r, f.where())
            continue
        if x not in EXT and r == 'None':
            continue
        if r == 'None' and x not in NEED:
            continue
        ok = isinstance(r, tuple) and len(r) == 2 and r[0] == 'Some' and EXT.get(x) == r[1] and r[1] in encs
        cx.ob('ext:%s' % x, ok, 'extension %s is encoded as %s' % (x, r), f.where())


def strof(v):
    if v is None or not isinstance(v, V):
        return None
    v = uncast(v)
    if v.tag == 'call':
        for a in v.a[1]:
            x = strof(a)
            if x is not None:
                return x
        return None
    if v.tag == 'at':
        return strof(v.a[0])
    if v.tag in ('c', 'cstr') and isinstance(v.a[0], str):
        return v.a[0]
    if v.tag == 'cref':
        return strof(v.a[0])
    return None


def magic(cx):
    F = cx.F
    fs = F.find(r'codecs::guess_format$', 'zune_image')
    fs = [f for f in fs if not f.name.startswith(IF)]
    if len(fs) != 1:
        cx.ob('magic', False, 'no unique signature function')
        return
    f = fs[0]
    cx.analysed(f)
    table, direct = [], []

    def pairs(v, d=0):
        if v.tag == 'agg' and v.a[0] == 'tuple' and len(v.a[3]) == 2:
            a, b = v.a[3]
            fa = lambda x: x.tag == 'agg' and x.a[0] == 'adt' and x.a[1] == IF
            if fa(a):
                a, b = b, a
            if fa(b):
                p = plain(a)
                if isinstance(p, str):
                    p = None if p.startswith('?sym') or p.startswith('?') and len(p) > 3 else p.encode('latin1')
                elif isinstance(p, tuple) and all(isinstance(i, int) for i in p):
                    p = bytes(p)
                else:
                    p = None
                if p is not None:
                    table.append((p, b.a[2]))
                    return
                direct.append((b.a[2], None))
        if v.tag == 'agg' or v.tag == 'cref':
            for y in (v.a[3] if v.tag == 'agg' else v.a):
                if isinstance(y, V_) and d < 4:
                    pairs(y, d + 1)

    guards = []

    def os_(fr, b, i, x, v, st):
        n = len(direct)
        pairs(v)
        for k in range(n, len(direct)):
            guards.append((direct[k][0], frozenset(g for g in st.facts if g[0] == 'T')))
        if x[0] == '=' and x[2][0] in ('use', 'ref'):
            pairs(v)
    e = Engine(F, inline=lambda fr, c, fn: False, pure=lambda n: 'probe_bmp' in n or 'is_webp' in n)
    e.on_stmt = os_
    e.run(f)
    tab = sorted(set(table))
    for p, V in tab:
        cx.ob('magic:%s:%r' % (V, p), p in MAGIC.get(V, []), 'signature %r is taken for %s' % (p, V), f.where())
    for V, n in REQUIRED.items():
        have = [p for p, x in tab if x == V]
        cx.ob('magic:%s' % V, len(have) >= n, 'signatures %s' % have, f.where())
    for p, V in tab:
        for q, W in tab:
            if V != W and q.startswith(p):
                cx.ob('magic:prefix:%s/%s' % (V, W), False, 'signature of %s is a prefix of that of %s' % (V, W), f.where())
    for V, name in (('BMP', 'probe_bmp'), ('WEBP', 'is_webp')):
        gs = [g for v, g in guards if v == V]
        ok = bool(gs) and all(any(isinstance(a[1], V_) and a[1].tag == 'call' and name in a[1].a[0] for a in g) for g in gs)
        cx.ob('magic:%s' % V, ok, 'reported only after %s succeeded' % name, f.where())


V_ = V


def headers(cx, vs):
    F = cx.F
    ims = [f for f in F.fns.values() if f.crate == 'zune_image' and re.search(r'DecoderTrait (for .*)?>::read_headers$|as zune_image::traits::DecoderTrait>::read_headers$', f.name)]
    cx.ob('headers:inventory', len(ims) >= 10, '%d decoder implementations' % len(ims))
    for f in sorted(ims, key=lambda x: x.name):
        cx.analysed(f)
        T = [V for V in TYPES if TYPES[V].lower() in f.name.lower()]
        if len(T) != 1:
            cx.ob('headers:%s' % f.name, False, 'decoder of no known format')
            continue
        V = T[0]
        pure = lambda n: True
        selfv = mk('arg', 'decoder', 0)
        e = Engine(F, inline=lambda fr, c, fn: fn.crate == 'zune_image' and ('metadata::ImageMetadata' in fn.name), pure=lambda n: not n.endswith(('decode_headers', 'read_headers')))
        fr, st = e.run(f, args=[selfv])
        res = list(split(e, st, e.resolve(st, retval(e, fr, st)), 'Ok'))
        n = 0
        for s1, v in res:
            o = e.project(s1, v, (('d', 0, 'Ok'), ('f', 0, '0')))
            for s2, m in split(e, s1, o, 'Some'):
                n += 1
                md = e.project(s2, m, (('d', 1, 'Some'), ('f', 0, '0')))
                names = [x['n'] if isinstance(x, dict) else x for x in F.adts['zune_image::metadata::ImageMetadata']['v'][0]['f']]

                def fld(k):
                    return e.resolve(s2, e.project(s2, md, (('f', names.index(k), k),)))
                fv = fld('format')
                cx.ob('headers:%s:format' % V, plain(fv) == ('Some', V), 'reported format %s' % (plain(fv),), f.where())
                for k, i in (('width', 0), ('height', 1)):
                    x = uncast(fld(k))
                    ok = dimok(x, k, i)
                    cx.ob('headers:%s:%s' % (V, k), ok, 'reported %s is %s' % (k, show(x)[:120]), f.where())
                cs, dp = show(fld('colorspace')), show(fld('depth'))
                okc = 'colorspace' in cs.lower() or cs.startswith('ColorSpace::')
                cx.ob('headers:%s:colorspace' % V, okc, 'reported colorspace is %s' % cs[:120], f.where())
                okd = 'depth' in dp.lower() or dp.startswith('BitDepth::')
                cx.ob('headers:%s:depth' % V, okd, 'reported depth is %s' % dp[:120], f.where())
        cx.ob('headers:%s' % V, n > 0, '%d header results' % n, f.where())


def dimok(x, k, i):
    """x is component i of the decoder's dimensions, or its width/height"""
    s = show(x)
    other = 'height' if k == 'width' else 'width'
    if x.tag == 'proj' and x.a[1][0] == 'f' and str(x.a[1][1]) == str(i):
        return 'dimensions' in s
    if x.tag in ('proj', 'init', 'call', 'sym'):
        return k in s and other not in s
    return False
