"""C17: the C and WebAssembly bindings map their enums to the library's one to one."""
from ..lib import *

PROP = dict(
    id='C17',
    title='C and WebAssembly bindings name the same formats, depths and colorspaces',
    statement='Every image format, bit depth and colorspace of the library has at most one counterpart in the C API and in the WebAssembly API; converting to the binding and back gives the same value again '
              'and the counterpart carries the same name; a library value without counterpart is reported as unknown and never aborts the program.  When the C API decodes into a buffer, each '
              'format is decoded by that format\'s decoder, and a format it cannot decode into a buffer is an error.',
    quantifier=dict(over=['configurations'], text='every variant of every enum exposed by zune-capi and zune-wasm; every image format'),
    why_tests_cant='The bindings have no tests of their own; a swapped or missing arm is only met by a caller that uses that very value.',
    anchors=dict(files=['crates/zune-capi/src/enums.rs', 'crates/zune-capi/src/imread.rs', 'crates/zune-wasm/src/enums.rs'],
                 mechanism=[dict(name='From/to conversions of ZImageFormat, ZImageDepth, ZImageColorspace, Wasm*', where='crates/zune-capi/src/enums.rs, crates/zune-wasm/src/enums.rs'),
                            dict(name='imdecode_inner', where='crates/zune-capi/src/imread.rs')]))
TECHNIQUE = 'constant propagation over MIR: every conversion function evaluated on every enum variant and compared by name; call targets per format'
EXPLAIN = """
Conversion functions between a binding enum and a library enum are found by their signature in the type-checked program.  Each is evaluated by the MIR constant evaluator on every variant;
the result must be the variant of the same name (after removing the Zil prefix and letter case), or the unknown variant when there is none.  imdecode_inner is evaluated once per
ImageFormat; the decoder constructors and decode calls on the remaining path are compared with the format.
"""
ASSUME = ['names of enum variants identify the meaning (CYMK is read as CMYK)']
TYPES = dict(JPEG='JpegDecoder', PNG='PngDecoder', PPM='PPMDecoder', PSD='PSDDecoder', Farbfeld='FarbFeldDecoder', QOI='QoiDecoder', JPEG_XL='JxlImage', HDR='HdrDecoder', BMP='BmpDecoder')


def norm(n):
    n = n.lower().replace('_', '')
    if n.startswith('zil'):
        n = n[3:]
    n = {'cymk': 'cmyk', 'unknownformat': 'unknown', 'unknowndepth': 'unknown', 'unknowncolorspace': 'unknown', 'u8': 'eight', 'u16': 'sixteen', 'f32': 'float32'}.get(n, n)
    return n


def run(cx):
    F = cx.F
    isenum = lambda a: a in F.adts and F.adts[a]['kind'] == 'Enum'
    pairs = 0
    dirs = {}
    for f in sorted(F.fns.values(), key=lambda f: f.name):
        if f.crate not in ('zil_c', 'zune_wasm') or f.kind == 'Closure' or f.argc != 1:
            continue
        a = f.locals[1].lstrip('&').strip()
        byref = f.locals[1].startswith('&')
        o = f.locals[0]
        if not (isenum(a) and isenum(o)) or a == o:
            continue
        own = lambda n: n.startswith(('zil_c::', 'zune_wasm::'))
        if own(a) == own(o):
            continue
        cx.analysed(f)
        pairs += 1
        av, ov = variants(F, a), variants(F, o)
        names = {norm(n): n for n, _ in ov}
        dirs.setdefault((f.crate, a.split('::')[-1] if own(a) else o.split('::')[-1]), set()).add(own(a))
        hit = {}
        for n, k in av:
            if k:
                continue
            e, v, s, fr = apply(F, f, [enumval(F, a, n)], byref=(0,) if byref else ())
            r = plain(v)
            want = names.get(norm(n)) or names.get('unknown')
            key = '%s:%s' % (short(f), n)
            if isinstance(r, str) and r.startswith('?'):
                cx.undec(key, 'not a constant: %s' % r, f.where())
                continue
            if want is None:
                # no counterpart and no unknown variant: nothing to compare with, but it must not abort
                cx.ob(key, v is not None, '%s has no counterpart' % n, f.where())
                continue
            cx.ob(key, r == want, '%s becomes %s, expected %s' % (n, r, want), f.where())
    for d, s in sorted(dirs.items()):
        cx.ob('dir:%s:%s' % d, True, 'converted %s' % ' and '.join('to the library' if x else 'from the library' for x in s))
    cx.ob('inventory', pairs >= 13, '%d conversion functions' % pairs)
    inner(cx)


def inner(cx):
    F = cx.F
    IF = 'zune_image::codecs::ImageFormat'
    f = F.fn('zil_c::imread::imdecode_inner')
    if f is None:
        cx.ob('imdecode_inner', False, 'function missing')
        return
    cx.analysed(f)
    for n, _ in variants(F, IF):
        calls = []

        def oc(fr, b, t, c, args, st):
            if c is not None:
                m = re.search(r'(\w+Decoder|JxlImage\w*)(::<.*>)?::(new\w*|try_new|decode\w*|builder)$', rname(c))
                if m and not m.group(3).startswith('decode_headers'):
                    calls.append(m.group(1))

        def model(e, fr, b, t, c, args, st):
            if c is not None and c['name'].endswith('::guess_format'):
                tup = mk('agg', 'tuple', None, None, (enumval(F, IF, n), mk('arg', 'data', 1)), ('0', '1'))
                return mk('agg', 'adt', 'core::option::Option', 'Some', (tup,), ('0',))
            return None
        e, v, s, fr = apply(F, f, [mk('arg', 'data', 0), mk('arg', 'output', 1)], inline=lambda fr, c, fn: fn.crate == 'zil_c', on_call=oc, model=model)
        w = f.where()
        okp = v is not None and any(True for _ in split(e, s, v, 'Ok'))
        cx.ob('imdecode:%s:returns' % n, v is not None, 'decoding returns', w)
        if n in TYPES:
            cx.ob('imdecode:%s' % n, set(calls) == {TYPES[n]} and okp, 'decoded by %s' % sorted(set(calls)), w)
        else:
            cx.ob('imdecode:%s' % n, not calls and not okp and v is not None, 'no decoder for this format: %s' % show(v)[:60], w)
