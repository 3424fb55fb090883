"""C41: the header an encoder writes states the image it was given."""
from ..lib import *
from ..engine import *
from ..stream import Sink, written, low
from ..imgs import COMPONENTS
from .c15 import cs, bd, CS, BD, OPT, listed, encoders
from .. import lists

PROP = dict(
    id='C41',
    title='Encoders write a header that states the size, depth and colors of the image',
    statement='Whenever encoding succeeds, the output starts with the header of its format for exactly the width and height (below 2^32), colorspace and bit depth of the options. QOI: "qoif", width and height as big-endian 32 bit, 3 or 4 channels, colorspace 0 or 1. '
              'Farbfeld: "farbfeld", width and height as big-endian 32 bit. PNG: the signature and an IHDR with width and height as big-endian 32 bit, 8 or 16 bits, color type 0, 2, 4 or 6 for luma, RGB, luma+alpha, RGBA, and zero compression, filter and interlace methods. '
              'PPM: P5 (luma) or P6 (RGB) with width, height and maximum value 255 or 65535 in decimal, P7 (luma+alpha, RGBA) with WIDTH, HEIGHT, DEPTH (the number of components), MAXVAL and TUPLTYPE. Radiance HDR: #?RADIANCE, FORMAT=32-bit_rle_rgbe, an empty line and "-Y height +X width".',
    quantifier=dict(over=['inputs', 'configurations'], text='every width and height; every supported colorspace and depth'),
    why_tests_cant='Round trip tests use a few images, often square and below 256 pixels, in few colorspaces; an exchanged dimension, a truncated field or a wrong color code of another kind goes unseen.',
    anchors=dict(files=['crates/zune-qoi/src/encoder.rs', 'crates/zune-farbfeld/src/encoder.rs', 'crates/zune-png/src/encoder.rs', 'crates/zune-png/src/headers/writers.rs', 'crates/zune-ppm/src/encoder.rs', 'crates/zune-hdr/src/encoder.rs'],
                 mechanism=[dict(name='encode and encode_headers', where='encoder.rs of each codec'), dict(name='write_ihdr', where='crates/zune-png/src/headers/writers.rs')]))
TECHNIQUE = 'abstract interpretation of MIR with a model of the output: the sequence of bytes handed to the writer compared with the header of the format'
EXPLAIN = """
encode of each codec is run abstractly from its constructor for every supported colorspace and depth, width and height being symbols.  Every write of the writer type of zune-core appends to an abstract output: constants, single bytes of symbolic
values (byte 3 of width, ...), and formatted text (the format templates are decoded).  At every successful exit the output, as far as no loop was passed, must begin with the header of the format.
"""
ASSUME = ['the writer methods of zune-core write what they are given in order and in the byte order named', 'bytes written to intermediate buffers through a writer reach the output in the order written (PNG chunks)']

W, H_ = mk('opt', 'width'), mk('opt', 'height')
PNG = b'\x89PNG\r\n\x1a\n'
TUPLE = {'LumaA': 'GRAYSCALE_ALPHA', 'RGBA': 'RGB_ALPHA', 'Luma': 'GRAYSCALE', 'RGB': 'RGB'}


def be32(v):
    return [low(v, k) for k in (3, 2, 1, 0)]


def raw(b):
    return [C(x) for x in b]


def binary(c, d, k):
    if k == 'QoiEncoder':
        return raw(b'qoif') + be32(W) + be32(H_) + [C({'RGB': 3, 'RGBA': 4}[c]), (C(0), C(1))]
    if k == 'FarbFeldEncoder':
        return raw(b'farbfeld') + be32(W) + be32(H_)
    if k == 'PngEncoder':
        return raw(PNG) + raw(b'IHDR') + be32(W) + be32(H_) + raw([{'Eight': 8, 'Sixteen': 16}[d], {'Luma': 0, 'RGB': 2, 'LumaA': 4, 'RGBA': 6}[c], 0, 0, 0])


def text(c, d, k):
    m = {'Eight': 255, 'Sixteen': 65535}.get(d)
    if k == 'PPMEncoder':
        if c in ('Luma', 'RGB'):
            return r'%s\s+<w>\s+<h>\s+%d\s' % ({'Luma': 'P5', 'RGB': 'P6'}[c], m)
        return r'P7\s*\nWIDTH <w>\n\s*HEIGHT <h>\n\s*DEPTH %d\n\s*MAXVAL %d\n\s*TUPLTYPE %s\n\s*ENDHDR\n' % (COMPONENTS[c], m, TUPLE[c])
    if k == 'HdrEncoder':
        return r'#\?RADIANCE\n(?:[^\n]+\n)*?FORMAT=32-bit_rle_rgbe\n(?:[^\n]+\n)*?\n-Y <h> \+X <w>\n'


TYPES = {'zune_png::encoder::PngEncoder': ['Eight', 'Sixteen'], 'zune_ppm::encoder::PPMEncoder': ['Eight', 'Sixteen'], 'zune_qoi::encoder::QoiEncoder': ['Eight'],
         'zune_farbfeld::encoder::FarbFeldEncoder': ['Sixteen'], 'zune_hdr::encoder::HdrEncoder': ['Float32']}
KINDS = {'PngEncoder': ['Luma', 'LumaA', 'RGB', 'RGBA'], 'PPMEncoder': ['Luma', 'LumaA', 'RGB', 'RGBA'], 'QoiEncoder': ['RGB', 'RGBA'], 'FarbFeldEncoder': ['RGBA'], 'HdrEncoder': ['RGB']}


def flat(items):
    """text with placeholders"""
    out = []
    i = 0
    for x in items:
        if intc(x):
            out.append(chr(cv(x)))
        elif x.tag == 'shown':
            out.append('<w>' if x.a[0] is W else '<h>' if x.a[0] is H_ else '<?%s>' % show(x.a[0])[:40])
        elif x.tag == 'blob':
            out.append('\x00')
        else:
            out.append('<?%s>' % show(x)[:40])
    return ''.join(out)


def name(x):
    if isinstance(x, tuple):
        return ' or '.join(name(y) for y in x)
    return str(cv(x)) if intc(x) else 'byte %d of %s' % (x.a[1], x.a[0].a[0] if x.a[0].tag == 'opt' else show(x.a[0])[:60]) if x.tag == 'byte' else show(x)[:60]


def known(v):
    """a fixed function of the options"""
    return v.tag == 'opt' or intc(v) or v.tag == 'cast' and known(v.a[1]) or v.tag == 'op' and known(v.a[1]) and known(v.a[2])


def judge_binary(items, want):
    for i, w in enumerate(want):
        if i >= len(items):
            return 'short', 'output ends after %d bytes' % len(items)
        x = items[i]
        if x.tag == 'blob':
            return 'open', 'byte %d is written from a buffer' % i
        if not any(x is y for y in (w if isinstance(w, tuple) else (w,))):
            if not intc(x) and not (x.tag == 'byte' and known(x.a[0])):
                return 'open', 'byte %d is %s instead of %s' % (i, name(x), name(w))
            return 'bad', 'byte %d is %s instead of %s' % (i, name(x), name(w))
    return 'ok', '%d bytes' % len(want)


def judge_text(items, want):
    s = flat(items)
    if re.match(want.replace('<', '<'), s):
        return 'ok', repr(s.split('\x00')[0])[:120]
    h = s.split('\x00')[0]
    if '<?' in h or not h or '\x00' in s and len(h) < 4:
        return 'open', repr(s)[:150]
    return 'bad', '%r does not match %s' % (h[:150], want)


def run(cx):
    F = cx.F
    for ty, depths in sorted(TYPES.items()):
        k = ty.split('::')[-1]
        f = next((g for g in F.fns.values() if re.match(re.escape(ty) + r"(::<[^>]*>|<[^>]*>)?::encode$", g.name)), None)
        new = next((g for g in F.fns.values() if re.match(re.escape(ty) + r"(::<[^>]*>|<[^>]*>)?::new$", g.name)), None)
        if f is None or new is None:
            cx.ob('anchor:' + k, False, 'encoder not found')
            continue
        cx.analysed(f)
        for c in KINDS[k]:
            for d in depths:
                one(cx, F, f, new, k, c, d)


def one(cx, F, f, new, k, c, d):
    S = Sink(F)

    def model(e, fr, b, t, cc, args, st):
        n = cc['name']
        if n in (OPT + '::colorspace', OPT + '::get_colorspace'):
            return cs(F, c)
        if n in (OPT + '::depth', OPT + '::get_depth'):
            return bd(F, d)
        if n in (OPT + '::width', OPT + '::height'):
            return mk('opt', n.split('::')[-1])
        r = S(e, fr, b, t, cc, args, st)
        return r if r is not None else lists.model(e, fr, b, t, cc, args, st)

    def inline(fr, cc, fn):
        return fn.crate == f.crate or fn.crate == 'zune_core' and ('colorspace' in fn.name or 'bit_depth' in fn.name)
    e = Engine(F, inline=inline, model=model, max_steps=1500000)
    key = '%s: %s %s' % (k, c, d)
    st0 = State()
    try:
        fr, st1 = e.run(new, state=st0)
        v = retval(e, fr, st1)
        st1 = State(dict(st1.mem), st1.facts)
        self_ = boxed(st1, 'encoder', v)
        self_ = mk('ref', self_.a[0], True)
        S.begin(st1)
        fr, st = e.run(f, args=[self_, mk('arg', f.id, 2)], state=st1)
    except Budget as x:
        cx.undec(key, 'budget %s' % x, f.where())
        return
    for i in e.inlined:
        cx.analysed(F.fns[i])
    res = []
    if st is not None:
        for s2, v in split(e, st, retval(e, fr, st), 'Ok'):
            prune(e, s2)
            if not consistent(e, s2):
                continue
            for items, looped in written(e, s2):
                if items is None:
                    res.append(('open', 'output not followed', looped))
                    continue
                b = binary(c, d, k)
                r, t = judge_binary(items, b) if b is not None else judge_text(items, text(c, d, k))
                res.append((r, t, looped))
    bad = [t for r, t, l in res if r == 'bad' and not l or r == 'short' and not l]
    # a part of the output cut short by a loop cannot be judged
    und = [t for r, t, l in res if r == 'open' and not l]
    good = [t for r, t, l in res if r == 'ok']
    lbad = [t for r, t, l in res if r == 'bad' and l]
    if bad:
        cx.ob(key, False, bad[0], f.where())
    elif und or not good:
        if lbad and not good:
            cx.ob(key, False, lbad[0], f.where())
        else:
            cx.undec(key, (und + ['no successful exit followed'])[0], f.where())
    else:
        cx.ob(key, True, good[0], f.where())
