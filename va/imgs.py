"""Abstract images: known number of frames and channels, unknown samples."""
from .lib import *
from . import lists

IMAGE = 'zune_image::image::Image'
FRAME = 'zune_image::frame::Frame'
CHANNEL = 'zune_image::channel::Channel'
META = 'zune_image::metadata::ImageMetadata'
CS = 'zune_core::colorspace::ColorSpace'
BD = 'zune_core::bit_depth::BitDepth'
BT = 'zune_core::bit_depth::BitType'
OPS = 'zune_image::traits::OperationsTrait'
ENC = 'zune_image::traits::EncoderTrait'
COMPONENTS = dict(RGB=3, RGBA=4, YCbCr=3, Luma=1, LumaA=2, YCCK=4, CMYK=4, BGR=3, BGRA=4, ARGB=4, HSL=3, HSV=3)
SIZE = dict(Eight=1, Sixteen=2, Float32=4)
TYPE = dict(Eight='U8', Sixteen='U16', Float32='F32')


def struct(F, adt, name, **over):
    a = F.adts[adt]
    fs = [x['n'] for x in a['v'][0]['f']]
    return mk('agg', 'adt', adt, a['v'][0]['n'], tuple(over[x] if x in over else mk('sym', name, adt.split('::')[-1], x) for x in fs), tuple(fs))


def cs(F, n):
    return enumval(F, CS, n, [mk('sym', 'bands')] if n == 'MultiBand' else [])


def bd(F, n):
    return enumval(F, BD, n)


def channel(F, name):
    return struct(F, CHANNEL, name)


def image(F, name, colorspace, depth, chans, **meta):
    """chans: number of channels of each frame"""
    frames = [struct(F, FRAME, '%s.f%d' % (name, i), channels=lists.arr([channel(F, '%s.f%d.c%d' % (name, i, j)) for j in range(n)])) for i, n in enumerate(chans)]
    m = struct(F, META, name, colorspace=colorspace, depth=depth, **meta)
    return struct(F, IMAGE, name, frames=lists.arr(frames), metadata=m)


def fld(v, name):
    """field of a struct value"""
    if v.tag == 'agg' and name in v.a[4]:
        return v.a[3][v.a[4].index(name)]
    return None


def frames(v):
    f = fld(v, 'frames')
    return list(f.a[3]) if f is not None and lists.isarr(f) else None


def channels(fr):
    f = fld(fr, 'channels')
    return list(f.a[3]) if f is not None and lists.isarr(f) else None


def factors(v):
    """multiset of the factors of a product"""
    v = uncast(v)
    if v.tag == 'op' and v.a[0] in ('Mul', 'MulUnchecked'):
        return factors(v.a[1]) + factors(v.a[2])
    if intc(v):
        n = cv(v)
        return [n] if n != 1 else []
    return [v]


def canon(v):
    c, r = 1, []
    for x in factors(v):
        if isinstance(x, int):
            c *= x
        else:
            r.append(x.n)
    return (c, tuple(sorted(r)))


def sized(facts, img, size):
    """do the facts say that every channel has width * height * size bytes? -> channel that has not, or None"""
    m = fld(img, 'metadata')
    want = canon(mk('op', 'Mul', mk('op', 'Mul', fld(m, 'width'), fld(m, 'height')), C(size)))
    eqs = set()
    for f in facts:
        if f[0] == 'eq':
            eqs.add((canon(f[1]), canon(f[2])))
            eqs.add((canon(f[2]), canon(f[1])))
    for i, fr in enumerate(frames(img)):
        for j, ch in enumerate(channels(fr)):
            if (canon(fld(ch, 'length')), want) not in eqs:
                return i, j
    return None


def ops(F):
    """operation type -> {method: Fn}"""
    out = {}
    for f in F.fns.values():
        m = re.match(r'^<(.*) as %s>::(\w+)$' % re.escape(OPS), f.name)
        if m:
            out.setdefault(m.group(1), {})[m.group(2)] = f
    return out


def encoders(F):
    out = {}
    for f in F.fns.values():
        m = re.match(r'^<(.*) as %s>::(\w+)$' % re.escape(ENC), f.name)
        if m:
            out.setdefault(m.group(1), {})[m.group(2)] = f
    return out


def default_method(F, trait, name):
    return F.fn(trait + '::' + name)


_lists = {}


def listed(F, f):
    """variant names of the constant list a method returns; None when it is not constant"""
    if f is None:
        return None
    if f.id not in _lists:
        e = Engine(F, inline=lambda fr, c, fn: True)
        fr, st = e.run(f)
        r = None
        if st is not None:
            v = retval(e, fr, st)
            while v.tag in ('cref', 'ref', 'slice_of'):
                v = e.content(st, v) if v.tag != 'slice_of' else v.a[0]
            if lists.isarr(v) and all(x.tag == 'agg' for x in v.a[3]):
                r = [x.a[2] for x in v.a[3]]
        _lists[f.id] = r
    return _lists[f.id]
