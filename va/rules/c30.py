"""C30: colorspace conversion moves the right samples into the right channel."""
import gc
from multiprocessing import Pool
from ..effects import *

PROP = dict(
    id='C30',
    title='Colorspace conversion puts every component into its own channel',
    statement='When converting an image from one colorspace to another succeeds, the image reports the requested colorspace and every frame has as many channels as it has components; width, height, depth and number of frames are unchanged. '
              'Between RGB, RGBA, BGR, BGRA and ARGB each red, green, blue and alpha channel holds exactly the samples the original channel of that name held, and gray images expand to three copies of the gray channel. '
              'A missing alpha channel is created fully opaque (255, 65535 or 1.0), an existing one is kept when the target has alpha, and never flows into color. '
              'Gray, CMYK, HSL and HSV values are computed from the red, green and blue channels of the same frame, given to the arithmetic in that order.',
    quantifier=dict(over=['inputs', 'configurations'], text='every pair of colorspaces, sample depth, image size and content, still or animated'),
    why_tests_cant='Tests convert a few pairs on one still 8-bit image and mostly compare lengths; a swapped or dropped channel shows only for particular pairs, depths or later frames.',
    anchors=dict(files=['crates/zune-image/src/core_filters/colorspace.rs', 'crates/zune-image/src/core_filters/colorspace/conversion_functions.rs', 'crates/zune-image/src/frame.rs'],
                 mechanism=[dict(name='ColorspaceConv::execute_impl, convert_* functions', where='core_filters/colorspace')]))
TECHNIQUE = 'abstract interpretation of MIR over images with symbolic samples (data flow of whole channels), one run per pair of colorspaces and depth'
EXPLAIN = """
ColorspaceConv::execute_impl is interpreted abstractly on an image with two frames (and one frame) whose channels hold symbolic samples, for each pair of colorspaces and each sample depth. The interpreter follows channel moves
(push, pop, insert, remove, swap, split, clone) exactly and records which original channels the samples written by arithmetic kernels derive from. At every successful end the resulting channels are compared with the component
names of the two colorspaces. Parameters of kernels are matched to components by their names.
"""
ASSUME = ['arithmetic inside a kernel (a function on plain sample slices) is not judged, only which samples it is given', 'pairs a build refuses with an error are refused for every image, except those among RGB, RGBA, BGR, BGRA, ARGB, Luma, LumaA, CMYK, HSL and HSV, which must be possible']
CC = 'zune_image::core_filters::colorspace::ColorspaceConv'
NAMES = dict(RGB='RGB', RGBA='RGBA', BGR='BGR', BGRA='BGRA', ARGB='ARGB', Luma='L', LumaA='LA', CMYK='CMYK', HSL='HSL', HSV='HSV', YCbCr='YUW', YCCK='YUWK')
NAMES = {k: [c if not (k in ('HSL', 'HSV') or k.startswith('Y') or k == 'CMYK') else k[:3] + '.' + c for c in v] for k, v in NAMES.items()}
NAMES['CMYK'] = ['CMY.C', 'CMY.M', 'CMY.Y', 'CMY.K']
ROLE = {'R': 0, 'G': 1, 'B': 2, 'CMY.C': 0, 'CMY.M': 1, 'CMY.Y': 2, 'HSL.H': 0, 'HSL.S': 1, 'HSL.L': 2, 'HSV.H': 0, 'HSV.S': 1, 'HSV.V': 2}
POSSIBLE = ('RGB', 'RGBA', 'BGR', 'BGRA', 'ARGB', 'Luma', 'LumaA', 'CMYK', 'HSL', 'HSV')
FAMILY = ('RGB', 'RGBA', 'BGR', 'BGRA', 'ARGB')
MAXV = dict(Eight=255, Sixteen=65535, Float32=1.0)
PARAM = {'r': 0, 'g': 1, 'b': 2, 'c': 0, 'm': 1, 'y': 2, 'h': 0, 's': 1, 'l': 2, 'v': 2}
FX = None


def const(x):
    if x is None or x.tag != 'c':
        return None
    v = x.a[1]
    if isinstance(v, str) and v.startswith('f:'):
        v = v[2:]
    try:
        return float(v)
    except (TypeError, ValueError):
        return None


def roles(fn):
    """parameter position -> color index, by the names of the parameters; None when they do not tell"""
    out = {}
    for nm, l in fn.names.items():
        i = l - 1
        if 0 <= i < fn.argc and i < len(fn.ins()) and '[' in fn.ins()[i] or 'Vec<' in (fn.ins()[i] if 0 <= i < len(fn.ins()) else ''):
            if len(nm) <= 2 and nm[0] in PARAM or nm in ('red', 'green', 'blue', 'hue', 'saturation', 'lightness', 'value', 'cyan', 'magenta', 'yellow') or re.match(r'^[rgbcmyhslv]_\w+$', nm):
                out[i] = PARAM[nm[0]]
    return out if sorted(out.values()) == [0, 1, 2] else None


def job(p):
    a, b, depth, nf = p
    F = FX
    f = ops(F)[CC]['execute_impl']
    bad, und, fns = [], [], set()
    r = OpRun(F, f, a, depth, frames_=nf, selfv=struct(F, CC, 'self', to=cs(F, b)))
    n = 0
    for st in r.ends():
        n += 1
        img = deepsel(r.e.readfull(st, (('img', 0),)), st.facts)[0]
        m = fld(img, 'metadata') if img.tag == 'agg' else None
        if m is None:
            und.append('result image is unknown')
            continue
        c = fld(m, 'colorspace')
        if not (c.tag == 'agg' and c.a[2] == b):
            (bad if c.tag == 'agg' else und).append('image reports colorspace %s' % show(c)[:60])
        m0 = fld(r.start, 'metadata')
        for w in ('width', 'height', 'depth'):
            x, y = fld(m, w), fld(m0, w)
            if x is not y:
                (bad if x.tag in ('agg', 'c', 'op') or x.tag == 'sym' and str(x.a[0]) == 'img' else und).append('%s changed to %s' % (w, show(x)[:60]))
        fs = frames(img)
        if fs is None:
            und.append('frames of the result are unknown')
            continue
        if len(fs) != nf:
            bad.append('%d frames became %d' % (nf, len(fs)))
        for i, fr in enumerate(fs):
            chs = channels(fr)
            if chs is None or any(fld(x, 'ptr') is None for x in chs):
                und.append('channels of frame %d are unknown' % i)
                continue
            if len(chs) != COMPONENTS[b]:
                bad.append('frame %d has %d channels' % (i, len(chs)))
                continue
            for _, vs in paths(r.e, st, [fld(x, 'ptr') for x in chs]):
                frame(r, a, b, depth, i, vs, bad, und)
    return p, n, sorted(set(bad)), sorted(set(und)), sorted({k.split('::')[-1] for k in r.kfn})


def clean(v):
    """the samples of one original channel, unmodified"""
    while v.tag == 'written' and False:
        v = v.a[0]
    return v.a[0] if v.tag == 'sym' and len(v.a) == 3 and v.a[2] == 'ptr' else None


def unknown(v, d=0, seen=None):
    seen = set() if seen is None else seen
    if v.n in seen or d > 60:
        return False
    seen.add(v.n)
    if v.tag in ('init', 'havoc', 'phi', 'lphi', 'opaque', 'proj') or v.tag == 'sym' and v.a[0] == 'unknowndata':
        return True
    if v.tag == 'kernel':
        return unknown(v.a[1], d + 1, seen) or any(unknown(x, d + 1, seen) for x in v.a[2])
    if v.tag == 'samples':
        return any(unknown(x, d + 1, seen) for x in v.a[0])
    if v.tag == 'written':
        return unknown(v.a[0], d + 1, seen)
    if v.tag == 'mix':
        return unknown(v.a[0], d + 1, seen) or any(unknown(x, d + 1, seen) for x in v.a[1])
    return False


def frame(r, a, b, depth, i, vs, bad, und):
    src = NAMES[a]
    comp = {'img.f%d.c%d' % (i, j): n for j, n in enumerate(src)}

    def name(root):
        return comp.get(root) or 'another frame (%s)' % root

    def says(v):
        x = clean(v)
        return name(x) if x else 'computed from ' + ','.join(sorted(name(y) for y in roots(v))) if roots(v) else 'constant'
    colors = {k for k, n in comp.items() if n != 'A'}
    for j, (v, want) in enumerate(zip(vs, NAMES[b])):
        if unknown(v):
            und.append('frame %d: samples of %s are unknown' % (i, want))
            continue
        where = 'frame %d: %s channel ' % (i, want)
        rs = roots(v)
        if want == 'A' and 'A' not in src:
            o = const(opaque_value(v, depth))
            if o is None and not rs:
                und.append(where + 'is filled with an unknown value')
            elif o != MAXV[depth]:
                bad.append(where + ('is %s' % says(v) if rs else 'is filled with %s' % o))
        elif want in src:
            if clean(v) is None or comp.get(clean(v)) != want:
                bad.append(where + 'is ' + says(v))
        elif a in ('Luma', 'LumaA') and b in FAMILY:
            if clean(v) is None or comp.get(clean(v)) != 'L':
                bad.append(where + 'is ' + says(v))
        elif want == 'L':
            if rs != colors:
                bad.append(where + 'is ' + says(v))
        else:
            if not rs or not rs <= colors:
                bad.append(where + 'is ' + says(v))
            base = baseroot(v)
            k = ROLE.get(want)
            if base is not None and k is not None and comp.get(base) in ROLE and ROLE[comp[base]] != k:
                bad.append(where + 'replaces the samples of ' + name(base))
    for v in vs:
        for kn in kernels(v):
            fn = r.kfn.get(kn.a[0])
            ro = roles(fn) if fn is not None else None
            if ro is None:
                continue
            for pos, k in ro.items():
                if pos >= len(kn.a[2]) or kn.a[2][pos].tag != 'samples':
                    continue
                for x in kn.a[2][pos].a[0]:
                    base = baseroot(x)
                    if base is not None and comp.get(base) in ROLE and ROLE[comp[base]] != k or base is not None and base not in comp:
                        bad.append('frame %d: %s receives %s as its parameter %d' % (i, kn.a[0].split('::')[-1], name(base), pos))


def run(cx):
    global FX
    FX = cx.F
    f = ops(FX)[CC]['execute_impl']
    cx.analysed(f)
    ks = list(NAMES)
    l = [(a, b, d, 2) for a in ks for b in ks for d in MAXV] + [(a, b, 'Eight', 1) for a in ks for b in ks]
    l.sort(key=lambda p: (p[0] not in ('HSL', 'HSV') and p[1] not in ('HSL', 'HSV'), p))
    gc.collect()
    gc.freeze()
    kf = set()
    with Pool(8, maxtasksperchild=1) as pool:
        res = list(pool.imap_unordered(job, l, 1))
    poss = 0
    for (a, b, d, nf), n, bad, und, ker in sorted(res):
        key = '%s->%s %s %d frame%s' % (a, b, d, nf, 's' if nf > 1 else '')
        at = '%s (%s:%d)' % (f.name, f.file, f.line)
        kf |= set(ker)
        poss += n > 0
        if n == 0 and a in POSSIBLE and b in POSSIBLE:
            bad = ['never succeeds']
        if und and not bad:
            cx.undec(key, '; '.join(und)[:300], at)
            continue
        cx.ob(key, not bad, '; '.join(bad)[:600] if bad else ('%d successful end%s' % (n, 's' if n != 1 else '') if n else 'refused with an error'), at)
    for k in kf:
        cx.analysed(k)
    cx.extra['runs'] = len(l)
    cx.extra['runs with a successful end'] = poss
