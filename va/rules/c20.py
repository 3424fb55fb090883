"""C20: operations leave an image whose parts agree with each other."""
from ..opsem import *
from ..core import NoAnswer

PROP = dict(
    id='C20',
    title='Operations leave an image whose size, depth and channels agree',
    statement='When an image operation (crop, resize, rotate, flip, mirror, transpose, affine, blurs, edge filters, tone operations, blend, composite, depth conversion, auto-orient...) succeeds on an image whose channels hold width*height samples each, the result does too: '
              'in every frame each channel holds reported width * reported height * bytes-per-sample of the reported depth bytes, and there are as many channels as the colorspace has components. '
              'The colorspace is unchanged, the depth is unchanged (Depth: the requested one), width and height are unchanged except by operations that change geometry: transpose exchanges them, crop and resize report the requested width and height.',
    quantifier=dict(over=['inputs', 'configurations'], text='every operation, supported colorspace and sample depth, one or several frames, every image size, with and without the threads feature'),
    why_tests_cant='Tests run an operation on one square still image of one depth; a channel left at the old size shows only for non-square images, 16-bit or float samples, alpha channels or later frames.',
    anchors=dict(files=['crates/zune-imageprocs/src/*.rs', 'crates/zune-image/src/core_filters/depth.rs', 'crates/zune-image/src/image.rs'],
                 mechanism=[dict(name='execute_impl of every OperationsTrait implementation', where='crates/zune-imageprocs/src')]))
TECHNIQUE = 'abstract interpretation of MIR over images with symbolic width, height and samples, one run per operation, colorspace, depth and build configuration'
EXPLAIN = """
execute_impl of every OperationsTrait implementation is interpreted abstractly on an image with two frames, symbolic width and height, and channels whose length is the symbolic product width * height * sample size.
Channel replacements, pushes and in-place writes are followed; arithmetic on plain sample slices is not entered. At every path to a successful end the length of each channel is compared, as a product of symbols, with the
dimensions, depth and colorspace the image then reports.
"""
ASSUME = ['the image satisfies the same invariant before the operation', 'ColorTransform (ICC transform through interleaved copies) is not covered; ColorMatrix and HsvAdjust are covered for RGB, RGBA, Luma and LumaA']
SPACES = dict(quick=['Luma', 'LumaA', 'RGB', 'RGBA'], thorough=['Luma', 'LumaA', 'RGB', 'RGBA', 'ARGB', 'BGRA', 'CMYK', 'BGR', 'HSL', 'YCbCr', 'HSV', 'YCCK'])


def key_of(conf, k, nf):
    t, c, d, v, al = k
    return ' '.join([short(t), c, d] + [x for x in (v, al) if x != '-'] + ([conf] if conf != 'default' else []))


def results(cx, what, one=lambda *a: None):
    for (conf, w, k, nf), n, bad, und, ker, ex in sweep(cx, what, SPACES[cx.tier]):
        f = ops(cx.facts(conf))[k[0]]['execute_impl']
        cx.analysed(f)
        for q in ker:
            cx.analysed(q)
        at = '%s (%s:%d)' % (f.name, f.file, f.line)
        yield key_of(conf, k, nf), conf, k, n, bad, und, ex, at


def run(cx):
    runs = paths_ = 0
    for key, conf, k, n, bad, und, dec, at in results(cx, 'size'):
        runs += 1
        paths_ += dec
        if bad:
            cx.ob(key, False, '; '.join(bad)[:600], at)
            continue
        if n and dec:
            cx.ob(key, True, '%d channel/path pairs agree with the reported size' % dec, at)
        if und or not n or not dec:
            cx.undec(key, '; '.join(und)[:300] or 'no successful end found', at)
    cx.extra['runs'] = runs
    cx.extra['channel/path pairs decided'] = paths_
    have = {o[0].split(' ')[0] for o in cx.obs}
    for t in {short(t) for t, ms in ops(cx.F).items() if 'execute_impl' in ms and t != CC} - SKIP:
        if t not in have:
            cx.undec(t, 'no run of this operation could be decided')
    if len(have) < 15:
        raise NoAnswer('only %d operations analysed' % len(have))
