"""C21: operations take every sample from the right channel of the right frame."""
from ..opsem import *
from .c20 import results
from ..core import NoAnswer

PROP = dict(
    id='C21',
    title='Operations process each channel of each frame from its own samples',
    statement='When an image operation succeeds, every frame and every color channel has been processed, in the same way as the first one, and only from the samples it may use: tone operations, blurs, edge filters, geometry operations and depth conversion compute a channel from that channel of that frame alone; '
              'color operations (color matrix, HSV) from channels of the same frame; blend and composite additionally from the corresponding channel (and alpha) of the second image. '
              'Tone operations, edge filters, blend and HSV leave the alpha channel as it was, bit for bit; geometry operations and box and gaussian blur treat alpha like color; premultiplication uses the frame\'s own alpha and does not change it. '
              'Converting to the depth an image already has changes no sample.',
    quantifier=dict(over=['inputs', 'configurations'], text='every operation, supported colorspace, sample depth, alpha state and image content, one or several frames, with and without the threads feature'),
    why_tests_cant='Tests run an operation once and check that it does not fail or look at a single channel; skipped later frames, alpha treated as color or a channel taken from a neighbour need particular colorspaces, depths or animations.',
    anchors=dict(files=['crates/zune-imageprocs/src/*.rs', 'crates/zune-image/src/core_filters/depth.rs'],
                 mechanism=[dict(name='execute_impl of every OperationsTrait implementation', where='crates/zune-imageprocs/src')]))
TECHNIQUE = 'abstract interpretation of MIR over images with symbolic samples: data flow of whole channels compared across channels, frames and colorspaces'
EXPLAIN = """
execute_impl of every OperationsTrait implementation is interpreted abstractly on an image with two frames whose channels hold distinct symbolic samples. The interpreter records, for every channel of the result, which original
channels it is computed from and by which sequence of arithmetic kernels (functions on plain sample slices). Per operation a table states what a color channel and an alpha channel may depend on; frames must be treated alike, and color
channels must be treated alike by operations that work channel by channel.
"""
ASSUME = ['arithmetic inside a kernel is not judged, only which samples it is given and which samples it writes', 'ColorTransform (ICC transform through interleaved copies) is not covered; ColorMatrix and HsvAdjust are covered for RGB, RGBA, Luma and LumaA']


def run(cx):
    runs = 0
    for key, conf, k, n, bad, und, ex, at in results(cx, 'flow'):
        runs += 1
        if bad:
            cx.ob(key, False, '; '.join(bad)[:600], at)
        elif und or not n:
            cx.undec(key, '; '.join(und)[:300] or 'no successful end found', at)
        else:
            cx.ob(key, True, '%d successful end%s, every channel computed from what it may use' % (n, 's' if n > 1 else ''), at)
    cx.extra['runs'] = runs
    have = {o[0].split(' ')[0] for o in cx.obs}
    if len(have) < 15:
        raise NoAnswer('only %d operations analysed' % len(have))
