"""C01: configured dimension limits are enforced by every decoder."""
from ..lib import *

PROP = dict(
    id='C01',
    title='Configured maximum width and height are enforced by every decoder',
    statement='When reading an image header succeeds, the width and height the decoder reports do not exceed the maximum width and maximum height configured in the options it was created with. An image declaring a larger size on either axis makes header decoding fail.',
    quantifier=dict(over=['inputs', 'configurations'], text='every input byte sequence, every pair of limits, every natively implemented decoder'),
    why_tests_cant='Tests decode small files with default limits; a header path that skips or swaps the check needs a crafted header on that very path.',
    anchors=dict(files=['crates/zune-core/src/options/decoder.rs', 'crates/zune-bmp/src/decoder.rs', 'crates/zune-farbfeld/src/decoder.rs', 'crates/zune-gif/src/decoder.rs', 'crates/zune-hdr/src/decoder.rs', 'crates/zune-jpeg/src/headers.rs', 'crates/zune-png/src/headers/readers.rs', 'crates/zune-ppm/src/decoder.rs', 'crates/zune-psd/src/decoder.rs', 'crates/zune-qoi/src/decoder.rs'],
                 mechanism=[dict(name='comparison of the parsed size with the limits before it is stored', where='decode_headers of each decoder')]))
TECHNIQUE = 'interprocedural abstract interpretation of MIR (path facts at successful returns)'
EXPLAIN = """
Interprocedural abstract interpretation of each decoder's header entry point over MIR (private helpers analysed in place).
In the abstract state of its successful return, the decoder's own dimension getter is evaluated; each value it can report must
carry, on the path that stored it, the condition 'value <= configured limit of the same axis' (or be untouched by the call).
An obligation is one (decoder, axis).  Delegating adapters of zune-image (WebP, JPEG-XL) are judged at the successful return of decode.
"""
ASSUME = ['std/core models of va/models.py', 'bodies as seen by rustc for x86_64, default features, debug assertions off', 'unresolved calls may change only what they are given by mutable reference']


def run(cx):
    F = cx.F
    lw, lh = limit_field(F, 'max_width'), limit_field(F, 'max_height')
    cx.ob('anchor:options', lw and lh and lw != lh, 'DecoderOptions::max_width / max_height return distinct option fields (%s, %s)' % (lw, lh))
    types = decoder_types(F)
    for crate in NATIVE:
        ty = types.get(crate)
        if not ty:
            cx.ob('anchor:%s' % crate, False, 'no public decoder type with decode_headers found')
            continue
        f = F.fn(ty + '::decode_headers')
        g = dmeth(F, ty, 'dimensions', 'get_dimensions')
        e = Engine(F, inline=lambda fr, c, fn: fn.crate == crate or (fn.crate == 'zune_core' and '::options::' in fn.name), max_depth=8, max_steps=400000)
        e.max_rec = 2
        try:
            fr, st = e.run(f)
        except Budget as b:
            cx.ob('%s:analysis' % crate, False, 'analysis budget exceeded in %s' % b, f.where())
            continue
        for i in e.inlined | {f.id}:
            cx.analysed(F.fns[i])
        sts = [x for x, _ in ok_states(e, fr, st)] if st is not None else []
        if not sts:
            cx.ob('%s:returns' % crate, False, 'header decoding can never succeed', f.where())
            continue
        selfv = mk('arg', f.id, 1)
        res = {'width': [], 'height': []}
        stored = {'width': 0, 'height': 0}
        nalt = {'width': 0, 'height': 0}

        def untouched(x):
            # content from before this call
            while x.tag == 'proj':
                x = x.a[0]
            if x.tag == 'cast':
                return untouched(x.a[1])
            return x.tag == 'init' and x.a[0][:2] == ('*', selfv)
        for st in sts:
            for s2, w, h in dims(e, F, ty, g, selfv, st):
                for axis, v, lim in (('width', w, lw), ('height', h, lh)):
                    v = e.resolve(s2, v)
                    for x, _ in alternatives(e, s2, v):
                        nalt[axis] += 1
                        stored[axis] += not untouched(x)
                    bad = bounded(e, s2, v, lambda b: last_field(b) == lim, ok=untouched)
                    if bad is not None:
                        res[axis].append(bad)
        for axis, lim in (('width', lw), ('height', lh)):
            bad = res[axis]
            cx.ob('%s:%s' % (crate, axis), not bad and stored[axis] > 0,
                  '%s reported after successful header decode: %d exit states, %d alternatives, %s' % (
                      axis, len(sts), nalt[axis], 'all <= limit' if not bad else 'NOT bounded by %s: %s' % (lim, show(bad[0])[:200])), f.where())


def dims(e, F, ty, g, selfv, st):
    """(state, width, height) the decoder reports in state st"""
    if g is not None:
        fr2, st2 = e.run(g, args=[selfv], state=st)
        for s3, r in split(e, st2, retval(e, fr2, st2), 'Some'):
            tup = e.project(s3, r, (('d', 1, 'Some'), ('f', 0, '0')))
            yield s3, e.project(s3, tup, (('f', 0, '0'),)), e.project(s3, tup, (('f', 1, '1'),))
    else:
        a = F.adts.get(strip_generics(ty).rstrip(':'))
        idx = {x['n']: i for i, x in enumerate(a['v'][0]['f'])}
        yield st, e.readfull(st, ('*', selfv, ('f', idx['width'], 'width'))), e.readfull(st, ('*', selfv, ('f', idx['height'], 'height')))
