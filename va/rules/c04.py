"""C04: header decoding is idempotent."""
from ..lib import *
from .c03 import engine, start, queries, ask

PROP = dict(
    id='C04',
    title='Decoding headers twice is the same as decoding them once',
    statement='After a decoder has successfully decoded its header, asking it to decode the header again succeeds, consumes no further input and leaves every reported property unchanged.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'], text='every decoder, input and option set; any number of repeated header-decode calls; for animated files, whose frames are stepped through by repeated calls, still images only'),
    why_tests_cant='Tests call each step once; nothing exercises a repeated header decode for each format.',
    anchors=dict(files=['crates/zune-bmp/src/decoder.rs', 'crates/zune-farbfeld/src/decoder.rs', 'crates/zune-gif/src/decoder.rs', 'crates/zune-hdr/src/decoder.rs', 'crates/zune-jpeg/src/decoder.rs', 'crates/zune-png/src/decoder.rs', 'crates/zune-ppm/src/decoder.rs', 'crates/zune-psd/src/decoder.rs', 'crates/zune-qoi/src/decoder.rs'],
                 mechanism=[dict(name='early return when the header flag is already set', where='decode_headers of each decoder')]))
TECHNIQUE = 'typestate by abstract interpretation of MIR: second header-decode call evaluated in the success state of the first'
EXPLAIN = """
The header entry point is run abstractly from a freshly constructed decoder; in every success exit it is run again.  During that second run no input-reader method may be
called on any feasible path, every exit must be success, and no stored field of the decoder may differ afterwards.  The pixel entry points are also run from that state: they
must not call a reader method before the header guard (checked through the same idempotence of the header routine they call).
"""
ASSUME = ['animations are stepped through by repeated header calls by design: such exits are excluded', 'std/core models of va/models.py', 'x86_64, default features, debug assertions off', 'all input is consumed through the byte-reader type of zune-core']

READER = 'zune_core::bytestream::reader::ZReader'


def still(e, F, anim, selfv, st):
    """the part of st in which the file declares no animation"""
    fr, s2 = e.run(anim, args=[selfv], state=st)
    v = e.resolve(s2, retval(e, fr, s2))
    opts = set()

    def walk(x):
        if x.tag == 'isv' and x.a[1] == 'Some':
            opts.add(x.a[0])
        elif x.tag == 'phi':
            for i, y in enumerate(x.a[1]):
                walk(y)
            for info in e.join.get(x.a[0]) or []:
                for f in info - st.facts:
                    if f[0] == 'is' and f[2] == 'Some':
                        opts.add(f[1])
        elif x.tag in ('op', 'un'):
            for y in x.a[1:]:
                if isinstance(y, V):
                    walk(y)
    walk(v)
    out = st.copy()
    for o in opts:
        if not e.assume_is(out, o, 'None', True):
            return
    for _ in range(3):
        prune(e, out)
        if not consistent(e, out):
            return
    yield out


def run(cx):
    F = cx.F
    types = decoder_types(F)
    for crate in NATIVE:
        ty = types.get(crate)
        if not ty:
            cx.ob('anchor:' + crate, False, 'no decoder type')
            continue
        reads = []
        armed = [False]

        def oc(fr, b, t, c, args, st):
            if armed[0] and c is not None and rname(c).startswith(READER) and '::' in rname(c):
                reads.append((rname(c), fr.fn.where(t.get('l'))))
        e = engine(F, crate)
        e.on_call = oc
        selfv = mk('arg', 'decoder', 0)
        ctor, st0 = start(e, F, ty, selfv)
        h = F.fn(ty + '::decode_headers')
        fr, st = e.run(h, args=[selfv], state=st0)
        for i in e.inlined | {h.id}:
            cx.analysed(F.fns[i])
        oks = [x for x, _ in split(e, st, retval(e, fr, st), 'Ok') if consistent(e, x)]
        anim = F.fn(ty + '::is_animated')
        if anim is not None:
            # stepping through the frames of an animation is repeated header decoding by design
            cx.analysed(anim)
            oks = [y for x in oks for y in still(e, F, anim, selfv, x)]
        cx.ob('%s:exits' % crate, bool(oks), '%d success exits' % len(oks), h.where())
        armed[0] = True
        bad = None
        for x in oks:
            reads.clear()
            fr2, s2 = e.run(h, args=[selfv], state=x)
            if s2 is None:
                bad = 'second call never returns'
                break
            if reads:
                bad = 'second call reads input: %s at %s' % reads[0]
                break
            r2 = retval(e, fr2, s2)
            if any(True for y in split(e, s2, r2, 'Err')):
                bad = 'second call may fail'
                break
            for k, v in s2.mem.items():
                if k[0] == '*' and k[1] is selfv:
                    w = e.read(x, k)
                    if w is not v and e.resolve(x, w) is not e.resolve(s2, v):
                        bad = 'second call changes %s' % (k[-1],)
        cx.ob('%s:again' % crate, bad is None and oks, bad or 'in %d success states the second call returns success at once' % len(oks), h.where())
