"""C37: interleaved buffers and planar channels hold the same samples."""
from ..frames import *
from ..core import NoAnswer

PROP = dict(
    id='C37',
    title='Interleaving and splitting channels keeps every sample in place',
    statement='Sample i of channel c and element i*n+c of the interleaved buffer are the same value, for every image size, number of channels n and sample depth: when a buffer is split into channels (deinterleave_u8/u16/f32, behind Image::from_u8/from_u16/from_f32 and every decoder), '
              'when channels are joined (Frame::flatten, flatten_into), and when 16-bit channels become bytes (u16_to_big_endian high byte first, u16_to_native_endian in native order); the vector kernels for every processor and the plain code agree and the last samples after the vector part are treated like the others.',
    quantifier=dict(over=['inputs', 'configurations'], text='every number of pixels and channels, every depth, every instruction set'),
    why_tests_cant='The tests run the kernels the build machine selects on a few lengths; other instruction sets and other remainders are never executed.',
    anchors=dict(files=['crates/zune-image/src/deinterleave.rs', 'crates/zune-image/src/deinterleave/*.rs', 'crates/zune-image/src/frame.rs'],
                 mechanism=[dict(name='deinterleave_u8, deinterleave_u16, deinterleave_f32', where='crates/zune-image/src/deinterleave.rs'),
                            dict(name='Frame::flatten, flatten_into, u16_to_big_endian, u16_to_native_endian', where='crates/zune-image/src/frame.rs')]))
TECHNIQUE = 'index-map analysis of MIR: copies between interleaved and planar buffers summarised as polynomials over loop counters, through iterator adapters, chunk remainders and vector shuffles, compared with the layout'
EXPLAIN = """
Each conversion is walked once with a symbolic number of pixels L for 1 to 6 channels.  Loops, zips, chunks_exact and their remainders become copies destination index <- source index guarded by conditions on L; vector registers are followed lane by
lane through shuffles, blends, permutes and unpacks.  The summary is evaluated for lengths around every multiple of the widest vector and for both outcomes of every processor feature test and compared element by element with the layout i*n+c.
"""
ASSUME = ['lengths up to 129 pixels (thorough 300) cover every remainder of the widest kernel (48 samples) on both sides of the vector loop', 'Channel and its reinterpret_as are byte buffers (C28)']

QUICK = [1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 100, 127, 128, 129]
DEPTHS = ((1, 'u8'), (2, 'u16'), (4, 'f32'))


def cs(n):
    return Var(CS, {1: 'Luma', 2: 'LumaA', 3: 'RGB', 4: 'RGBA'}.get(n, 'MultiBand'), [N(n)] if n > 4 else [])


def short(v):
    return tok(v) if v is not None else 'nothing'


def measure(fr, LS, bases, want):
    """want(l) -> [(base, [tokens])]"""
    if fr.run.opaque:
        raise Undecided('untracked write: %s line %s' % fr.run.opaque[0])
    if not fr.run.events:
        raise Undecided('no copies found')
    n = 0
    for l in LS:
        for ch in choices(fr.run):
            n += 1
            sim = Sim(fr.run, {'L': l}, bases(l), ch)
            sim.go()
            for b, w in want(l):
                m = sim.buf(b)
                if len(m) != len(w):
                    return '%d pixels: %d elements instead of %d' % (l, len(m), len(w)), n
                for i in range(len(w)):
                    if m[i] != w[i]:
                        if m[i] == ('?',):
                            raise Undecided('value of an element')
                        return '%d pixels: element %d%s is %s, expected %s' % (l, i, ' of channel %d' % b[1] if isinstance(b, tuple) and b[0] == 'ch' else '', short(m[i]), short(w[i])), n
    return None, n


def run(cx):
    for conf in (('default', 'nothreads', 'nodefault') if cx.tier == 'thorough' else ('default',)):
        one(cx, cx.facts(conf), '' if conf == 'default' else ' (%s)' % conf)


def one(cx, F, tag):
    LS = QUICK if cx.tier == 'quick' else list(range(1, 301))

    def fn(n):
        c = [f for f in F.fns.values() if f.name.endswith(n)]
        if not c:
            raise NoAnswer('function %s not found' % n)
        return c[0]

    def ob(key, f, mk):
        at = '%s (%s:%d)' % (f.name, f.file, f.line)
        cx.analysed(f)
        try:
            fr, bases, want = mk()
            r, n = measure(fr, LS, bases, want)
            cx.ob(key + tag, r is None, r or '%d copies, %d length and path combinations' % (len(fr.run.events), n), at)
        except (Undecided, Stop) as e:
            cx.undec(key + tag, str(e), at)
        except Broken as e:
            cx.ob(key + tag, False, 'out of bounds: %s' % e, at)

    L = S('L')
    for size, ty in DEPTHS:
        for n in range(1, 7):
            def inb(l):
                return {('in', c): (l, lambda i, c=c: ('in', c, i)) for c in range(n)}

            def joined(l):
                return [('in', c, i) for i in range(l) for c in range(n)]

            def halves(pre):
                return lambda l: [(pre % z, ('in', c, i)) for i in range(l) for c in range(n) for z in (0, 1)]

            def flat(f, args=(), w=joined):
                def mk():
                    fr = Frames(F, size)
                    v = fr.run.call(f, [fr.frame(n, L)] + list(args))
                    if not isinstance(v, Slice):
                        raise Undecided('result not understood')
                    return fr, inb, lambda l: [(v.base, w(l))]
                return mk

            def into():
                fr = Frames(F, size)
                fr.run.call(fn('Frame::flatten_into'), [fr.frame(n, L), Slice('out', N(0), L * N(n))])
                return fr, lambda l: dict(inb(l), out=(l * n, lambda i: ('init', 'out'))), lambda l: [('out', joined(l))]

            def split():
                fr = Frames(F, size)
                v = fr.run.call(f, [Slice('px', N(0), L * N(n)), cs(n)])
                if isinstance(v, Var) and v.v == 'Ok':
                    v = v.xs[0]
                chs = v.xs if isinstance(v, Arr) else [v.item(N(i)) for i in range(n)] if isinstance(v, Seq) else None
                if not chs or any(not isinstance(c, Chan) for c in chs):
                    raise Undecided('result not understood')
                if len(chs) != n:
                    raise Broken('%d channels instead of %d' % (len(chs), n))
                return fr, lambda l: {'px': (l * n, lambda i: ('px', i))}, lambda l: [(c.base, [('px', i * n + j) for i in range(l)]) for j, c in enumerate(chs)]

            d = '%s, %d channel%s' % (ty, n, 's' if n > 1 else '')
            f = fn('frame::Frame::flatten')
            ob('flatten %s' % d, f, flat(f))
            ob('flatten_into %s' % d, fn('Frame::flatten_into'), into)
            if size == 2:
                f = fn('Frame::u16_to_big_endian')
                ob('u16_to_big_endian %s' % d, f, flat(f, [cs(n)], halves('be%d')))
                f = fn('Frame::u16_to_native_endian')
                ob('u16_to_native_endian %s' % d, f, flat(f, [], halves('ne%d')))
            f = fn('deinterleave::deinterleave_' + ty)
            ob('split %s' % d, f, split)
