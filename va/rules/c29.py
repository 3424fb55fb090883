"""C29: geometric operations put every sample where they should."""
from ..chanmap import *
from ..opsem import ops, short
from ..core import NoAnswer

PROP = dict(
    id='C29',
    title='Geometric operations move every sample to its place',
    statement='For every image size and for 8-bit, 16-bit and float samples: Flip reverses each row (Horizontal), the order of the rows (Vertical) or both (MirrorXAxis); Transpose exchanges rows and columns; Rotate by a multiple of 90 degrees, negative ones included, turns the image clockwise by that angle; '
              'Crop copies exactly the requested rectangle; Mirror keeps one half (North the top one, South the bottom one, East and West one side each) and reflects it onto the other; the dimensions of the image change accordingly, vector instructions and plain code agree, no sample is lost, duplicated or left unset, and AutoOrient turns an image with EXIF orientation 1 to 8 upright.',
    quantifier=dict(over=['inputs', 'configurations'], text='every image size and content, every sample depth, every parameter value of the operations, with and without vector instructions'),
    why_tests_cant='A test checks one or two sizes on the code path the machine running it selects; remainders of tiles, images narrower than a tile, and the kernels for other processors are not run.',
    anchors=dict(files=['crates/zune-imageprocs/src/flip.rs', 'crates/zune-imageprocs/src/rotate.rs', 'crates/zune-imageprocs/src/transpose.rs', 'crates/zune-imageprocs/src/transpose/*.rs', 'crates/zune-imageprocs/src/crop.rs', 'crates/zune-imageprocs/src/mirror.rs', 'crates/zune-imageprocs/src/auto_orient.rs'],
                 mechanism=[dict(name='execute_impl of Flip, Rotate, Transpose, Crop, Mirror, AutoOrient', where='crates/zune-imageprocs/src')]))
TECHNIQUE = 'index-map analysis of MIR: every sample copy summarised as polynomials over loop counters and image dimensions, through iterator adapters, chunks and vector registers, compared with the required permutation'
EXPLAIN = """
The body of each operation is walked once on a channel of W x H samples with symbolic W and H.  Loops are summarised, not unrolled: iterators and chunks turn into index polynomials of the loop counter, loads, shuffles and stores of vector registers are
followed lane by lane, branches on sizes become guards.  The summary is a list of copies destination index <- source index; it is then evaluated for a grid of sizes that covers every residue of the tile sizes (8 and 4), for every outcome of processor
feature tests, and the resulting permutation is compared with the definition of the operation.  AutoOrient is decided by composing the permutations of the operations it calls for each orientation.
"""
ASSUME = ['summaries are evaluated for widths and heights up to the grid bound; index polynomials involve sizes only through sums, products and remainders by constants up to 8', 'the closure given to execute_on is applied to every channel (decided by C20)', 'Mirror East and West: documentation and names disagree about which side is kept, so only that they keep opposite sides is required']

FD = 'zune_imageprocs::flip::FlipDirection'
MM = 'zune_imageprocs::mirror::MirrorMode'
same = lambda w, h, e: (w, h)
turned = lambda w, h, e: (h, w)
ident = lambda i, w, h, e: i
flop = lambda i, w, h, e: i // w * w + w - 1 - i % w
vflip = lambda i, w, h, e: (h - 1 - i // w) * w + i % w
half = lambda i, w, h, e: w * h - 1 - i
cw = lambda i, w, h, e: (h - 1 - i % h) * w + i // h
ccw = lambda i, w, h, e: (i % h) * w + (w - 1 - i // h)
transp = lambda i, w, h, e: (i % h) * w + i // h
antitr = lambda i, w, h, e: (h - 1 - i % h) * w + (w - 1 - i // h)
north = lambda i, w, h, e: i if i // w < h - h // 2 else (h - 1 - i // w) * w + i % w
south = lambda i, w, h, e: i if i // w >= h // 2 else (h - 1 - i // w) * w + i % w
right = lambda i, w, h, e: i if i % w >= w // 2 else i // w * w + w - 1 - i % w
left = lambda i, w, h, e: i if i % w < w - w // 2 else i // w * w + w - 1 - i % w
crop = lambda i, w, h, e: (i // e['w'] + e['y']) * w + i % e['w'] + e['x']
TURN = {0: (ident, same), 90: (cw, turned), 180: (half, same), 270: (ccw, turned)}
ANGLES = (0, 90, 180, 270, 360, 450, -90, -180, -270)


def rects(w, h):
    for a in sorted({1, (w + 1) // 2, w}):
        for b in sorted({1, (h + 1) // 2, h}):
            for x in sorted({0, (w - a) // 2, w - a}):
                for y in sorted({0, (h - b) // 2, h - b}):
                    yield dict(w=a, h=b, x=x, y=y)


def ctor(F, ty, args):
    for f in F.fns.values():
        if f.name.endswith('::%s::new' % ty) and 'zune_imageprocs' in f.name:
            v = Run(F).call(f, args)
            if isinstance(v, Var):
                return v
    return None


def grid(tier):
    if tier == 'thorough':
        return [(w, h) for w in range(1, 35) for h in range(1, 35)]
    r = list(range(1, 11)) + [16, 17, 19]
    return [(w, h) for w in r for h in r]


def measure(o, sizes, extra, spec, dim):
    """None, or the first size at which the summary is not the wanted map"""
    if o.run.opaque:
        raise Undecided('untracked write: %s line %s' % o.run.opaque[0])
    if not o.run.events or not o.applied:
        raise Undecided('no copies found')
    n = 0
    for w, h in sizes:
        for e in extra(w, h):
            for ch in choices(o.run):
                n += 1
                m, d = o.result(dict(W=w, H=h, **e), ch)
                want = dim(w, h, e)
                if d != want:
                    return '%dx%d%s: dimensions become %dx%d, not %dx%d' % (w, h, rect(e), d[0], d[1], want[0], want[1])
                if len(m) != d[0] * d[1]:
                    return '%dx%d%s: %d samples for %dx%d' % (w, h, rect(e), len(m), d[0], d[1])
                for i, v in enumerate(m):
                    if v != ('in', spec(i, w, h, e)):
                        if v == ('?',):
                            raise Undecided('value of a sample')
                        return '%dx%d%s: sample (%d,%d) of the result %s, expected that at %s' % (w, h, rect(e), i % d[0], i // d[0], says(v, w), pos(spec(i, w, h, e), w))
    o.n = n
    return None


def rect(e):
    return ' crop %s' % e if e else ''


def pos(i, w):
    return '(%d,%d)' % (i % w, i // w)


def says(v, w):
    return 'is the one at ' + pos(v[1], w) if v[0] == 'in' else 'is ' + tok(v)


def decide(cx, key, f, mk, sizes, extra, alts, depth):
    """alts: [(name, spec, dim)]; records one obligation and returns the matching name"""
    at = '%s (%s:%d)' % (f.name, f.file, f.line)
    cx.analysed(f)
    try:
        o = mk()
        res = []
        for nm, spec, dim in alts:
            r = measure(o, sizes, extra, spec, dim)
            if r is None:
                cx.ob(key, True, '%d copies, %d size and path combinations' % (len(o.run.events), o.n), at)
                return nm
            res.append(r)
        cx.ob(key, False, res[0], at)
    except Undecided as e:
        cx.undec(key, str(e), at)
    except Broken as e:
        cx.ob(key, False, 'out of bounds: %s' % e, at)
    except Stop as e:
        cx.undec(key, str(e), at)
    return None


def run(cx):
    for conf in (('default', 'nothreads') if cx.tier == 'thorough' else ('default',)):
        one(cx, cx.facts(conf), conf)


def one(cx, F, conf):
    O = {short(k): v['execute_impl'] for k, v in ops(F).items() if 'execute_impl' in v}
    sizes = grid(cx.tier)
    none = lambda w, h: ({},)
    tag = '' if conf == 'default' else ' (without threads)'

    def op(ty, args, key, alts, extra=none, sz=sizes):
        out = set()
        if ty not in O:
            raise NoAnswer('operation %s not found' % ty)
        sv = ctor(F, ty, args)
        for d in DEPTHS:
            if sv is None:
                cx.undec('%s %s%s' % (key, d, tag), 'constructor not understood')
                continue
            out.add(decide(cx, '%s %s%s' % (key, d, tag), O[ty], lambda: OpRun(F, d).go(O[ty], sv), sz, extra, alts, d))
        return out
    op('Flip', [Var(FD, 'Horizontal', [])], 'Flip Horizontal', [('', flop, same)])
    op('Flip', [Var(FD, 'Vertical', [])], 'Flip Vertical', [('', vflip, same)])
    op('Flip', [Var(FD, 'MirrorXAxis', [])], 'Flip MirrorXAxis', [('', half, same)])
    op('Transpose', [], 'Transpose', [('', transp, turned)])
    for a in ANGLES:
        op('Rotate', [Flt(float(a))], 'Rotate %d' % a, [('',) + TURN[a % 360]])
    op('Crop', [S('w'), S('h'), S('x'), S('y')], 'Crop', [('', crop, lambda w, h, e: (e['w'], e['h']))], rects, [(w, h) for w, h in sizes if w < 8 and h < 8])
    op('Mirror', [Var(MM, 'North', [])], 'Mirror North', [('', north, same)])
    op('Mirror', [Var(MM, 'South', [])], 'Mirror South', [('', south, same)])
    kept = {}
    for m in ('East', 'West'):
        kept[m] = op('Mirror', [Var(MM, m, [])], 'Mirror ' + m, [('left', left, same), ('right', right, same)]) - {None}
    if kept['East'] and kept['West']:
        cx.ob('Mirror East and West keep opposite sides' + tag, len(kept['East']) == len(kept['West']) == 1 and kept['East'] != kept['West'], 'East keeps %s, West keeps %s' % tuple('/'.join(sorted(kept[m])) for m in ('East', 'West')))
    # public kernels the operations do not call
    W, H = S('W'), S('H')
    for n in ('transpose_u8', 'transpose_u16', 'transpose_u32', 'transpose_float', 'transpose_generic'):
        for f in F.fns.values():
            if f.name == 'zune_imageprocs::transpose::' + n:
                decide(cx, n + tag, f, lambda: Kernel(F, f, [Slice('in', N(0), W * H), Slice('out', N(0), W * H), W, H]), sizes, none, [('', transp, lambda w, h, e: (w, h))], None)
    if conf == 'default':
        orient(cx, F, O)


class Kernel:
    """a function on slices: result in `out`"""

    def __init__(s, F, fn, args):
        s.run = Run(F)
        s.run.call(fn, args)
        s.applied = 1

    def result(s, sizes, choice):
        n = sizes['W'] * sizes['H']
        sim = Sim(s.run, sizes, {'in': (n, lambda i: ('in', i)), 'out': (n, lambda i: ('init', 'out'))}, choice)
        sim.go()
        return sim.buf('out'), (sizes['W'], sizes['H'])


class Orient(OpRun):
    """AutoOrient: whatever it reads from the EXIF field is the orientation"""

    def oracle(s, ctx, c, args, t, b):
        op = c['name'].split('::')[-1]
        if op in ('index', 'get', 'first') and args and args[0] is TOP:
            v = S('orientation')
            return v if op == 'index' else Var('core::option::Option', 'Some?', [v])
        if op == 'get_uint':
            return Var('core::option::Option', 'Some?', [S('orientation')])
        return OpRun.oracle(s, ctx, c, args, t, b)


UPRIGHT = {1: (ident, same), 2: (flop, same), 3: (half, same), 4: (vflip, same), 5: (transp, turned), 6: (cw, turned), 7: (antitr, turned), 8: (ccw, turned)}


def step(v):
    """map of an operation value"""
    if not isinstance(v, Var):
        return None
    t = v.ty.split('::')[-1]
    if t == 'Flip' and v.xs and isinstance(v.xs[0], Var):
        return {'Horizontal': (flop, same), 'Vertical': (vflip, same), 'MirrorXAxis': (half, same)}.get(v.xs[0].v)
    if t == 'Rotate' and v.xs and isinstance(v.xs[0], Flt):
        return TURN.get(v.xs[0].v % 360)
    if t == 'Transpose':
        return transp, turned
    return None


def orient(cx, F, O):
    f = O.get('AutoOrient')
    if f is None:
        raise NoAnswer('AutoOrient not found')
    at = '%s (%s:%d)' % (f.name, f.file, f.line)
    cx.analysed(f)
    try:
        o = Orient(F, 'Eight').go(f, TOP)
    except Stop as e:
        return cx.undec('AutoOrient', str(e), at)
    ok = o.ops and all(any(g[0][0] == 'cmp' for g in gs) for gs, _ in o.ops) and all(step(v) for _, v in o.ops)
    for n in range(1, 9):
        key = 'AutoOrient %d' % n
        if not ok:
            cx.undec(key, 'operations applied for each orientation not found', at)
            continue
        try:
            todo = [v for gs, v in o.ops if all(g[0][0] == 'unk' or cond(g[0], {'orientation': n}) == g[1] for g in gs)]
        except Undecided as e:
            cx.undec(key, str(e), at)
            continue
        bad = None
        for w, h in ((3, 2), (2, 5), (4, 4)):
            cells, dw, dh = list(range(w * h)), w, h
            for v in todo:
                m, d = step(v)
                cells = [cells[m(i, dw, dh, {})] for i in range(dw * dh)]
                dw, dh = d(dw, dh, {})
            m, d = UPRIGHT[n]
            if (dw, dh) != d(w, h, {}) or cells != [m(i, w, h, {}) for i in range(w * h)]:
                bad = 'orientation %d is answered by %s' % (n, ', '.join(text(v) for v in todo) or 'nothing')
        cx.ob(key, bad is None, bad or ', '.join(text(v) for v in todo) or 'nothing to do', at)


def text(v):
    return '%s %s' % (v.ty.split('::')[-1], ' '.join(str(x.v) for x in v.xs if isinstance(x, (Var, Flt))))
