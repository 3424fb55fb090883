"""C38: neighbourhood filters look at the right pixels and weigh them right."""
from fractions import Fraction
from ..chanmap import *
from ..opsem import ops, short
from ..core import NoAnswer
from .c29 import ctor, measure, same

PROP = dict(
    id='C38',
    title='Neighbourhood filters see the right pixels and weigh them as documented',
    statement='For every image size: pad puts the image in the middle of the padded one and fills the border with zeros (Constant) or with the nearest image pixel (Replicate). '
              'The filters Sobel, Scharr, Prewitt (its functions), Convolve (3x3, 5x5 and 7x7 weights), SpatialOps (any radius) and BilateralFilter (any positive diameter) compute every output pixel from exactly the square window of input pixels centred on it, in rows from top to bottom, the border replicated, and set every pixel, for every sample depth they handle. '
              'Of that window Sobel, Scharr and Prewitt return sqrt(gx*gx + gy*gy) for the documented gradient matrices, without integer overflow for 8 and 16 bit samples; Convolve returns the sum of weight times pixel, times the scale; SpatialOps returns the maximum, minimum, max-min, (max-min)/(max+min+1) or mean as its variant says; BilateralFilter compares with the pixel in the centre.',
    quantifier=dict(over=['inputs', 'configurations'], text='every image size and content, every sample depth, every radius or weight matrix'),
    why_tests_cant='The tests run the filters on random or all-zero-weight data and check that nothing panics; no test compares with the definition, and a wrong neighbour changes few pixels slightly.',
    anchors=dict(files=['crates/zune-imageprocs/src/pad.rs', 'crates/zune-imageprocs/src/spatial.rs', 'crates/zune-imageprocs/src/convolve.rs', 'crates/zune-imageprocs/src/sobel.rs', 'crates/zune-imageprocs/src/scharr.rs', 'crates/zune-imageprocs/src/prewitt.rs', 'crates/zune-imageprocs/src/spatial_ops.rs', 'crates/zune-imageprocs/src/bilateral_filter.rs'],
                 mechanism=[dict(name='pad, spatial, spatial_NxN and the kernels given to them', where='crates/zune-imageprocs/src')]))
TECHNIQUE = 'index-map analysis of MIR with the kernel as an uninterpreted function of its window; algebraic normal form of the kernels\' arithmetic; interval bound of its integer intermediates'
EXPLAIN = """
The body of each filter is walked once with symbolic width and height (see C29); the call of the kernel on the collected window becomes an uninterpreted application, so the summary says from which input elements, in which order, every output element is
computed.  It is evaluated on a grid of sizes and compared with the clamped window.  The kernels are walked on a symbolic window: their arithmetic is kept as an exact polynomial over the window elements (conversions, clamping and rounding are the identity) and
compared with the polynomial of the documented matrices; every intermediate of an integer type is bounded by the sum of its coefficients' magnitudes times the largest sample.  The statistics are recognised from the comparison that guards each update.
"""
ASSUME = ['summaries are evaluated for widths and heights up to the grid bound and radii up to 3', 'rounding of floating point arithmetic, conversion to the sample type and clamping are not modelled', 'the weights a bilateral window is given are not judged, only the pixels it sees and the centre it compares with']

SAMPLE = {'Eight': 255, 'Sixteen': 65535, 'Float32': 1}


class Filter(OpRun):
    """the kernel called on a window is not looked into"""

    def __init__(s, F, depth):
        OpRun.__init__(s, F, depth)
        s.kernels = []

    def oracle(s, ctx, c, args, t, b):
        n = c['name']
        op = n.split('::')[-1]
        r = s.run
        if op == 'z_prefetch':
            return UNIT
        if n.startswith('core::ops::function::Fn') and len(args) > 1 and isinstance(args[1], Tup):
            sl = [a for a in args[1].xs if isinstance(a, Slice)]
            if sl:
                if not any(key(args[0]) == key(k[0]) for k in s.kernels):
                    s.kernels.append((args[0], args[1].xs, ctx.gen))
                return App(sl[0], args[0])
        if args and args[0] is s.img and op in ('channels_mut', 'channels_ref'):
            s.applied += 1
            return Seq(lambda k: s.chan, [N(1)])
        if op in ('scope', 'spawn') and n.startswith('std::thread'):
            f = [a for a in args if isinstance(a, Clo)]
            if len(f) == 1:
                v = r.closure(f[0], [TOP] if op == 'scope' else [], ctx)
                return v if op == 'spawn' or isinstance(v, Var) else TOP
        return OpRun.oracle(s, ctx, c, args, t, b)


class Kern(Run):
    """a kernel on a symbolic window: exact arithmetic"""

    def __init__(s, F):
        Run.__init__(s, F, s.orc)
        s.bad = []
        s.reads = []

    def orc(s, ctx, c, args, t, b):
        n = c['name']
        op = n.split('::')[-1]
        x = args[0] if args else None
        if isinstance(x, Elem):
            x = s.read(x)
        if op in ('mul', 'add', 'sub', 'div') and n.startswith('core::ops::arith') and len(args) == 2:
            return numop(op.capitalize(), x, s.read(args[1]) if isinstance(args[1], Elem) else args[1])
        if op == 'neg' and n.startswith('core::ops::arith'):
            return numop('Sub', N(0), x)
        if op in ('add_assign', 'sub_assign', 'mul_assign') and n.startswith('core::ops::arith'):
            return None
        if num(x) is not None and not isinstance(x, P) or isinstance(x, P) and op in ('from', 'into'):
            y = args[1] if len(args) > 1 else None
            if op in ('from', 'into') or op.startswith(('from_', 'to_')) or op in ('zclamp', 'clamp', 'round'):
                return x
            if op == 'sqrt':
                return root(num(x))
            if op == 'hypot':
                return root(num(x).mul(num(x)).add(num(y).mul(num(y))))
            if op == 'powi' and isinstance(y, P) and y.const() == 2 or op == 'pow' and isinstance(y, P) and y.const() == 2:
                return num(x).mul(num(x))
            if op == 'mul_add' and len(args) == 3 and num(y) and num(args[2]):
                return num(x).mul(num(y)).add(num(args[2]))
        return None

    def read(s, e):
        if e.base == 'c':
            s.reads.append((e.idx, bool(s.loops)))
        return Run.read(s, e)


def root(p):
    return Num({((p.key(), 'sqrt'),): Fraction(1)})


def widest(v, top):
    """largest magnitude of a polynomial for samples up to top"""
    return sum(abs(c) * top ** len(m) for m, c in v.t.items())


def window(w, h, r):
    def f(i):
        y, x = divmod(i, w)
        return ('f',) + tuple(('in', min(max(y + dy, 0), h - 1) * w + min(max(x + dx, 0), w - 1)) for dy in range(-r, r + 1) for dx in range(-r, r + 1))
    return f


def grid(tier):
    return [(w, h) for w in range(1, 9) for h in range(1, 9)] if tier == 'thorough' else [(1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (5, 4), (4, 7)]


def windows(cx, key, f, o, r, sizes):
    """does every output element see its window?"""
    at = '%s (%s:%d)' % (f.name, f.file, f.line)
    cx.analysed(f)
    try:
        if o.run.opaque:
            raise Undecided('untracked write: %s line %s' % o.run.opaque[0])
        if not o.run.events or not o.applied:
            raise Undecided('no copies found')
        n = 0
        for w, h in sizes:
            want = window(w, h, r)
            for ch in choices(o.run):
                n += 1
                m, d = o.result(dict(W=w, H=h), ch)
                if d != (w, h) or len(m) != w * h:
                    return cx.ob(key, False, '%dx%d: the result has %d samples and dimensions %s' % (w, h, len(m), d), at)
                for i, v in enumerate(m):
                    if v == ('?',) or v[0] == 'f' and ('?',) in v:
                        raise Undecided('value of a sample')
                    if v != want(i):
                        return cx.ob(key, False, '%dx%d: pixel (%d,%d) %s' % (w, h, i % w, i // w, says(v, want(i), w, r)), at)
        cx.ob(key, True, '%d events, %d size and path combinations' % (len(o.run.events), n), at)
    except (Undecided, Stop) as e:
        cx.undec(key, str(e), at)
    except Broken as e:
        cx.ob(key, False, 'out of bounds: %s' % e, at)


def says(v, want, w, r):
    if v[0] == 'init':
        return 'is never set'
    if v[0] != 'f':
        return 'is ' + tok(v)
    if len(v) != len(want):
        return 'is computed from %d pixels, not %d' % (len(v) - 1, len(want) - 1)
    for j, (a, b) in enumerate(zip(v[1:], want[1:])):
        if a != b:
            return 'has %s in place %d of its window instead of (%d,%d)' % ('(%d,%d)' % (a[1] % w, a[1] // w) if a[0] == 'in' else tok(a), j, b[1] % w, b[1] // w)


class Fun:
    """a function on slices: result in `out`"""

    def __init__(s, F, fn, args):
        s.o = Filter(F, 'Eight')
        s.run = s.o.run
        s.ret = s.run.call(fn, args)
        s.kernels = s.o.kernels
        s.applied = 1

    def result(s, sizes, choice):
        n = sizes['W'] * sizes['H']
        sim = Sim(s.run, sizes, {'in': (n, lambda i: ('in', i)), 'out': (n, lambda i: ('init', 'out'))}, choice)
        sim.go()
        return sim.buf('out'), (sizes['W'], sizes['H'])


def gradient(c):
    """sqrt(gx*gx + gy*gy) of the matrix  -a 0 a / -b 0 b / -a 0 a  and its transpose"""
    a, b = c
    m = [-a, 0, a, -b, 0, b, -a, 0, a]
    v = lambda i: Num({(('c', N(i)),): Fraction(1)})
    gx, gy = Num({}), Num({})
    for i in range(9):
        gx = gx.add(v(i).mul(Num({(): Fraction(m[i])})))
        gy = gy.add(v(i).mul(Num({(): Fraction(m[i % 3 * 3 + i // 3])})))
    return root(gx.mul(gx).add(gy.mul(gy)))


def kernel(F, k, n):
    """(value, run) of a kernel on a symbolic window"""
    clo, args, gen = k
    run = Kern(F)
    run.lens = {}
    a, first = [], True
    for x in args:
        if isinstance(x, Slice) and first:
            a.append(Slice('c', N(0), N(n)))
            first = False
        elif isinstance(x, Slice):
            a.append(Slice('w', N(0), N(n)))
        else:
            a.append(x if x is not TOP else Num({(('scale', N(0)),): Fraction(1)}))
    ints = []
    fn = F.fns.get(clo.id)
    if fn is None:
        return None, run, ints, None
    old = Ctx.rvalue

    def rv(c, r, b):
        v = old(c, r, b)
        if r[0] == 'bin' and len(r) > 4 and r[4] in ('i32', 'i16', 'u32', 'u16', 'i64', 'u64'):
            w = v.xs[0] if isinstance(v, Tup) and v.xs else v
            if isinstance(w, Num):
                ints.append((r[4], w, c.fn))
        return v
    Ctx.rvalue = rv
    try:
        v = run.closure(clo, a, None)
    finally:
        Ctx.rvalue = old
    return v, run, ints, fn


RANGE = {'i16': 1 << 15, 'u16': 1 << 16, 'i32': 1 << 31, 'u32': 1 << 32, 'i64': 1 << 63, 'u64': 1 << 64}


def arithmetic(cx, F, key, ks, n, want, tops):
    """the kernel computes the wanted polynomial, within its integer types"""
    if len(ks) != 1 or not isinstance(ks[0][0], Clo):
        return cx.undec(key, 'kernel not found')
    v, run, ints, fn = kernel(F, ks[0], n)
    if fn is None:
        return cx.undec(key, 'kernel not found')
    at = '%s (%s:%d)' % (fn.name, fn.file, fn.line)
    cx.analysed(fn)
    v = num(v)
    if v is None:
        cx.undec(key, 'arithmetic not understood', at)
    else:
        ok = v.key() == want.key()
        cx.ob(key, ok, '' if ok else 'computes something else: ' + differ(v, want), at)
    over = [(t, w) for t, w, _ in ints if widest(w, max(tops)) >= RANGE[t]]
    cx.ob(key + ' overflow', not over, 'an intermediate of type %s reaches %d' % (over[0][0], widest(over[0][1], max(tops))) if over else '%d integer operations' % len(ints), at)


def strip(p):
    """the polynomial under a square root"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 'sqrt':
            return Num(dict(m[0][0][1])), True
    return p, False


def differ(a, b):
    (p, r), (q, z) = strip(a), strip(b)
    if r != z:
        return 'square root' if z else 'not a square root'
    d = p.add(q, -1)
    m, c = sorted(d.t.items(), key=repr)[0]
    f = lambda m: '*'.join('%s%s' % (x[0], [x[1]] if x[0] != 'scale' else '') for x in m) or '1'
    return 'coefficient of %s is %s, expected %s' % (f(m), p.t.get(m, 0), q.t.get(m, 0))


# -- statistics: which value of the window is kept
def calls(fn):
    for b in fn.rpo():
        t = fn.blocks[b]['t']
        if t['k'] == 'call' and t['f'][0] == 'k' and isinstance(t['f'][1].get('v'), dict) and 'name' in t['f'][1]['v']:
            yield b, t, t['f'][1]['v']['name'].split('::')[-1]


class Expr:
    """expressions of a statistic function"""

    def __init__(s, F, fn):
        s.F = F
        s.fn = fn
        s.defs = {}
        for b in fn.rpo():
            for st in fn.blocks[b]['s']:
                if st[0] == '=' and isinstance(st[1], int):
                    s.defs.setdefault(st[1], []).append((b, 'rv', st[2]))
            t = fn.blocks[b]['t']
            if t['k'] == 'call' and isinstance(t.get('d'), int):
                s.defs.setdefault(t['d'], []).append((b, 'call', t))

    def local(s, l, n=0):
        ds = s.defs.get(l, [])
        if n > 24:
            return '?'
        if len(ds) == 1:
            return s.value(ds[0], n + 1)
        return s.kept(l, ds, n + 1)

    def value(s, d, n):
        if d[1] == 'call':
            t = d[2]
            op = t['f'][1]['v']['name'].split('::')[-1] if t['f'][0] == 'k' and isinstance(t['f'][1].get('v'), dict) and 'name' in t['f'][1]['v'] else '?'
            a = [s.operand(x, n) for x in t['a']]
            if op in ('max', 'min') and len(a) == 1:
                return op
            if op in ('from', 'into', 'from_u32', 'clone', 'deref', 'unwrap', 'copied', 'cloned', 'iter', 'into_iter', 'unwrap_or', 'unwrap_or_default') or op.startswith('from_'):
                return a[0] if a else '?'
            if op == 'len':
                return 'len'
            if op == 'next':
                return 'item'
            if op in ('one',):
                return '1'
            if op in ('sub', 'add', 'div', 'saturating_add', 'wrapping_add', 'saturating_sub', 'mul'):
                op = op.split('_')[-1]
                return (op,) + (tuple(sorted(a, key=repr)) if op in ('add', 'mul') else tuple(a))
            g = s.F.fns.get(t['f'][1]['v'].get('fn')) if op != '?' else None
            g = g or (s.F.fns.get(t['f'][1]['v']['name']) if op != '?' else None)
            if g is not None and a == ['data'] and g is not s.fn and n < 20:
                return Expr(s.F, g).local(0, 12)
            if op == 'map' and len(a) == 2 and a[0] == 'data' and s.converts(t['a'][1]):
                return 'data'
            if op == 'sum' and a == ['data']:
                return 'sum'
            return '?'
        r = d[2]
        if r[0] == 'use':
            return s.operand(r[1], n)
        if r[0] in ('ref', 'raw'):
            return s.place(r[2], n)
        if r[0] == 'cast':
            return s.operand(r[2], n)
        if r[0] == 'bin':
            op = {'Add': 'add', 'Sub': 'sub', 'Div': 'div', 'Mul': 'mul'}.get(r[1].replace('WithOverflow', '').replace('Unchecked', ''), r[1])
            a = [s.operand(r[2], n), s.operand(r[3], n)]
            return (op,) + (tuple(sorted(a, key=repr)) if op in ('add', 'mul') else tuple(a))
        if r[0] == 'un' and r[1] == 'PtrMetadata':
            return 'len'
        return '?'

    def converts(s, o):
        """a closure or function that returns its argument in another type"""
        p = o[1].get('v') if o[0] == 'k' else None
        g = s.F.fns.get(p.get('fn') or p.get('name')) if isinstance(p, dict) else None
        if o[0] != 'k':
            ds = s.defs.get(o[1], []) if isinstance(o[1], int) else []
            if len(ds) == 1 and ds[0][1] == 'rv' and ds[0][2][0] == 'agg' and ds[0][2][1] == 'closure':
                g = s.F.fns.get(ds[0][2][-1]) or next((f for f in s.F.fns.values() if f.name == ds[0][2][-1]), None)
        return g is not None and Expr(s.F, g).local(0, 12) == 'data'

    def operand(s, o, n):
        if o[0] == 'k':
            v = o[1].get('v')
            return str(v) if isinstance(v, int) else '?'
        return s.place(o[1], n)

    def place(s, p, n):
        if isinstance(p, int):
            return s.local(p, n) if p > s.fn.argc else 'data'
        return s.local(p[0], n) if p[0] > s.fn.argc else 'data'

    def kept(s, l, ds, n):
        """a value updated in the loop: the largest, the smallest or the sum of the items"""
        kinds, start, extra = set(), set(), False
        for d in ds:
            if d[1] == 'rv' and s.plain(d[2], l) == 'sum':
                kinds.add('sum')
                continue
            v = s.value(d, n)
            if v == 'item':
                k, more = s.guard(d[0], l)
                kinds.add(k)
                extra = extra or more
            elif isinstance(v, tuple) and v[0] in ('max', 'min', 'zmax', 'zmin') and 'item' in v:
                kinds.add(v[0][-3:])
            else:
                start.add(s.start(d, v))
        if len(kinds) != 1:
            return '?'
        k = kinds.pop()
        if k in (MAX, MIN):
            if start == {'data'}:
                return k
            if start != {'low' if k == MAX else 'high'}:
                return '%s starting too %s' % (k, start.pop()) if start in ({'low'}, {'high'}) else '?'
            return '%s of some items only' % k if extra else k
        return k

    def start(s, d, v):
        t = str(d[2])
        if v == 'data':
            return 'data'
        if 'max_val' in t or 'MAX_VAL' in t or '::MAX' in t:
            return 'high'
        if 'min_val' in t or 'MIN_VAL' in t or '::MIN' in t or v == '0':
            return 'low'
        return '?'

    def plain(s, rv, l):
        """l = l + item"""
        for _ in range(5):
            if rv[0] == 'use' and rv[1][0] in ('c', 'm'):
                p = rv[1][1]
                p = p[0] if isinstance(p, list) else p
                ds = s.defs.get(p, [])
                if len(ds) != 1 or ds[0][1] != 'rv':
                    return None
                rv = ds[0][2]
                continue
            break
        if rv[0] == 'bin' and rv[1].startswith('Add'):
            names = []
            for o in rv[2:4]:
                names.append('self' if s.same(o, l) else s.operand(o, 4))
            if sorted(names, key=repr) == ['item', 'self']:
                return 'sum'
        return None

    def same(s, o, l):
        for _ in range(4):
            if o[0] == 'k' or not isinstance(o[1], int):
                return False
            if o[1] == l:
                return True
            ds = s.defs.get(o[1], [])
            if len(ds) != 1 or ds[0][1] != 'rv' or ds[0][2][0] != 'use':
                return False
            o = ds[0][2][1]
        return False

    def who(s, o, l, n=0):
        """is the operand (a reference to) the kept value or the item?"""
        if o[0] == 'k' or n > 6:
            return None
        p = o[1]
        p = p if isinstance(p, int) else p[0]
        if p == l:
            return 'self'
        ds = s.defs.get(p, [])
        if len(ds) != 1:
            return None
        if ds[0][1] == 'call':
            op = ds[0][2]['f'][1]['v']['name'].split('::')[-1] if ds[0][2]['f'][0] == 'k' and isinstance(ds[0][2]['f'][1].get('v'), dict) else ''
            return 'item' if op == 'next' else None
        r = ds[0][2]
        if r[0] == 'use':
            return s.who(r[1], l, n + 1)
        if r[0] in ('ref', 'raw'):
            return s.who(['c', r[2]], l, n + 1)
        return None

    def guard(s, b, l):
        """(kind, are there more conditions) for an update in block b"""
        idom = s.fn.idom()
        x, kind, more = b, '?', False
        for _ in range(24):
            p = idom.get(x) if isinstance(idom, dict) else idom[x]
            if p is None or p == x:
                break
            t = s.fn.blocks[p]['t']
            if t['k'] == 'switch' and t.get('ty') == 'bool' and x in s.fn.succ(p) and len(set(s.fn.succ(p))) > 1 and s.fn.preds()[x] == [p]:
                k = s.compares(t, x, l)
                if kind == '?' and k != '?':
                    kind = k
                else:
                    more = True
            x = p
        return kind, more

    def compares(s, t, x, l):
        cond = t['d'][1]
        ds = s.defs.get(cond, []) if isinstance(cond, int) else []
        if len(ds) != 1:
            return '?'
        zero = [y for v, y in t['c'] if v == 0]
        pol = not (zero and zero[0] == x)
        if ds[0][1] == 'call':
            c = ds[0][2]
            op = c['f'][1]['v']['name'].split('::')[-1]
            a = [s.who(o, l) for o in c['a']]
        else:
            c = ds[0][2]
            if c[0] != 'bin':
                return '?'
            op = c[1].lower()
            a = [s.who(c[2], l), s.who(c[3], l)]
        if sorted(a, key=repr) != ['item', 'self'] or op not in ('lt', 'le', 'gt', 'ge'):
            return '?'
        return MAX if ((op[0] == 'g') == (a[0] == 'item')) == pol else MIN


MIN, MAX = 'min', 'max'
STATS = {'Maximum': MAX, 'Minimum': MIN, 'Gradient': ('sub', MAX, MIN), 'Mean': ('div', 'sum', 'len')}


def statistic(v, want):
    if any(isinstance(x, str) and x[:4] in ('max ', 'min ') for x in flat((v,))):
        return False
    if isinstance(v, str) and v == '?' or isinstance(v, tuple) and '?' in flat(v):
        return None
    if want == 'Contrast':
        one = flat(v)
        return isinstance(v, tuple) and v[0] == 'div' and v[1] == ('sub', MAX, MIN) and sorted(one.count(x) for x in (MAX, MIN)) == [2, 2] and isinstance(v[2], tuple) and set(flat(v[2])) == {'add', MAX, MIN, '1'}
    return v == STATS[want]


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, tuple) else [v]


def run(cx):
    for conf in ('default', 'nothreads'):
        one(cx, cx.facts(conf), conf)


def one(cx, F, conf):
    O = {short(k): v['execute_impl'] for k, v in ops(F).items() if 'execute_impl' in v}
    tag = '' if conf == 'default' else ' (without threads)'
    sizes = grid(cx.tier)
    W, H = S('W'), S('H')
    for nm in ('Sobel', 'Scharr', 'Convolve', 'SpatialOps', 'BilateralFilter'):
        if nm not in O:
            raise NoAnswer('operation %s not found' % nm)
    if conf == 'default':
        padding(cx, F)

    def op(nm, key, args, r, depths, want=None, n=9):
        sv = ctor(F, nm, args) if args is not None else TOP
        if sv is None:
            return cx.undec(key + tag, 'constructor not understood')
        for d in depths:
            try:
                o = Filter(F, d).go(O[nm], sv)
            except Stop as e:
                cx.undec('%s %s%s' % (key, d, tag), str(e))
                continue
            windows(cx, '%s %s window%s' % (key, d, tag), O[nm], o, r, sizes)
            if want:
                want(o, '%s %s%s' % (key, d, tag), d, n)
    ALL, INT = ('Eight', 'Sixteen', 'Float32'), ('Eight', 'Sixteen')

    def grad(c):
        return lambda o, key, d, n: arithmetic(cx, F, key + ' kernel', o.kernels, 9, gradient(c), [SAMPLE[d]])
    op('Sobel', 'Sobel', None, 1, ALL, grad((1, 2)))
    op('Scharr', 'Scharr', None, 1, ALL, grad((3, 10)))
    if conf != 'default':
        return
    for nm, d in (('prewitt_int', 'Sixteen'), ('prewitt_float', 'Float32')):
        f = F.fns.get('zune_imageprocs::prewitt::' + nm)
        if f is None:
            continue
        o = Fun(F, f, [Slice('in', N(0), W * H), Slice('out', N(0), W * H), W, H])
        windows(cx, nm + ' window', f, o, 1, sizes)
        grad((1, 1))(o, nm, d, 9)
    for r in (1, 2, 3):
        n = (2 * r + 1) ** 2
        scale = Num({(('scale', N(0)),): Fraction(1)})

        def conv(o, key, d, n):
            want = Num({})
            for i in range(n):
                want = want.add(Num({(('c', N(i)), ('w', N(i))): Fraction(1)}))
            ks = o.kernels
            arithmetic(cx, F, key + ' kernel', ks, n, want.mul(scale), [SAMPLE[d]])
        op('Convolve', 'Convolve %d' % n, [Slice('w', N(0), N(n)), TOP], r, ALL, conv, n)
    for r in (1, 2, 3):
        op('SpatialOps', 'SpatialOps radius %d' % r, [N(r), TOP], r, INT)
    for v in ('Contrast', 'Maximum', 'Gradient', 'Minimum', 'Mean'):
        stats(cx, F, O, v)
    for d, r in ((1, 0), (3, 1), (4, 2), (7, 3)):
        def centre(o, key, depth, n, r=r):
            m = (2 * r + 1) ** 2
            k = key + ' centre'
            if len(o.kernels) != 1 or not isinstance(o.kernels[0][0], Clo):
                return cx.undec(k, 'kernel not found')
            v, run, ints, fn = kernel(F, o.kernels[0], m)
            at = '%s (%s:%d)' % (fn.name, fn.file, fn.line) if fn else ''
            cs = {i.const() for i, l in run.reads if not l}
            if not cs or None in cs:
                return cx.undec(k, 'the pixel the window is compared with was not found', at)
            cx.ob(k, cs == {m // 2}, 'element %s of a window of %d' % (sorted(cs), m), at)
        op('BilateralFilter', 'BilateralFilter diameter %d' % d, [N(d), TOP, TOP], r, INT, centre)


def stats(cx, F, O, v):
    key = 'SpatialOps %s' % v
    sv = ctor(F, 'SpatialOps', [N(1), Var('zune_imageprocs::spatial_ops::SpatialOperations', v, [])])
    o = Filter(F, 'Eight').go(O['SpatialOps'], sv if sv is not None else TOP)
    if len(o.kernels) != 1 or not isinstance(o.kernels[0][0], Clo):
        return cx.undec(key, 'statistic applied for this variant not found')
    fn = F.fns.get(o.kernels[0][0].id)
    if fn is None:
        return cx.undec(key, 'statistic not found')
    at = '%s (%s:%d)' % (fn.name, fn.file, fn.line)
    cx.analysed(fn)
    e = Expr(F, fn).local(0)
    r = statistic(e, v)
    if r is None:
        return cx.undec(key, 'result not understood: %s' % (e,), at)
    cx.ob(key, r, 'returns %s' % text(e), at)


def text(e):
    if not isinstance(e, tuple):
        return str(e)
    return '%s(%s)' % (e[0], ', '.join(text(x) for x in e[1:]))


def padding(cx, F):
    f = F.fns.get('zune_imageprocs::pad::pad')
    if f is None:
        raise NoAnswer('pad not found')
    at = '%s (%s:%d)' % (f.name, f.file, f.line)
    W, H = S('W'), S('H')
    for m in ('Constant', 'Replicate'):
        key = 'pad %s' % m
        cx.analysed(f)
        try:
            run = Run(F)
            v = run.call(f, [Slice('in', N(0), W * H), W, H, S('px'), S('py'), Var('zune_imageprocs::pad::PadMethod', m, [])])
            if not isinstance(v, Slice) or run.opaque:
                raise Undecided('result not understood')
            n, bad = 0, None
            for w, h in grid(cx.tier):
                for px in (0, 1, 3):
                    for py in (0, 1, 2):
                        for ch in choices(run):
                            n += 1
                            sim = Sim(run, dict(W=w, H=h, px=px, py=py), {'in': (w * h, lambda i: ('in', i))}, ch)
                            sim.go()
                            got, pw, ph = sim.buf(v.base), w + 2 * px, h + 2 * py
                            if len(got) != pw * ph and not bad:
                                bad = '%dx%d padded by %d and %d has %d samples' % (w, h, px, py, len(got))
                            for i, g in enumerate(got):
                                y, x = divmod(i, pw)
                                y, x = y - py, x - px
                                if 0 <= x < w and 0 <= y < h or m == 'Replicate':
                                    ok = g == ('in', min(max(y, 0), h - 1) * w + min(max(x, 0), w - 1))
                                else:
                                    ok = g[0] == 'init' or g == ('const', 0)
                                if g == ('?',):
                                    raise Undecided('value of a sample')
                                if not ok and not bad:
                                    bad = '%dx%d padded by %d and %d: pixel (%d,%d) is %s' % (w, h, px, py, x, y, tok(g))
            cx.ob(key, bad is None, bad or '%d size and path combinations' % n, at)
        except (Undecided, Stop) as e:
            cx.undec(key, str(e), at)
        except Broken as e:
            cx.ob(key, False, 'out of bounds: %s' % e, at)
