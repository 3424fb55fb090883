"""C39: point operations compute the documented formula."""
from ..pointx import *
from ..pointx import sympy
from sympy import Rational as Q, Integer as Z
from ..facts import *
from ..core import NoAnswer
from ..opsem import ops, short

PROP = dict(
    id='C39',
    title='Point operations change every sample by the documented formula',
    statement='For every sample value, parameter and image size, with M = 255, 65535 or 1 for 8 bit, 16 bit and float samples, and results of integer depths clamped to 0..M and within one step of the exact value: Invert gives M-x; '
              'Threshold gives max/0, 0/max, thresh/x, x/0 for x > thresh/otherwise (Binary, BinaryInv, ThreshTrunc, ThreshToZero), thresh saturated to the sample range; Brighten gives x+v*M clamped to 0..M, v within -1..1; '
              'Contrast gives f*(x-128)+128 with f = 259*(c+255)/(255*(259-c)); Exposure gives (x-black*M)*exposure, black within 0..1; Gamma gives M*(x/M)^value; StretchContrast sends x <= lower to 0, x >= upper to M and stretches linearly between (over upper-lower or upper-lower+1 steps; lower < upper); '
              'Blend gives alpha*src+(1-alpha)*dest, dest when alpha <= 0 and src when alpha >= 1; PremultiplyAlpha gives x*a/M, and backwards x*M/a (0 when a is 0); '
              'ColorMatrix gives each of r, g, b, a the sum of its matrix row times (r, g, b, a, M); HsvAdjust applies the documented luminance-preserving rotation and leaves alpha alone; Depth rescales linearly between the ranges. '
              'No intermediate overflows its integer type or is cut to a narrower one.',
    quantifier=dict(over=['inputs', 'configurations'], text='every sample value, every parameter value, every supported sample depth, every image size'),
    why_tests_cant='Tests run each operation on one image, mostly checking that it does not fail; a formula wrong at full scale, for one depth or above a threshold passes.',
    anchors=dict(files=['crates/zune-imageprocs/src/' + x + '.rs' for x in ('invert', 'threshold', 'brighten', 'contrast', 'exposure', 'gamma', 'stretch_contrast', 'blend', 'premul_alpha', 'color_matrix', 'hsv_adjust')] + ['crates/zune-image/src/core_filters/depth.rs'],
                 mechanism=[dict(name='execute_impl of each operation and the per-sample function it calls', where='crates/zune-imageprocs/src'), dict(name='depth conversion', where='crates/zune-image/src/core_filters/depth.rs')]))
TECHNIQUE = 'path-splitting symbolic summaries of MIR (one generic sample), compared with the documented formula by exact algebra and interval reasoning'
EXPLAIN = """
execute_impl of each operation is walked on an abstract image of one depth with symbolic parameters; loops over samples are walked once with a symbolic sample (a value carried from one sample to the next is refused), lookup tables become functions of their
index, clamps, minima, saturating and float-to-integer conversions become cases.  The result is a piecewise formula in the samples at one position and the parameters.  Every piece is compared with every overlapping piece of the documented formula: by
cancellation to the same rational function, or by bounding the difference; a difference is reported with values that show it.  Integer arithmetic is bounded by intervals, values outside the type are reported with values that reach it.
"""
ASSUME = ['float arithmetic is exact (rounding is not modelled), samples of float images lie in 0..1, no parameter is NaN', 'where two pieces overlap only at the edge of a clamp and the algebra does not settle it, the formulas are compared at chosen values', 'channels_mut, channels_vec, reinterpret_as and convert_color do what C20, C28 and C30 say']

MAXV = {'Eight': 255, 'Sixteen': 65535, 'Float32': 1}
TY = {'Eight': 'u8', 'Sixteen': 'u16', 'Float32': 'f32'}
RES = 'core::result::Result'
PROCS = 'zune_imageprocs::'


def sample(b, depth):
    return sympy.Symbol(b, integer=True) if depth != 'Float32' else sympy.Symbol(b, real=True)


class Model:
    """the image an operation is given"""

    def __init__(s, F, depth):
        s.F, s.depth = F, depth
        s.used = set()
        s.seqs = 0

    def bd(s):
        return Var('zune_core::bit_depth::BitDepth', s.depth)

    def chan(s, b):
        s.used.add(b)
        return Obj('chan', base=b)

    def list(s, img, lo=0):
        return Obj('list', at=lambda k: s.chan('c%d' % (k + lo) if img == 'im' else 's%d' % (k + lo)), lo=lo, img=img, n=4 - lo)

    def seq(s, img):
        s.seqs += 1
        return Obj('seq', item=lambda st: [(st, s.chan('c' if img == 'im' else 's'))])

    def __call__(s, px, c, op, args, t, st, gen):
        n = c['name']
        x = args[0] if args else None
        if isinstance(x, Ref):
            x = px.load(st, x)
        k = x.kind if isinstance(x, Obj) else None
        if k == 'image':
            if op == 'depth':
                return [(st, s.bd())]
            if op in ('channels_mut', 'channels_ref') and len(args) == 2:
                return [(st, s.seq(x.base))]
            if op in ('frames_mut', 'frames_ref'):
                return [(st, Obj('seq', item=lambda st2, b=x.base: [(st2, Obj('frame', base=b))]))]
            if op in ('convert_color', 'convert_depth'):
                return [(st, ok(UNIT))]
            if op == 'colorspace':
                return [(st, Var('zune_core::colorspace::ColorSpace', 'RGBA'))]
            if op in ('dimensions', 'metadata', 'metadata_mut'):
                return [(st, Obj(op, img=x.base))]
            if op in ('set_depth', 'set_colorspace', 'set_dimensions'):
                return [(st, UNIT)]
            return None
        if k in ('metadata', 'metadata_mut', 'colorspace', 'dimensions'):
            if op == 'alpha':
                return [(st, Var('zune_image::metadata::AlphaState', s.alpha))]
            if op in ('num_components',):
                return [(st, Z(4))]
            if op == 'has_alpha':
                return [(st, True)]
            if op == 'is_grayscale':
                return [(st, TOP)]
            if op.startswith('set_'):
                return [(st, UNIT)]
            if op in ('eq', 'ne') and isinstance(args[1], (Ref, Obj)):
                y = px.load(st, args[1]) if isinstance(args[1], Ref) else args[1]
                if isinstance(y, Obj) and y.kind == k:
                    return [(st, op == 'eq')]
                if isinstance(y, Var) and k == 'colorspace':
                    return [(st, (y.v == 'RGBA') == (op == 'eq'))]
            if op in ('clone', 'into', 'from'):
                return [(st, x)]
        if op in ('clone_and_execute',):
            raise Stop('clone_and_execute')
        if k == 'frame':
            if op in ('channels_vec', 'channels_vec_ref'):
                return [(st, s.list(x.base))]
            if op in ('channels_mut', 'channels_ref'):
                if len(args) == 3 and args[2] is True:
                    return [(st, s.seq(x.base))]
                return [(st, s.list(x.base))]
        if k == 'list':
            if op in ('split_at_mut', 'split_at'):
                if isnum(args[1]) and args[1].is_number:
                    m = int(args[1])
                    return [(st, Tup([Obj('list', at=x.at, lo=x.lo, img=x.img, n=m), s.list(x.img, x.lo + m)]))]
            if op == 'len':
                return [(st, Z(x.n))]
            if op in ('split_first_mut', 'split_first'):
                return [(st, some(Tup([x.at(0), s.list(x.img, x.lo + 1)])))]
            if op in ('split_last_mut', 'split_last'):
                return [(st, some(Tup([s.chan('c3'), Obj('list', at=x.at, lo=x.lo, img=x.img, n=3 - x.lo)])))]
            if op in ('iter', 'iter_mut', 'into_iter'):
                s.seqs += 1
                s.rest = x
                return [(st, It(lambda st2, x=x: [(st2, s.chan('c'))]))]
            if op in ('deref', 'deref_mut', 'as_mut_slice', 'as_slice', 'as_mut', 'borrow_mut'):
                return [(st, x)]
            if op in ('first', 'first_mut'):
                return [(st, some(x.at(0)))]
        if k == 'chan':
            if op in ('reinterpret_as', 'reinterpret_as_mut'):
                return [(st, ok(Sl(x.base)))]
            if op in ('reinterpret_as_unchecked', 'reinterpret_as_mut_unchecked'):
                return [(st, Sl(x.base))]
            if op == 'len':
                return [(st, L * {'Eight': 1, 'Sixteen': 2, 'Float32': 4}[s.depth])]
        if op in ('new_with_length', 'new_with_capacity_and_type', 'new_with_length_and_type') and 'Channel' in n:
            px.fresh += 1
            b = 'new%d' % px.fresh
            st.mem[b] = (((), Z(0)),)
            return [(st, Obj('chan', base=b))]
        if n.endswith('utils::execute_on'):
            s.seqs += 1
            out = []
            for s2, v in px.closure(args[0], [s.chan('c')], st, gen):
                out.append((s2, v if isinstance(v, Var) else ok(UNIT)))
            return out
        if n.startswith(('core::fmt', 'alloc::fmt', 'log::', 'zune_core::log')) or op in ('format', 'must_use') and 'fmt' in n:
            return [(st, TOP)]
        return None


def params(px, ty):
    """symbolic value of a parameter type"""


def run_op(F, name, depth, args, alpha=None, to=None):
    """[(conditions, {base: expr})], px"""
    t = next((x for x in sorted(ops(F)) if short(x) == name), None)
    if t is None or 'execute_impl' not in ops(F)[t]:
        raise NoAnswer('operation %s not found' % name)
    fn = ops(F)[t]['execute_impl']
    model = Model(F, depth)
    model.alpha = alpha
    ranges = {}
    for b in ('c', 's', 'c0', 'c1', 'c2', 'c3'):
        ranges[sample(b, depth)] = (Z(0), Z(MAXV[depth]))
    ranges[I] = (Z(0), None)
    ranges[L] = (Z(1), None)
    if name == 'StretchContrast':
        for a in args:
            ranges[a] = (Z(0), Z(MAXV[depth]))
    px = Px(F, ranges, model)
    new = next((f for f in F.fns.values() if f.name.endswith('::new') and f.name.startswith(re.sub(r'<.*', '', t) + '::') or f.name.endswith('::new') and f.name.startswith(re.sub(r'<.*', '', t) + '<')), None)
    st = St()
    if new is None:
        raise NoAnswer('%s::new not found' % name)
    rs = px.call(new, args, st)
    if len(rs) != 1:
        raise Stop('%s::new has cases' % name)
    st, selfv = rs[0]
    st.env[('self', 0)] = selfv
    img = Obj('image', base='im')
    outs = px.call(fn, [Ref(('self', 0)), img], st)
    pieces = []
    for s2, v in outs:
        if isinstance(v, Var) and v.v == 'Err':
            continue
        pieces.append((s2.conds, s2.mem))
    return pieces, px, model, fn


def final(px, st_conds, mem, b, depth):
    """pieces of a channel at the end"""
    b = mem.get(('is', b), b)
    m = mem.get(b)
    if m is None:
        return [(st_conds, sympy.Symbol(b, **px.assume(b)))]
    return [(st_conds + tuple(c), e) for c, e in m]


def lim(px, e, lo, hi):
    """pieces of clamp(e, lo, hi)"""
    out = []
    a = compare('Lt', e, Z(lo))
    b = compare('Gt', e, Z(hi))
    def cs(*xs):
        r = []
        for x in xs:
            if x is False:
                return None
            if x is not True:
                r.append(x)
        return tuple(r)
    na = (not a) if isinstance(a, bool) else a.neg()
    nb = (not b) if isinstance(b, bool) else b.neg()
    for c, v in ((cs(a), Z(lo)), (cs(b), Z(hi)), (cs(na, nb), e)):
        if c is not None:
            out.append((c, v))
    return out


def strip(e):
    """(x, a, b): value is x - f with f in [a, b]"""
    if e.func == FLOOR:
        return e.args[0], 0, 1
    if e.func == IDIV:
        return can(e.args[0] / e.args[1]), 0, 1
    if e.func == ROUND:
        return e.args[0], -Q(1, 2), Q(1, 2)
    if e.is_Mul and e.args[0] == -1 and len(e.args) == 2:
        x, a, b = strip(e.args[1])
        return -x, -b, -a
    return e, 0, 0


def diffbound(px, d, facts):
    d = can(d)
    # idiv(y, n) / y
    for u in d.atoms(IDIV):
        y, n = u.args
        if n.is_number and can(d - u / y).is_number and (y.is_Symbol):
            c = can(d - u / y)
            return c, c + 1 / n
        k = can(d * y / u)
        if n.is_number and k.is_number and k > 0:
            return Z(0), k / n
    return facts.bounds(d)


def tiny(d, M, ranges=()):
    """is a difference only the rounding of constants?"""
    d = sympy.expand(can(d))
    if d.is_number:
        return abs(d) < Q(1, 200000) * max(M, 1)
    n, q = sympy.fraction(can(d))
    if not q.is_number:
        return False
    try:
        syms = sorted(d.free_symbols, key=str)
        top = []
        for y in syms:
            lo, hi = dict(ranges).get(y, (None, None))
            top.append(max(abs(lo), abs(hi)) if lo is not None and hi is not None else Z(1))
        total = Z(0)
        for pw, k in sympy.Poly(sympy.expand(d), *syms).terms():
            for t, e in zip(top, pw):
                k = k * t ** e
            total += abs(k)
        return total <= Q(1, 200000) * max(M, 1)
    except sympy.PolynomialError:
        return False


def close(px, v, r, facts, M, whole):
    """value v within one step of r (whole), or equal to it"""
    if equal(v, r, facts) or tiny(v - r, M, px.ranges):
        return True
    if not whole:
        return False
    x, a, b = strip(v)
    d = can(x - r)
    if tiny(d, M, px.ranges):
        return True
    lo, hi = diffbound(px, d, facts)
    return lo is not None and hi is not None and lo - b >= -1 and hi - a < 1 and (lo > -1 + b or (a, b) == (0, 1) and lo >= 0)


def judge(px, got, want, depth, M, params, tol=None):
    """compare pieces; ('ok'|'bad'|'open', text)"""
    whole = depth != 'Float32'
    worst = ('ok', '')
    n = 0
    for gc, v in got:
        if any(c.op in ('op', 'nop') for c in gc):
            gc = tuple(c for c in gc if c.op not in ('op', 'nop'))
        for wc, r in want:
            f = Facts_(tuple(gc) + tuple(wc), px.ranges)
            if f.dead:
                continue
            n += 1
            if v.has(WRAP):
                pass
            elif close(px, v, r, f, M, whole):
                continue
            w = differ(tuple(gc) + tuple(wc), v, r, px.ranges, params, whole, tol)
            if w is not None:
                env, x, y = w
                return 'bad', 'for %s the result is %s, not %s' % (', '.join('%s = %s' % (k, show(q)) for k, q in sorted(env.items(), key=lambda z: str(z[0]))), show(x), show(y)), n
            if not edge(gc, wc, v, r):
                worst = ('open', 'case %s: %s against %s' % (list(gc)[:4], str(v)[:120], str(r)[:120]))
    if not n:
        return 'open', 'no case left', 0
    return worst + (n,)


def edge(gc, wc, v, r):
    """one side clamped, the other not"""
    return v.is_number != r.is_number or v.has(POWF) or r.has(POWF)


def show(q):
    q = Fraction(q).limit_denominator(10 ** 6) if isinstance(q, (Fraction, float)) and q == q and abs(q) != float('inf') else q
    return str(q) if q == int(q) else '%.6g' % float(q)


def differ(conds, v, r, ranges, params, whole, tol):
    """values showing |v - r| >= 1 (whole) or a relevant difference"""
    import random, itertools
    rnd = random.Random(7)
    syms = sorted({y for c in conds for y in c.q.free_symbols} | v.free_symbols | r.free_symbols, key=str)
    syms = [y for y in syms if y.name not in INT]
    pool = {y: [Fraction(int(z.p), int(z.q)) for z in map(sympy.Rational, samples(y, ranges, params))] for y in syms}
    total = 1
    for y in syms:
        total *= len(pool[y])
    # all 8 bit values when there are few symbols
    gen = itertools.product(*[pool[y] for y in syms]) if total <= 3000 else ([rnd.choice(pool[y]) for y in syms] for _ in range(2500))
    extra = ([Fraction(rnd.randint(int(ranges[y][0]), int(ranges[y][1]))) if y.is_integer and ranges.get(y, (None, None))[1] is not None else rnd.choice(pool[y]) for y in syms] for _ in range(800))
    for vals in itertools.chain(gen, extra):
        env = dict(zip(syms, vals))
        try:
            if any(holds(c, env) is False for c in conds):
                continue
            x, y = evaluate(v, env), evaluate(r, env)
        except (ZeroDivisionError, OverflowError, ValueError, KeyError, TypeError):
            continue
        if isinstance(x, complex) or isinstance(y, complex):
            continue
        lim_ = tol if tol is not None else 1 + Fraction(1, 1000) if whole else Fraction(1, 10 ** 5) / 2 * (1 + abs(Fraction(y) if y == y and abs(y) != float('inf') else 0))
        d = abs(x - y)
        if d >= lim_ or whole and tol is None and isinstance(x, Fraction) and isinstance(y, Fraction) and d >= 1:
            return env, x, y
    return None


def overflow(px, params):
    """[(fn, line, text)] of integer operations shown to leave their type"""
    out, seen = [], set()
    for fn, line, text, e, ty, conds, exact in px.over:
        if (fn.name, line, text) in seen:
            continue
        lo, hi = INT[ty]
        w = outside(conds, e, lo, hi, px.ranges, params)
        if w is not None:
            seen.add((fn.name, line, text))
            out.append((fn, line, '%s: %s' % (text, ', '.join('%s = %s' % (k, show(v)) for k, v in sorted(w.items(), key=lambda z: str(z[0]))))))
    return out


def outside(conds, e, lo, hi, ranges, params):
    import random, itertools
    rnd = random.Random(3)
    syms = sorted({y for c in conds if c.op not in ('op', 'nop') for y in c.q.free_symbols} | e.free_symbols, key=str)
    if any(y in (I, L) for y in syms):
        return None
    pool = {y: [Fraction(int(z.p), int(z.q)) for z in map(sympy.Rational, samples(y, ranges, params))] for y in syms}
    total = 1
    for y in syms:
        total *= len(pool[y])
    gen = itertools.product(*[pool[y] for y in syms]) if total <= 3000 else ([rnd.choice(pool[y]) for y in syms] for _ in range(2500))
    for vals in gen:
        env = dict(zip(syms, vals))
        try:
            if any(holds(c, env) is False for c in conds if c.op not in ('op', 'nop')):
                continue
            x = evaluate(e, env)
        except (ZeroDivisionError, OverflowError, ValueError, KeyError, TypeError):
            continue
        if not isinstance(x, complex) and (x < lo or x > hi):
            return env
    return None


# -- documented formulas
def R(n):
    return sympy.Symbol(n, real=True)


def cases(*xs):
    """conditions of a conjunction, None when it cannot be"""
    out = ()
    for x in xs:
        if x is False:
            return None
        if x is not True:
            out += (x,)
    return out


def no(c):
    return (not c) if isinstance(c, bool) else c.neg()


def clamped(e, M, depth, pre=()):
    if depth == 'Float32':
        return [(tuple(pre), e)]
    return [(tuple(pre) + c, v) for c, v in lim(None, e, 0, M)]


def both(*ps):
    """alternatives (cond, pieces) put together"""
    out = []
    for cs, pieces in ps:
        if cs is None:
            continue
        out += [(tuple(cs) + tuple(c), v) for c, v in pieces]
    return out


def method(n):
    return Var('zune_imageprocs::threshold::ThresholdMethod', n)


def specs(name):
    """(label, constructor arguments, depth, {channel: pieces}, parameter values tried, alpha state, tolerance)"""
    for depth in MAXV:
        M = MAXV[depth]
        x = sample('c', depth)
        if name == 'Invert':
            yield '', [], depth, {'c': [((), M - x)]}, {}, None, None
        if name == 'Threshold':
            t = R('thresh')
            ps = {t: [-3, 0, Q(1, 4), Q(1, 2), 1, 5, 100, Q(401, 2), 255, 256, 30000, 65535, 70000]}
            for m in ('Binary', 'BinaryInv', 'ThreshTrunc', 'ThreshToZero'):
                def pieces(T, pre, m=m):
                    hi, lo = {'Binary': (Z(M), Z(0)), 'BinaryInv': (Z(0), Z(M)), 'ThreshTrunc': (T, x), 'ThreshToZero': (x, Z(0))}[m]
                    c = compare('Gt', x, T)
                    return both((cases(*pre, c), [((), hi)]), (cases(*pre, no(c)), [((), lo)]))
                if depth == 'Float32':
                    w = pieces(t, ())
                else:
                    a, b = compare('Lt', t, Z(0)), compare('Gt', t, Z(M))
                    w = pieces(Z(0), (a,)) + pieces(Z(M), (b,)) + pieces(FLOOR(t), (no(a), no(b)))
                yield m, [t, method(m)], depth, {'c': w}, ps, None, None
        if name == 'Brighten':
            v = R('value')
            ps = {v: [-2, -1, Q(-1, 2), 0, Q(1, 10), Q(1, 2), 1, 3]}
            a, b = compare('Lt', v, Z(-1)), compare('Gt', v, Z(1))
            # float images: a value outside -1..1 ends at the clamp all the same
            w = both((cases(a), [(c, e) for c, e in lim(None, x - M, 0, M)]), (cases(b), [(c, e) for c, e in lim(None, x + M, 0, M)]), (cases(no(a), no(b)), lim(None, x + v * M, 0, M)))
            yield '', [v], depth, {'c': w}, ps, None, None
        if name == 'Contrast' and depth == 'Eight':
            v = R('contrast')
            e = 259 * (v + 255) / (255 * (259 - v)) * (x - 128) + 128
            yield '', [v], depth, {'c': lim(None, can(e), 0, 255)}, {v: [-255, -100, -1, 0, 1, 64, 128, 255]}, None, None
        if name == 'Exposure':
            v, k = R('exposure'), R('black')
            ps = {v: [-1, 0, Q(1, 2), 1, 2, 3], k: [-1, 0, Q(1, 10), Q(1, 2), 1, 2]}
            a, b = compare('Lt', k, Z(0)), compare('Gt', k, Z(1))
            w = both((cases(a), clamped(can(x * v), M, depth)), (cases(b), clamped(can((x - M) * v), M, depth)), (cases(no(a), no(b)), clamped(can((x - k * M) * v), M, depth)))
            yield '', [v, k], depth, {'c': w}, ps, None, None
        if name == 'Gamma':
            v = R('value')
            ps = {v: [Q(1, 4), Q(4, 5), 1, Q(3, 2), Q(23, 10)]}
            e = M * POWF(can(x / M), v)
            yield '', [v], depth, {'c': clamped(e, M, depth)}, ps, None, None
        if name == 'StretchContrast':
            lo, hi = R('lower'), R('upper')
            ps = {lo: [0, Q(1, 10), Q(1, 2)], hi: [Q(1, 5), Q(3, 4), 1]} if M == 1 else {lo: [-1, 0, 1, 10, 50, 100, 254], hi: [2, 60, 100, 200, 255, 300]} if M == 255 else {lo: [-1, 0, 1, 10, 5000, 40000], hi: [2, 60, 1000, 50000, 65535, 70000]}
            yield '', [lo, hi], depth, 'stretch', ps, None, None
        if name == 'Blend':
            v = R('alpha')
            src = sample('s', depth)
            ps = {v: [-1, 0, Q(1, 4), Q(1, 2), Q(9, 10), 1, 2]}
            a, b = compare('Le', v, Z(0)), compare('Ge', v, Z(1))
            w = both((cases(a), [((), x)]), (cases(b), [((), src)]), (cases(no(a), no(b)), [((), can(v * src + (1 - v) * x))]))
            yield '', [Obj('image', base='src'), v], depth, {'c': w}, ps, None, None
        if name == 'PremultiplyAlpha':
            al = sample('c3', depth)
            A = 'zune_image::metadata::AlphaState'
            yield 'to premultiplied', [Var(A, 'PreMultiplied')], depth, {'c': [((), can(x * al / M))], 'c3': [((), al)]}, {}, 'NonPreMultiplied', None
            z = compare('Eq', al, Z(0))
            w = both((cases(z), [((), Z(0))]), (cases(no(z)), clamped(can(x * M / al), M, depth)))
            yield 'to straight', [Var(A, 'NonPreMultiplied')], depth, {'c': w, 'c3': [((), al)]}, {}, 'PreMultiplied', None
        if name == 'ColorMatrix':
            ms = [[R('m%d%d' % (i, j)) for j in range(5)] for i in range(4)]
            ch = [sample('c%d' % i, depth) for i in range(4)]
            ps = {y: [Q(-1, 2), 0, Q(1, 4), Q(3, 5), 1] for r in ms for y in r}
            w = {}
            for i in range(4):
                e = sum(ms[i][j] * ch[j] for j in range(4)) + M * ms[i][4]
                w['c%d' % i] = clamped(can(e), M, depth)
            yield '', [Arr([Arr(r) for r in ms])], depth, w, ps, None, None
        if name == 'HsvAdjust':
            h, sat, v = R('hue'), R('saturation'), R('lightness')
            r, g, b, a = [sample('c%d' % i, depth) for i in range(4)]
            ps = {h: [0, 33, 90, 200], sat: [0, Q(1, 2), 1, 2], v: [Q(1, 2), 1, 2]}
            w = {'c3': [((), a)]}
            U, W = sympy.Symbol('U'), sympy.Symbol('W')
            co = [((.299, .701, .168), (.587, -.587, .330), (.114, -.114, -.497)), ((.299, -.299, -.328), (.587, .413, .035), (.114, -.114, .292)), ((.299, -.3, 1.25), (.587, -.588, -1.05), (.114, .886, -.203))]
            for i in range(3):
                w['c%d' % i] = ('hsv', co[i])
            yield '', [h, sat, v], depth, w, ps, None, None
    if name == 'Depth':
        for frm in MAXV:
            for to in MAXV:
                if frm != to:
                    x = sample('c', frm)
                    e = can(x * Q(MAXV[to], MAXV[frm]))
                    yield 'to ' + to, [Var('zune_core::bit_depth::BitDepth', to)], frm, {'c': [((), e)]}, {}, None, (to,)


OPS_ = ('Invert', 'Threshold', 'Brighten', 'Contrast', 'Exposure', 'Gamma', 'StretchContrast', 'Blend', 'PremultiplyAlpha', 'ColorMatrix', 'HsvAdjust', 'Depth')


def check(F, name, spec):
    """[(key, ok|None, message, where)], functions analysed"""
    label, args, depth, want, ps, alpha, extra = spec
    key = '%s %s %s' % (name, depth, label)
    res = []
    try:
        pieces, px, model, fn = run_op(F, name, depth, args, alpha)
    except (Stop, RecursionError) as e:
        t = next(x for x in sorted(ops(F)) if short(x) == name)
        return [(key, None, 'not followed: %s' % e, ops(F)[t]['execute_impl'].where())], set()
    # parameters: unrestricted
    where = fn.where()
    out_depth = extra[0] if isinstance(extra, tuple) else depth
    M = MAXV[out_depth]
    if not pieces:
        return [(key, None, 'no case ends without an error', where)], px.fns
    alts = [want] if want != 'stretch' else [stretch(px, depth, args, k) for k in ((1, 0) if depth != 'Float32' else (0,))]
    for b in alts[0]:
      for nth, alt in enumerate(alts):
        wp = alt[b]
        got = []
        for conds, mem in pieces:
            got += final(px, conds, mem, b, depth)
        if isinstance(wp, tuple) and wp[0] == 'hsv':
            wp = hsv(px, depth, args, wp[1], got)
            if wp is None:
                res.append((key, None, 'rotation not recognised', where))
                continue
        st, text, n = judge(px, got, wp, out_depth, M, ps, extra if isinstance(extra, Q) else None)
        if st != 'ok' and nth + 1 < len(alts):
            continue
        chan = {'c': '', 'c0': ' red', 'c1': ' green', 'c2': ' blue', 'c3': ' alpha'}[b]
        res.append((key + chan, None if st == 'open' else st == 'ok', text or '%d cases' % n, where))
        break
    for f, line, text in overflow(px, ps):
        res.append(('%s line %s' % (key, text.split(':')[0]), False, text, f.where(line)))
    return res, px.fns


def stretch(px, depth, args, one):
    M = MAXV[depth]
    x = sample('c', depth)
    l, u = (FLOOR(args[0]), FLOOR(args[1])) if depth != 'Float32' else args
    a, b, g = compare('Ge', x, u), compare('Le', x, l), compare('Gt', u, l)
    return {'c': both((cases(g, a), [((), Z(M))]), (cases(g, no(a), b), [((), Z(0))]), (cases(g, no(a), no(b)), [((), can(M * (x - l) / (u - l + one)))]))}


def hsv(px, depth, args, co, got):
    """the documented rotation, with the sine and cosine found in the result"""
    h, sat, v = args
    M = MAXV[depth]
    ch = [sample('c%d' % i, depth) for i in range(3)]
    ca = {y for c, e in got for y in e.atoms(COS)}
    sa = {y for c, e in got for y in e.atoms(SIN)}
    if len(ca) != 1 or len(sa) != 1:
        return None
    ca, sa = ca.pop(), sa.pop()
    for y in (ca, sa):
        k = can(y.args[0] / h)
        if not k.is_number or abs(float(k) / (3.141592653589793 / 180) - 1) > 1e-4:
            return None
    q = lambda y: Q(str(y))
    e = sum((q(c[0]) * v + q(c[1]) * v * sat * ca + q(c[2]) * v * sat * sa) * y for c, y in zip(co, ch))
    return lim(None, can(e), 0, M)


def run(cx):
    F = cx.F
    for name in OPS_:
        for spec in specs(name):
            rs, fns = check(F, name, spec)
            for f in fns:
                cx.analysed(f)
            for key, okay, msg, where in rs:
                if okay is None:
                    cx.undec(key, msg, where)
                else:
                    cx.ob(key, okay, msg, where)
