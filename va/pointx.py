"""Symbolic summaries of code working sample by sample: value of the sample at index i of every slice, as a piecewise formula over the samples at i and the parameters.

Loops over slices and index ranges are walked once with a symbolic item; integer and float arithmetic is exact; clamps, minima, saturating and float-to-integer
conversions become cases.  Nothing is executed."""
import itertools
import re, sys
from fractions import Fraction
try:
    import sympy
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import sympy
from .index import loopsof
from .facts import succs

INT = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1), 'u128': (0, 2**128 - 1),
       'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1)}
I = sympy.Symbol('i', integer=True)
L = sympy.Symbol('len', integer=True)
IDIV, REM, FLOOR, POWF, COS, SIN, ROUND, WRAP, BITS = (sympy.Function(x) for x in ('idiv', 'rem', 'floor_', 'powf', 'cos_', 'sin_', 'round_', 'wrap', 'bits'))


class Stop(Exception):
    pass


class Fork(Exception):
    """the state has to be split before going on"""

    def __init__(s, st, states):
        s.st, s.states = st, states


class T_:
    def __repr__(s):
        return '⊤'


TOP = T_()


class Sl:
    """all samples of a channel, or a table made here"""

    def __init__(s, base):
        s.base = base


class Elem:
    def __init__(s, base, idx):
        s.base, s.idx = base, idx


class Ref:
    """reference to (part of) a local variable"""

    def __init__(s, key, path=()):
        s.key, s.path = key, tuple(path)


class Tup:
    def __init__(s, xs):
        s.xs = tuple(xs)


class Arr(Tup):
    pass


class Var:
    def __init__(s, ty, v, xs=()):
        s.ty, s.v, s.xs = ty, v, tuple(xs)


class Clo:
    def __init__(s, id, caps=()):
        s.id, s.caps = id, tuple(caps)


class It:
    """item(st) -> [(st, item)]; rng: (lo, hi) of an index range"""

    def __init__(s, item, rng=None):
        s.item, s.rng = item, rng


class Obj:
    def __init__(s, kind, **kw):
        s.kind = kind
        s.__dict__.update(kw)


class Discr:
    def __init__(s, v, ty):
        s.v, s.ty = v, ty


UNIT = Tup(())


def some(x):
    return Var('core::option::Option', 'Some', [x])


NONE = Var('core::option::Option', 'None')


def ok(x):
    return Var('core::result::Result', 'Ok', [x])


def isnum(v):
    return isinstance(v, sympy.Expr)


CAN = {}


def can(e):
    """canonical form of a rational expression"""
    e = sympy.sympify(e)
    if e.is_Atom:
        return e
    if e not in CAN:
        CAN[e] = sympy.cancel(sympy.together(e))
    return CAN[e]


def content(q):
    """q = f * p with f a number, p with a fixed sign"""
    c, p = q.as_content_primitive()
    if p.could_extract_minus_sign():
        c, p = -c, can(-p)
    return c, p


class Cond:
    """d > 0 / d >= 0 / d == 0 / d != 0 for d = f*q + c; or an opaque truth value"""

    def __init__(s, op, q, f, c):
        s.op, s.q, s.f, s.c = op, q, f, c

    def neg(s):
        if s.op == 'gt':
            return Cond('ge', s.q, -s.f, -s.c)
        if s.op == 'ge':
            return Cond('gt', s.q, -s.f, -s.c)
        return Cond({'eq': 'ne', 'ne': 'eq', 'op': 'nop', 'nop': 'op'}[s.op], s.q, s.f, s.c)

    def d(s):
        return s.f * s.q + s.c

    def __repr__(s):
        return '%s %s' % (s.d(), {'gt': '> 0', 'ge': '>= 0', 'eq': '== 0', 'ne': '!= 0'}[s.op]) if s.op not in ('op', 'nop') else ('' if s.op == 'op' else 'not ') + str(s.q)


def opaque(text):
    return Cond('op', sympy.Symbol('?' + str(text)), 1, 0)


def compare(op, a, b):
    """truth of a op b"""
    if op in ('Lt', 'Le'):
        return compare({'Lt': 'Gt', 'Le': 'Ge'}[op], b, a)
    a, b = can(a), can(b)
    k = {'Gt': 'gt', 'Ge': 'ge', 'Eq': 'eq', 'Ne': 'ne'}[op]
    if a.is_number and b.is_number:
        return {'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[k] == True
    def num(x):
        return x.is_number

    def poly(x):
        return sympy.fraction(x)[1].is_number
    if num(b):
        q, c = a, -b
        sg = 1
    elif num(a):
        q, c, sg = b, a, -1
    else:
        q, c, sg = can(a - b), sympy.Integer(0), 1
        if q.is_number:
            return {'gt': q > 0, 'ge': q >= 0, 'eq': q == 0, 'ne': q != 0}[k] == True
    if poly(q):
        q = sympy.expand(q)
        c0, q = q.as_coeff_Add()
        c = c + sg * c0
        f, q = content(q)
        f = f * sg
    else:
        f = sympy.Integer(sg)
    return Cond(k, q, f, c)


class Facts_:
    """the conditions of a case, as intervals"""

    def __init__(s, conds, ranges):
        s.conds, s.ranges = conds, ranges
        s.iv = {}
        s.dead = False
        for c in conds:
            s.add(c)
        if not s.dead:
            s.cross()
        if not s.dead:
            s.chain()

    def chain(s):
        """sums of two or three inequalities that cannot hold"""
        ds = []
        for c in s.conds:
            if c.op in ('gt', 'ge') and len(c.q.free_symbols) >= 1:
                ds.append((sympy.expand(c.d()), c.op == 'gt'))
        ds = ds[:9]
        if not any(len(d.free_symbols) > 1 for d, st in ds):
            return
        for n in (2, 3):
            for xs in itertools.combinations(ds, n):
                t = sum(x for x, st in xs)
                if t.is_number and (t < 0 or t == 0 and any(st for x, st in xs)):
                    s.dead = True
                    return

    def cross(s):
        """conditions over several values against the bounds of each"""
        one = dict(s.ranges)
        n = False
        for q, iv in s.iv.items():
            if not isinstance(q, tuple) and (q.is_Symbol or q in s.ranges):
                one[q] = (iv[0], iv[2])
                n = True
        for q, iv in s.iv.items():
            if isinstance(q, tuple) or q.is_Symbol:
                continue
            lo, hi = bound(q, one)
            sl = sh = False
            for term in sympy.Add.make_args(q):
                k, y = term.as_coeff_Mul()
                if y.is_Symbol and y in s.iv:
                    v = s.iv[y]
                    sl = sl or (v[1] if k > 0 else v[3])
                    sh = sh or (v[3] if k > 0 else v[1])
            if lo is not None and lo == iv[2] and sl or hi is not None and hi == iv[0] and sh:
                s.dead = True
            if lo is not None and iv[2] is not None and (lo > iv[2] or lo == iv[2] and iv[3]) or hi is not None and iv[0] is not None and (hi < iv[0] or hi == iv[0] and iv[1]):
                s.dead = True

    def base(s, q):
        if q not in s.iv:
            lo, hi = bound(q, s.ranges)
            s.iv[q] = [lo, False, hi, False]        # bound, strict?
        return s.iv[q]

    def add(s, c):
        if c.op in ('op', 'nop'):
            o = s.iv.setdefault(('op', c.q), c.op)
            if o != c.op:
                s.dead = True
            return
        iv = s.base(c.q)
        r = sympy.Rational(-c.c) / c.f if c.f.is_Rational and sympy.sympify(c.c).is_Rational else -c.c / c.f
        if c.op in ('gt', 'ge'):
            st = c.op == 'gt'
            if c.f > 0:
                if iv[0] is None or r > iv[0] or r == iv[0] and st:
                    iv[0], iv[1] = r, st
            else:
                if iv[2] is None or r < iv[2] or r == iv[2] and st:
                    iv[2], iv[3] = r, st
        elif c.op == 'eq':
            if iv[0] is None or r >= iv[0]:
                if not (r == iv[0] and iv[1]):
                    iv[0], iv[1] = r, False
                else:
                    s.dead = True
            else:
                s.dead = True
            if iv[2] is None or r <= iv[2]:
                if not (r == iv[2] and iv[3]):
                    iv[2], iv[3] = r, False
                else:
                    s.dead = True
            else:
                s.dead = True
        elif c.op == 'ne':
            if iv[0] is not None and iv[0] == r and iv[2] == r:
                s.dead = True
            elif iv[0] == r:
                iv[1] = True
            elif iv[2] == r:
                iv[3] = True
            s.iv.setdefault(('ne', c.q), set()).add(r)
        if s.whole(c.q):
            for k, up in ((0, True), (2, False)):
                if iv[k] is not None and (iv[k + 1] or not sympy.sympify(iv[k]).is_integer):
                    b = sympy.floor(iv[k]) + 1 if up else sympy.ceiling(iv[k]) - 1
                    iv[k], iv[k + 1] = b, False
        if iv[0] is not None and iv[2] is not None and (iv[0] > iv[2] or iv[0] == iv[2] and (iv[1] or iv[3])):
            s.dead = True
        if iv[0] is not None and iv[0] == iv[2] and iv[0] in s.iv.get(('ne', c.q), ()):
            s.dead = True

    def whole(s, q):
        return all(a.is_integer for a in q.free_symbols) and q.is_polynomial(*q.free_symbols) and all(x.is_integer for x in sympy.Poly(q, *sorted(q.free_symbols, key=str)).coeffs()) if q.free_symbols and not q.atoms(sympy.Function) else False

    def truth(s, c):
        """True / False / None"""
        if isinstance(c, bool):
            return c
        if Facts_(s.conds + (c,), s.ranges).dead:
            return False
        if Facts_(s.conds + (c.neg(),), s.ranges).dead:
            return True
        return None

    def bounds(s, e):
        lo, hi = s.bounds1(e)
        if (lo is None or lo < 0 or hi is None) and len(e.free_symbols) > 1 and not e.is_Symbol:
            f = sympy.factor(can(e))
            if f.is_Mul:
                a = b = sympy.Integer(1)
                for x in f.args:
                    l, h = (x, x) if x.is_number else s.bounds1(x)
                    if l is None or l < 0:
                        return lo, hi
                    a, b = a * l, None if b is None or h is None else b * h
                lo = a if lo is None or a > lo else lo
                hi = hi if b is None or hi is not None and hi < b else b
        return lo, hi

    def bounds1(s, e):
        """(lo, hi) of an expression under the conditions"""
        e = can(e)
        lo, hi = bound(e, s.ranges)
        if e.free_symbols and sympy.fraction(e)[1].is_number:
            x = sympy.expand(e)
            c0, q = x.as_coeff_Add()
            if q.free_symbols:
                f, q = content(q)
                if q in s.iv:
                    iv = s.iv[q]
                    a, b = iv[0], iv[2]
                    if f < 0:
                        a, b = b, a
                    if a is not None:
                        v = a * f + c0
                        lo = v if lo is None or v > lo else lo
                    if b is not None:
                        v = b * f + c0
                        hi = v if hi is None or v < hi else hi
                elif q.is_Symbol is False:
                    pass
        # single symbols with a tighter range
        tight = {}
        for u in e.atoms(IDIV):
            if u != e or True:
                (l, h), (a, b) = s.bounds1(u.args[0]) if u.args[0].free_symbols else (u.args[0],) * 2, s.bounds1(u.args[1]) if u.args[1].free_symbols else (u.args[1],) * 2
                if l is not None and l >= 0 and a is not None and a > 0:
                    tight[u] = ((sympy.floor(l / b) if b is not None else sympy.Integer(0)), None if h is None else sympy.floor(h / a))
        for y in e.free_symbols:
            if y in s.iv:
                tight[y] = (s.iv[y][0], s.iv[y][2])
        if tight:
            r = dict(s.ranges)
            r.update(tight)
            l2, h2 = bound(e, r)
            if l2 is not None and (lo is None or l2 > lo):
                lo = l2
            if h2 is not None and (hi is None or h2 < hi):
                hi = h2
        return lo, hi


def bound(e, ranges):
    """interval of an expression by its structure"""
    e = sympy.sympify(e)
    if e.is_Number:
        return e, e
    if e in ranges:
        return ranges[e]
    if e.is_Symbol:
        return ranges.get(e, (None, None))
    if e.is_Add:
        lo = hi = sympy.Integer(0)
        for a in sympy.expand(e).args if sympy.expand(e).is_Add else (e,):
            if a is e:
                return None, None
            l, h = bound(a, ranges)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        return lo, hi
    if e.is_Mul:
        lo = hi = sympy.Integer(1)
        for a in e.args:
            l, h = bound(a, ranges)
            if a.is_Number:
                lo, hi = (None if lo is None else lo * a, None if hi is None else hi * a)
                if a < 0:
                    lo, hi = hi, lo
                continue
            if l is None or h is None:
                if lo is not None and lo >= 0 and l is not None and l >= 0:
                    lo, hi = lo * l, None
                    continue
                return None, None
            if lo is None or hi is None:
                if lo is not None and lo >= 0 and l >= 0:
                    lo, hi = lo * l, None
                    continue
                return None, None
            c = (lo * l, lo * h, hi * l, hi * h)
            lo, hi = min(c), max(c)
        return lo, hi
    if e.is_Pow and e.exp.is_Integer and e.exp > 0:
        l, h = bound(e.base, ranges)
        if l is not None and l >= 0:
            return l ** e.exp, None if h is None else h ** e.exp
        if e.exp % 2 == 0:
            return sympy.Integer(0), None if l is None or h is None else max(abs(l), abs(h)) ** e.exp
        return None, None
    if e.is_Pow and e.exp == -1:
        l, h = bound(e.base, ranges)
        if l is not None and l >= 0:
            return (1 / h if h else sympy.Integer(0)), (1 / l if l > 0 else None)
        return None, None
    if e.func == IDIV:
        l, h = bound(e.args[0], ranges)
        a, b = bound(e.args[1], ranges)
        if l is not None and l >= 0 and a is not None and a > 0:
            return (sympy.floor(l / b) if b is not None else sympy.Integer(0)), None if h is None else sympy.floor(h / a)
        return None, None
    if e.func in (FLOOR, ROUND):
        l, h = bound(e.args[0], ranges)
        f = sympy.floor if e.func == FLOOR else lambda x: sympy.floor(x + sympy.Rational(1, 2))
        return None if l is None else f(l), None if h is None else f(h)
    if e.func in (REM,):
        a, b = bound(e.args[1], ranges)
        return sympy.Integer(0), None if b is None else b - 1
    if e.func in (COS, SIN):
        return sympy.Integer(-1), sympy.Integer(1)
    return None, None


class St:
    def __init__(s, env=None, mem=None, conds=()):
        s.env, s.mem, s.conds = env if env is not None else {}, mem if mem is not None else {}, conds

    def copy(s):
        return St(dict(s.env), dict(s.mem), s.conds)


class Table:
    """content of a table: piecewise over the index symbol, default elsewhere"""

    def __init__(s, n, default, sym=None, lo=None, hi=None, pieces=()):
        s.n, s.default, s.sym, s.lo, s.hi, s.pieces = n, default, sym, lo, hi, tuple(pieces)


class Px:
    def __init__(s, F, ranges, model=None):
        s.F, s.ranges, s.model = F, dict(ranges), model
        s.frames = 0
        s.steps = 0
        s.fresh = 0
        s.over = []          # (fn, line, text, definite)
        s.fns = set()
        s.depth = 0
        s.lps = {}
        s.applied = []

    # -- running
    def facts(s, st):
        return Facts_(st.conds, s.ranges)

    def split(s, st, c):
        """[(state, truth)]"""
        if isinstance(c, bool):
            return [(st, c)]
        t = s.facts(st).truth(c)
        if t is not None:
            return [(st, t)]
        a, b = st.copy(), st
        a.conds += (c,)
        b.conds += (c.neg(),)
        return [(a, True), (b, False)]

    def call(s, fn, args, st, gen=None):
        """[(state, value)]"""
        s.fns.add(fn)
        if s.depth > 14:
            raise Stop('calls too deep')
        s.depth += 1
        s.frames += 1
        fr = s.frames
        try:
            for i, a in enumerate(args):
                st.env[(fr, i + 1)] = a
            return s.region(fn, fr, 0, st, gen or {}, None)[1]
        finally:
            s.depth -= 1

    def region(s, fn, fr, start, st, gen, stop):
        """walk from a block; ([states reaching stop], [(state, returned value)])"""
        work = [(start, 0, st)]
        back, rets = [], []
        while work:
            b, i, st = work.pop()
            if b == stop and not i:
                back.append(st)
                continue
            s.steps += 1
            if s.steps > 30000:
                raise Stop('too many cases')
            try:
                ss = fn.blocks[b]['s']
                while i < len(ss):
                    x = ss[i]
                    if x[0] == '=':
                        s.assign(fn, fr, x[1], s.rvalue(fn, fr, x[2], st, gen, x[3] if len(x) > 3 else 0), st)
                    i += 1
                work += [(x, 0, s2) for x, s2 in s.term(fn, fr, b, st, gen, rets)]
            except Fork as f:
                if f.st is not st:
                    raise Stop('cases inside a call')
                for s2 in f.states:
                    if not s.facts(s2).dead:
                        work.append((b, i, s2))
        return back, rets

    def term(s, fn, fr, b, st, gen, rets):
            work = []
            t = fn.blocks[b]['t']
            k = t['k']
            if k == 'ret':
                rets.append((st, st.env.get((fr, 0), UNIT)))
            elif k == 'switch':
                for x, s2 in s.switch(fn, fr, t, st, gen):
                    work.append((x, s2))
            elif k == 'call':
                work += s.docall(fn, fr, b, t, st, gen, rets)
            elif k == 'assert':
                c = s.operand(fn, fr, t['d'] if 'd' in t else t.get('c'), st, gen) if (t.get('d') or t.get('c')) is not None else TOP
                work.append((t['t'], st))
            elif k == 'unreachable':
                pass
            else:
                for x in succs(t):
                    work.append((x, st))
                    break
            return work

    def panics(s, fn, b):
        seen, w = set(), [b]
        while w:
            x = w.pop()
            if x in seen:
                continue
            seen.add(x)
            if fn.blocks[x]['t']['k'] == 'ret':
                return False
            w += fn.succ(x)
        return True

    def switch(s, fn, fr, t, st, gen):
        d = s.operand(fn, fr, t['d'], st, gen)
        edges, other = t['c'], t.get('o')
        if other is not None and fn.blocks[other]['t']['k'] == 'unreachable':
            other = None
        if isinstance(d, Discr):
            v = d.v
            if isinstance(v, Var):
                base = re.sub(r'<.*', '', d.ty).split('::')[-1]
                n = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Continue': 0, 'Break': 1}.get(v.v) if base in ('Option', 'Result', 'ControlFlow') else None
                if n is None:
                    for q in s.F.adts.get(v.ty, {}).get('v', []):
                        if q['n'] == v.v:
                            n = q.get('d')
                if n is not None:
                    return [(next((x for c, x in edges if c == n), other), st)]
            d = TOP
        if isinstance(d, bool):
            d = sympy.Integer(int(d))
        if isinstance(d, Cond):
            zero = next(x for c, x in edges if c == 0)
            if s.panics(fn, zero) or s.panics(fn, other):
                return [(other if s.panics(fn, zero) else zero, st)]
            return [(other if v else zero, s2) for s2, v in s.split(st, d)]
        if isnum(d):
            out = []
            for c, x in edges:
                if d.is_number:
                    if d == c:
                        return [(x, st)]
                    continue
                for s2, v in s.split(st, compare('Eq', d, sympy.Integer(c))):
                    if v:
                        out.append((x, s2))
                    else:
                        st = s2
            if other is not None:
                out.append((other, st))
            return out
        alls = [x for c, x in edges] + ([other] if other is not None else [])
        live = [x for x in alls if not s.panics(fn, x)]
        if len(live) == 1:
            return [(live[0], st)]
        s.fresh += 1
        out = []
        for i, x in enumerate(live):
            s2 = st.copy()
            s2.conds += tuple(opaque('%s:%d.%d' % (fn.name.split('::')[-1], t.get('l', 0) or s.fresh, j)) if j == i else opaque('%s:%d.%d' % (fn.name.split('::')[-1], t.get('l', 0) or s.fresh, j)).neg() for j in range(len(live)))
            out.append((x, s2))
        return out

    # -- memory
    def load(s, st, v):
        """value behind a reference"""
        if isinstance(v, Ref):
            x = st.env.get(v.key, TOP)
            for e in v.path:
                x = s.part(st, x, e)
            return x
        if isinstance(v, Elem):
            r = s.element(st, v)
            if len(r) == 1 and len(r[0][0].conds) == len(st.conds):
                return r[0][1]
            out = []
            for s2, x in r:
                s3 = s2.copy()
                s3.mem[('pin', v.base, v.idx)] = x
                out.append(s3)
            raise Fork(st, out)
        return v

    def element(s, st, v):
        """[(state, value)] of an element"""
        m = st.mem.get(v.base)
        if ('pin', v.base, v.idx) in st.mem:
            return [(st, st.mem[('pin', v.base, v.idx)])]
        if isinstance(m, Table):
            if m.sym is None:
                return [(st, m.default)]
            out = []
            def inst(st):
                for conds, e in m.pieces:
                    s2 = st.copy()
                    dead = False
                    for c in conds:
                        if c.op in ('op', 'nop'):
                            c2 = c
                        else:
                            d = c.d().subs(m.sym, v.idx)
                            c2 = compare({'gt': 'Gt', 'ge': 'Ge', 'eq': 'Eq', 'ne': 'Ne'}[c.op], d, sympy.Integer(0)) if not (c.q.free_symbols & {m.sym}) is None else c
                            if not (m.sym in c.q.free_symbols):
                                c2 = c
                        if isinstance(c2, bool):
                            dead = dead or not c2
                        else:
                            s2.conds += (c2,)
                    if not dead and not s.facts(s2).dead:
                        out.append((s2, can(e.subs(m.sym, v.idx))))
            for s2, a in s.split(st, compare('Ge', v.idx, m.lo)):
                if not a:
                    out.append((s2, m.default))
                    continue
                for s3, z in s.split(s2, compare('Le', v.idx, m.hi)):
                    if not z:
                        out.append((s3, m.default))
                    else:
                        inst(s3)
            return out
        if v.idx != I:
            raise Stop('element other than the current one')
        if m is None:
            return [(st, sympy.Symbol(v.base, **s.assume(v.base)))]
        out = []
        for conds, e in m:
            s2 = st.copy() if len(m) > 1 else st
            s2.conds += tuple(c for c in conds)
            if not s.facts(s2).dead:
                out.append((s2, e))
        return out

    def assume(s, base):
        for x in s.ranges:
            if x.name == base:
                return dict(integer=True) if x.is_integer else dict(real=True)
        raise Stop('content of %s' % base)

    def part(s, st, v, e):
        if v is TOP:
            return TOP
        if e == '*':
            return s.load(st, v) if isinstance(v, (Ref, Elem)) else v
        k = e[0]
        if k == 'f':
            if isinstance(v, Clo):
                return v.caps[e[1]] if e[1] < len(v.caps) else TOP
            if isinstance(v, (Tup, Var)):
                return v.xs[e[1]] if e[1] < len(v.xs) else TOP
            return v if isinstance(v, (Sl, Elem)) else TOP
        if k == 'd':
            return v if not isinstance(v, Var) or v.v == e[2] else TOP
        if k == 'x':
            if isinstance(v, Sl):
                return s.load(st, Elem(v.base, e[1]))
            if isinstance(v, Arr) and isnum(e[1]) and e[1].is_number:
                return v.xs[int(e[1])]
            if isinstance(v, Obj) and v.kind == 'list' and isnum(e[1]) and e[1].is_number:
                return v.at(int(e[1]))
        return TOP

    def projs(s, fr, st, ps):
        """projections with index locals resolved"""
        out = []
        for e in ps:
            if isinstance(e, (list, tuple)) and e[0] == 'i':
                out.append(('x', st.env.get((fr, e[1]), TOP)))
            elif isinstance(e, (list, tuple)) and e[0] == 'ci':
                out.append(('x', sympy.Integer(e[1]) if not (len(e) > 2 and e[2]) else TOP))
            else:
                out.append(e)
        return out

    def place(s, fr, p, st):
        if isinstance(p, int):
            return st.env.get((fr, p), TOP)
        v = st.env.get((fr, p[0]), TOP)
        for e in s.projs(fr, st, p[1]):
            v = s.part(st, v, e)
        return v

    def ref(s, fr, p, st):
        if isinstance(p, int):
            return Ref((fr, p))
        v = st.env.get((fr, p[0]), TOP)
        cur = Ref((fr, p[0]))
        for e in s.projs(fr, st, p[1]):
            if e == '*':
                cur = v if isinstance(v, (Ref, Elem, Sl, Obj, Clo, Table)) else cur
                if isinstance(v, (Ref, Elem)):
                    try:
                        v = s.load(st, v)
                    except Stop:
                        v = TOP
                continue
            if e[0] == 'x' and isinstance(v, Sl):
                cur, v = Elem(v.base, e[1]), TOP
                continue
            v = s.part(st, v, e)
            cur = Ref(cur.key, cur.path + (e,)) if isinstance(cur, Ref) else v
        if isinstance(v, (Sl, Obj, Clo)) and not isinstance(cur, Elem):
            return v
        return cur

    def assign(s, fn, fr, p, v, st):
        if isinstance(p, int):
            st.env[(fr, p)] = v
            return
        r = s.ref(fr, p, st)
        s.store(st, r, v)

    def store(s, st, r, v):
        if isinstance(r, Elem):
            if not isnum(v):
                raise Stop('sample set to something not understood %r' % (v,))
            if isinstance(st.mem.get(r.base), Table):
                st.mem[('w', r.base)] = st.mem.get(('w', r.base), ()) + ((r.idx, v),)
                return
            if r.idx != I:
                raise Stop('element other than the current one is set')
            st.mem.pop(('pin', r.base, r.idx), None)
            st.mem[r.base] = (((), v),)
        elif isinstance(r, Ref):
            st.env[r.key] = s.put(st, st.env.get(r.key, TOP), r.path, v)
        elif isinstance(r, Obj) and r.kind == 'chan':
            if isinstance(v, Obj) and v.kind == 'chan':
                st.mem[('is', r.base)] = v.base
            else:
                raise Stop('channel set to something not understood')
        elif r is not TOP:
            raise Stop('store')
        else:
            raise Stop('store to an unknown place')

    def put(s, st, x, path, v):
        if not path:
            return v
        e = path[0]
        if e[0] == 'f' and isinstance(x, (Tup, Var)) and e[1] < len(x.xs):
            xs = list(x.xs)
            xs[e[1]] = s.put(st, xs[e[1]], path[1:], v)
            return Var(x.ty, x.v, xs) if isinstance(x, Var) else type(x)(xs)
        if e[0] == 'd':
            return s.put(st, x, path[1:], v)
        if e[0] == 'x' and isinstance(x, Arr) and isnum(e[1]) and e[1].is_number:
            xs = list(x.xs)
            xs[int(e[1])] = s.put(st, xs[int(e[1])], path[1:], v)
            return Arr(xs)
        return TOP

    # -- values
    def operand(s, fn, fr, o, st, gen):
        if o[0] == 'k':
            return s.const(o[1], gen)
        return s.place(fr, o[1], st)

    def const(s, c, gen):
        v, t = c.get('v'), c.get('t', '')
        if v is None and c.get('uid'):
            u = c['uid']
            ty = gen.get(t, t)
            k = s.F.const_by_name.get('<%s as %s<%s>>::%s' % (ty, u.rsplit('::', 1)[0], ty, u.split('::')[-1])) or s.F.const_by_name.get('<%s as %s>::%s' % (ty, u.rsplit('::', 1)[0], u.split('::')[-1]))
            if k is None:
                return TOP
            v, t = k['v'], k['t']
        return s.cval(v, t)

    def cval(s, v, t=''):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v) if t == 'bool' else sympy.Integer(v)
        if isinstance(v, str) and v.startswith('f:'):
            x = v[2:]
            if x in ('inf', '-inf', 'NaN', 'nan'):
                return TOP
            return sympy.Rational(Fraction(x))
        if isinstance(v, dict):
            if 'ref' in v:
                return s.cval(v['ref'])
            if 'adt' in v:
                f = v.get('f') or {}
                return Var(v['adt'], v.get('v'), [s.cval(x) for x in (f.values() if isinstance(f, dict) else f)])
            if 'fn' in v:
                return Clo(v['fn'])
            if 'zst' in v:
                if str(v['zst']) in s.F.fns:
                    return Clo(v['zst'])
                return UNIT if v['zst'] == '()' else TOP
            if 'arr' in v:
                return Arr([s.cval(x) for x in v['arr']])
        if isinstance(v, list):
            return Arr([s.cval(x) for x in v])
        return TOP

    def rvalue(s, fn, fr, r, st, gen, line):
        k = r[0]
        if k == 'use':
            return s.operand(fn, fr, r[1], st, gen)
        if k in ('ref', 'raw'):
            return s.ref(fr, r[2], st)
        if k == 'bin':
            return s.binop(r[1], s.operand(fn, fr, r[2], st, gen), s.operand(fn, fr, r[3], st, gen), gen.get(r[4], r[4]) if len(r) > 4 else '', st, fn, line)
        if k == 'un':
            x = s.operand(fn, fr, r[2], st, gen)
            if r[1] == 'PtrMetadata':
                return s.length(st, x)
            if r[1] == 'Not':
                return not x if isinstance(x, bool) else x.neg() if isinstance(x, Cond) else TOP
            if r[1] == 'Neg':
                return can(-x) if isnum(x) else TOP
            return TOP
        if k == 'cast':
            x = s.operand(fn, fr, r[2], st, gen)
            to, frm = r[3], r[4] if len(r) > 4 else ''
            if r[1] == 'IntToInt' and isinstance(x, bool):
                return sympy.Integer(int(x))
            if r[1] == 'IntToInt':
                return s.narrow(st, x, gen.get(to, to), fn, line) if isnum(x) else TOP
            if r[1] == 'FloatToInt':
                return s.toint(st, x, gen.get(to, to)) if isnum(x) else TOP
            return x
        if k == 'agg':
            xs = [s.operand(fn, fr, o, st, gen) for o in r[2]]
            if r[1] == 'closure':
                c = Clo(r[3], xs)
                c.gen = gen
                return c
            if r[1] == 'adt':
                return Var(r[3], r[4], xs)
            return Arr(xs) if r[1] == 'array' else Tup(xs)
        if k == 'repeat':
            v = s.operand(fn, fr, r[1], st, gen)
            m = re.match(r'(\d+)', str(r[2]))
            if m and int(m.group(1)) <= 16:
                return Arr([v] * int(m.group(1)))
            if m and isnum(v):
                return s.table(st, sympy.Integer(int(m.group(1))), v)
            return TOP
        if k == 'discr':
            return Discr(s.place(fr, r[1], st), r[2])
        if k == 'len':
            return s.length(st, s.place(fr, r[1], st))
        return TOP

    def table(s, st, n, default):
        s.fresh += 1
        b = 'table%d' % s.fresh
        st.mem[b] = Table(n, default)
        return Sl(b)

    def length(s, st, x):
        if isinstance(x, Ref):
            x = s.load(st, x)
        if isinstance(x, Sl):
            m = st.mem.get(x.base)
            return m.n if isinstance(m, Table) else L
        if isinstance(x, Arr):
            return sympy.Integer(len(x.xs))
        return TOP

    def fits(s, st, e, ty):
        lo, hi = s.facts(st).bounds(e)
        a, b = INT[ty]
        if e.func == IDIV and (hi is None or hi > b) and lo is not None and lo >= 0:
            z = s.facts(st).bounds(e.args[0] - b * e.args[1])[1]
            if z is not None and z <= 0:
                hi = sympy.Integer(b)
        return lo is not None and hi is not None and lo >= a and hi <= b, lo, hi

    def narrow(s, st, x, ty, fn, line):
        if ty not in INT:
            return x
        f, lo, hi = s.fits(st, x, ty)
        if f:
            return x
        s.note(st, fn, line, 'conversion to %s loses values' % ty, x, lo, hi, ty)
        return WRAP(can(x), sympy.Symbol(ty))

    def toint(s, st, x, ty):
        """saturating conversion of a float"""
        lo, hi = INT[ty]
        f = s.facts(st)
        for c, r in ((compare('Lt', x, sympy.Integer(lo)), lo), (compare('Gt', x, sympy.Integer(hi)), hi)):
            t = f.truth(c)
            if t is None:
                a, b = st.copy(), st.copy()
                a.conds += (c,)
                b.conds += (c.neg(),)
                raise Fork(st, [a, b])
            if t:
                return sympy.Integer(r)
        if x.is_number:
            return sympy.floor(x) if x >= 0 else sympy.ceiling(x)
        if lo < 0:
            c = compare('Ge', x, sympy.Integer(0))
            t = f.truth(c)
            if t is None:
                a, b = st.copy(), st.copy()
                a.conds += (c,)
                b.conds += (c.neg(),)
                raise Fork(st, [a, b])
            if not t:
                return -FLOOR(can(-x))
        if all(y.is_integer for y in x.free_symbols) and f.whole(x):
            return x
        return FLOOR(can(x))

    def note(s, st, fn, line, text, x, lo, hi, ty):
        """an operation whose result may not fit"""
        a, b = INT[ty]
        syms = x.free_symbols
        used = {y for c in st.conds for y in c.q.free_symbols}
        exact = not x.atoms(sympy.Function) and not (syms & used) and all(sympy.degree(x, y) <= 1 for y in syms) and (hi is not None and hi > b or lo is not None and lo < a)
        s.over.append((fn, line, '%s: %s .. %s does not fit' % (text, lo, hi) if lo is not None and hi is not None else text, x, ty, st.conds, exact))

    def binop(s, op, a, b, ty, st, fn, line):
        if isinstance(a, bool) and isinstance(b, bool):
            return {'Eq': a == b, 'Ne': a != b, 'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b}.get(op, TOP)
        if op in ('BitAnd', 'BitOr') and (isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond))):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, bool):
                    return y if x == (op == 'BitAnd') else x
            return TOP
        if not isnum(a) or not isnum(b):
            return Tup([TOP, False]) if op.endswith('WithOverflow') else TOP
        w = op.endswith('WithOverflow')
        op = op.replace('WithOverflow', '').replace('Unchecked', '')
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            return compare(op, a, b)
        v = s.arith(op, a, b, ty, st, fn, line)
        return Tup([v, False]) if w else v

    def arith(s, op, a, b, ty, st, fn, line, wrap=False):
        if op in ('Add', 'Sub', 'Mul'):
            v = can(a + b if op == 'Add' else a - b if op == 'Sub' else a * b)
            if ty in INT:
                f, lo, hi = s.fits(st, v, ty)
                if not f and not ({L, I} & v.free_symbols):
                    s.note(st, fn, line, '%s of type %s' % ({'Add': 'sum', 'Sub': 'difference', 'Mul': 'product'}[op], ty), v, lo, hi, ty)
            return v
        if ty not in INT:
            if op == 'Div':
                if b == 0:
                    return TOP
                return can(a / b)
            return TOP
        if op == 'Shl' and b.is_number:
            return s.arith('Mul', a, sympy.Integer(2) ** b, ty, st, fn, line)
        if op == 'Shr' and b.is_number:
            op, b = 'Div', sympy.Integer(2) ** b
        if op == 'Div':
            lo, hi = s.facts(st).bounds(a)
            if b == 0:
                return TOP
            if lo is not None and lo >= 0:
                return idiv(a, b, s.facts(st))
            return TOP
        if op == 'Rem' or op == 'BitAnd' and (b.is_number and (int(b) + 1) & int(b) == 0 or a.is_number and (int(a) + 1) & int(a) == 0):
            if op == 'BitAnd':
                if not b.is_number or (int(b) + 1) & int(b):
                    a, b = b, a
                b = b + 1
            lo, hi = s.facts(st).bounds(a)
            bl, bh = s.facts(st).bounds(b)
            if lo is not None and hi is not None and lo >= 0 and bl is not None and hi < bl:
                return a
            return can(a - b * idiv(a, b, s.facts(st))) if lo is not None and lo >= 0 else TOP
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = sorted((a, b), key=str)
            return BITS(sympy.Symbol(op), x, y)
        return TOP

    # -- calls
    def docall(s, fn, fr, b, t, st, gen, rets):
        f = t['f']
        line = t.get('l', 0)
        args = [s.operand(fn, fr, a, st, gen) for a in t['a']]
        if f[0] != 'k' or not isinstance(f[1].get('v'), dict) or 'name' not in f[1]['v']:
            res = [(st, TOP)]
        else:
            c = f[1]['v']
            op = c['name'].split('::')[-1]
            if op == 'next' and args and 'iterator' in c['name'].lower():
                return s.loop(fn, fr, b, t, args[0], st, gen, rets)
            res = s.known(fn, fr, c, op, args, t, st, gen, line)
        out = []
        for s2, v in res or []:
            for s3, w in s.final(s2, v):
                if t.get('t') is None:
                    continue
                if t.get('d') is not None:
                    s.assign(fn, fr, t['d'], w, s3)
                out.append((t['t'], s3))
        return out

    def final(s, st, v):
        return [(st, v)]

    def opened(s, st, it):
        """[(state, item)]"""
        return it.item(st)

    def loop(s, fn, fr, b, t, itref, st, gen, rets):
        it = s.load(st, itref) if isinstance(itref, Ref) else itref
        if not isinstance(it, It):
            raise Stop('loop over something not understood (line %s)' % t.get('l'))
        lps = s.lps.setdefault(fn.name, loopsof(fn))
        hs = [h for h, body in lps.items() if b in body]
        if not hs:
            raise Stop('next() outside a loop')
        h = min(hs, key=lambda q: len(lps[q]))
        body = lps[h]
        itkey = itref.key if isinstance(itref, Ref) else None
        touched = set()
        for x in body:
            for q in fn.blocks[x]['s']:
                if q[0] == '=' and isinstance(q[1], int):
                    touched.add((fr, q[1]))
            d = fn.blocks[x]['t'].get('d') if fn.blocks[x]['t']['k'] == 'call' else None
            if isinstance(d, int):
                touched.add((fr, d))
        touched.discard(itkey)
        for k in touched:
            if k in st.env:
                st.env[k] = TOP
        before = dict(st.env)
        outer = st.copy()
        arr = []
        for s1, item in s.opened(st.copy(), it):
            s1.env = dict(s1.env)
            s.assign(fn, fr, t['d'], some(item), s1)
            back, rs = s.region(fn, fr, t['t'], s1, gen, b)
            for s2, v in rs:
                # leaving the function inside the loop: only with an error
                if not (isinstance(v, Var) and v.v == 'Err'):
                    raise Stop('the loop is left early')
                rets.append((s2, v))
            arr += back
        for s2 in arr:
            for k, v in s2.env.items():
                if k in before and k not in touched and k != itkey and v is not before[k] and k[0] <= s.frames:
                    if not same(v, before[k]):
                        raise Stop('a value carried from sample to sample')
        st = s.join(outer, arr, it)
        for k in touched:
            if k in st.env:
                st.env[k] = TOP
        s.assign(fn, fr, t['d'], NONE, st)
        return [(t['t'], st)]

    def join(s, st, arr, it):
        """memory after a loop over all items"""
        n0 = len(st.conds)
        keys = set()
        for a in arr:
            keys |= {k for k in a.mem if a.mem[k] is not st.mem.get(k)}
        for k in keys:
            if isinstance(k, tuple) and k[0] == 'pin':
                continue
            if isinstance(k, tuple) and k[0] == 'w':
                pieces, sym = [], None
                for a in arr:
                    ws = a.mem.get(k, ())
                    if len(ws) != 1 or it.rng is None or ws[0][0] != it.rng[2]:
                        raise Stop('table entries not understood')
                    sym = it.rng[2]
                    pieces.append((a.conds[n0:], ws[0][1]))
                m = st.mem[k[1]]
                if m.sym is not None:
                    raise Stop('table written twice')
                st.mem[k[1]] = Table(m.n, m.default, sym, it.rng[0], it.rng[1], pieces)
                continue
            if isinstance(k, tuple) and k[0] == 'is':
                vs = {a.mem.get(k) for a in arr}
                if len(vs) != 1:
                    raise Stop('channel replaced in some cases only')
                st.mem[k] = vs.pop()
                continue
            if k not in st.mem and any(isinstance(a.mem.get(k), Table) for a in arr):
                continue
            pieces = []
            for a in arr:
                m = a.mem.get(k)
                if isinstance(m, Table):
                    raise Stop('table changed in a loop')
                if m is None:
                    m = (((), sympy.Symbol(k, **s.assume(k))),)
                for conds, e in m:
                    cs = a.conds[n0:] + tuple(conds)
                    pieces.append((cs, e))
            if pieces is not None:
                st.mem[k] = dedupe(pieces)
        return st

    def closure(s, c, args, st, gen=None):
        if isinstance(c, Ref):
            c = s.load(st, c)
        if not isinstance(c, Clo):
            raise Stop('unknown function value')
        g = s.F.fns.get(c.id)
        if g is None:
            name = c.id
            return s.known(None, None, dict(name=name, fn=name, args=[]), name.split('::')[-1], list(args), dict(at=[], l=0), st, gen or {}, 0)
        return s.call(g, ([c] if g.kind == 'Closure' else []) + list(args), st, getattr(c, 'gen', None) or gen)

    def over_all(s, st, it, f):
        """for_each: f(st, item) -> [(st, value)]"""
        before = dict(st.env)
        outer = st.copy()
        arr = []
        for s1, item in s.opened(st.copy(), it):
            arr += [s2 for s2, v in f(s1, item)]
        for s2 in arr:
            for k, v in s2.env.items():
                if k in before and v is not before[k] and not same(v, before[k]):
                    raise Stop('a value carried from sample to sample')
        return s.join(outer, arr, it)

    def known(s, fn, fr, c, op, args, t, st, gen, line):
        n = c['name']
        if s.model is not None:
            r = s.model(s, c, op, args, t, st, gen)
            if r is not None:
                return r
        if op in ('eq', 'ne') and len(args) == 2 and n.startswith('core::cmp'):
            v = s.cmp(st, op, s.plain(st, args[0]), s.plain(st, args[1]))
            if isinstance(v, bool):
                return [(st, v)]
        if op == 'new' and 'RangeInclusive' in n and len(args) == 2:
            return [(st, Var('core::ops::RangeInclusive', 'RangeInclusive', args))]
        if n.startswith('core::ops::function::Fn') and args:
            xs = args[1].xs if len(args) > 1 and isinstance(args[1], Tup) else args[1:]
            return s.closure(args[0], xs, st, gen)
        g = s.resolve(c, gen)
        crate = (g.name if g is not None else n)
        if g is not None and not crate.startswith(('core::', 'alloc::', 'std::', '<core', '<alloc')):
            return s.call(g, args, st, s.generics(g, c, gen))
        return s.std(fn, n, op, args, t, st, gen, line, c)

    def resolve(s, c, gen):
        g = s.F.fns.get(c.get('res') or c['fn'])
        if g is not None and not c.get('trait'):
            return g
        if c.get('trait') and c.get('self'):
            ty = gen.get(c['self'], c['self'])
            last = c['name'].split('::')[-1]
            for nm in ('<%s as %s<%s>>::%s' % (ty, c['trait'], ty, last), '<%s as %s>::%s' % (ty, c['trait'], last)):
                h = s.byname(nm)
                if h is not None:
                    return h
        return g

    def byname(s, nm):
        if not hasattr(s.F, '_byname'):
            s.F._byname = {f.name: f for f in s.F.fns.values()}
        return s.F._byname.get(nm)

    def generics(s, g, c, gen):
        names, vals = g.d.get('gen') or [], c.get('args') or []
        if g.kind == 'Closure':
            return gen
        if len(names) != len(vals):
            return {}
        return {n: gen.get(v, v) for n, v in zip(names, vals)}

    def std(s, fn, n, op, args, t, st, gen, line, c):
        at = [gen.get(x, x) for x in (t.get('at') or [])]
        x = args[0] if args else None
        ld = lambda v: s.load(st, v) if isinstance(v, (Ref, Elem)) else v
        dt = gen.get(t.get('dt'), t.get('dt') or '')
        if op in ('iter', 'iter_mut', 'into_iter', 'as_slice', 'as_mut_slice', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'by_ref', 'to_vec', 'unwrap_unchecked', 'must_use', 'into_boxed_slice'):
            return s.iterate(st, op, x)
        if isinstance(x, It) or op in ('map', 'zip', 'enumerate', 'copied', 'cloned', 'for_each') and isinstance(ld(x), It):
            return s.adapt(st, op, ld(x), args, t)
        if op in ('mul', 'add', 'sub', 'div', 'rem') and n.startswith('core::ops::'):
            a, b = ld(x), ld(args[1])
            ty = re.sub(r"^&('\w+ )?(mut )?", '', at[0]) if at else ''
            if isnum(a) and isnum(b):
                return [(st, s.arith(op.capitalize(), a, b, gen.get(ty, ty), st, fn, line))]
            return [(st, TOP)]
        if op in ('mul_assign', 'add_assign', 'sub_assign', 'div_assign') and n.startswith('core::ops::'):
            a, b = ld(x), ld(args[1])
            ty = re.sub(r"^&('\w+ )?(mut )?", '', at[0]) if at else ''
            s.store(st, x, s.arith(op[:-7].capitalize(), a, b, gen.get(ty, ty), st, fn, line) if isnum(a) and isnum(b) else TOP)
            return [(st, UNIT)]
        if op == 'neg' and isnum(ld(x)):
            return [(st, can(-ld(x)))]
        if op == 'not' and isinstance(ld(x), (bool, Cond)):
            return [(st, not ld(x) if isinstance(ld(x), bool) else ld(x).neg())]
        if op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and len(args) == 2 and n.startswith('core::cmp'):
            return [(st, s.cmp(st, op, ld(ld(x)), ld(ld(args[1]))))]
        if op in ('from', 'into', 'to_owned', 'clone', 'identity', 'copied', 'cloned') and args and not isinstance(ld(x), (It,)):
            v = ld(x)
            if isinstance(v, Var) and v.v == 'Some' and op in ('copied', 'cloned'):
                return [(st, some(ld(v.xs[0])))]
            return [(st, v)]
        if op in ('to_f32', 'to_f64', 'as_'):
            return [(st, ld(x))]
        if op in ('try_from', 'try_into') and isnum(ld(x)):
            m = re.search(r'Result<(\w+)', dt)
            ty = gen.get(m.group(1), m.group(1)) if m else None
            if ty in INT:
                lo, hi = INT[ty]
                out = []
                for s2, a in s.split(st, compare('Gt', ld(x), sympy.Integer(hi))):
                    if a:
                        out.append((s2, Var('core::result::Result', 'Err', [TOP])))
                        continue
                    for s3, z in s.split(s2, compare('Lt', ld(x), sympy.Integer(lo))):
                        out.append((s3, Var('core::result::Result', 'Err', [TOP]) if z else ok(s.load(s3, x) if isinstance(x, (Ref, Elem)) else x)))
                return out
        if op in ('unwrap', 'expect') and isinstance(ld(x), Var):
            v = ld(x)
            return [(st, v.xs[0])] if v.v in ('Some', 'Ok') else []
        if op in ('unwrap_or',) and isinstance(ld(x), Var):
            v = ld(x)
            return [(st, v.xs[0] if v.v in ('Some', 'Ok') else args[1])]
        if op in ('unwrap_or_else', 'unwrap_or_default') and isinstance(ld(x), Var) and ld(x).v in ('Some', 'Ok'):
            return [(st, ld(x).xs[0])]
        if op == 'unwrap_or_else' and isinstance(ld(x), Var):
            return s.closure(args[1], [] if ld(x).v == 'None' else [ld(x).xs[0]], st, gen)
        if op in ('map', 'and_then') and isinstance(ld(x), Var):
            v = ld(x)
            if v.v in ('Some', 'Ok'):
                return [(s2, Var(v.ty, v.v, [w]) if op == 'map' else w) for s2, w in s.closure(args[1], [v.xs[0]], st, gen)]
            return [(st, v)]
        if op in ('ok', 'map_err', 'ok_or', 'ok_or_else') and isinstance(ld(x), Var):
            v = ld(x)
            if v.v in ('Some', 'Ok'):
                return [(st, some(v.xs[0]) if op == 'ok' else ok(v.xs[0]))]
            return [(st, NONE if op == 'ok' else Var('core::result::Result', 'Err', [TOP]))]
        if op in ('is_some', 'is_none', 'is_ok', 'is_err') and isinstance(ld(x), Var):
            return [(st, (ld(x).v in ('Some', 'Ok')) == (op in ('is_some', 'is_ok')))]
        if op == 'then' and isinstance(ld(x), (bool, Cond)) and len(args) == 2:
            out = []
            for s2, v in s.split(st, ld(x)):
                out += [(s3, some(w)) for s3, w in s.closure(args[1], [], s2, gen)] if v else [(s2, NONE)]
            return out
        if op in ('then_some',) and isinstance(ld(x), (bool, Cond)):
            return [(s2, some(args[1]) if v else NONE) for s2, v in s.split(st, ld(x))]
        if op == 'branch':
            v = ld(x)
            if isinstance(v, Var):
                return [(st, Var('core::ops::control_flow::ControlFlow', 'Continue', [v.xs[0]]) if v.v in ('Ok', 'Some') else Var('core::ops::control_flow::ControlFlow', 'Break', [v]))]
            return [(st, Var('core::ops::control_flow::ControlFlow', 'Continue', [TOP]))]
        if op == 'from_residual':
            v = ld(x)
            return [(st, v if isinstance(v, Var) else Var('core::result::Result', 'Err', [TOP]))]
        if op == 'default':
            ty = dt
            if ty in INT or ty in ('f32', 'f64'):
                return [(st, sympy.Integer(0))]
            return [(st, TOP)]
        if op == 'len':
            return [(st, s.length(st, x))]
        if op == 'is_empty':
            return [(st, False)]
        if op == 'is_power_of_two' and isnum(ld(x)) and ld(x).is_number:
            v = int(ld(x))
            return [(st, v > 0 and v & (v - 1) == 0)]
        if op == 'from_elem' and isnum(ld(x)) and isnum(args[1]):
            return [(st, s.table(st, args[1], ld(x)))]
        if op in ('get', 'get_mut', 'get_unchecked', 'index', 'index_mut') and len(args) == 2:
            base = x if isinstance(x, (Sl, Arr, Obj)) else ld(x)
            i = ld(args[1])
            if isinstance(base, Sl) and isnum(i):
                e = Elem(base.base, i)
                if op.startswith('get') and not op.endswith('unchecked'):
                    return [(s2, some(e) if v else NONE) for s2, v in s.split(st, compare('Lt', i, s.length(st, base)))]
                return [(st, e)]
            if isinstance(base, (Arr, Obj)) and isnum(i) and i.is_number:
                v = s.part(st, base, ('x', i))
                return [(st, some(v) if op.startswith('get') else v)]
            if isinstance(base, Sl) and isinstance(i, Var) and i.v == 'RangeFull':
                return [(st, base)]
            if isinstance(base, Sl):
                raise Stop('part of a slice')
        if op in ('copy_from_slice', 'clone_from_slice') and isinstance(x, Sl) and isinstance(args[1], Sl):
            r = s.element(st, Elem(args[1].base, I))
            if len(r) == 1:
                st.mem[x.base] = (((), r[0][1]),)
            else:
                n0 = len(st.conds)
                st.mem[x.base] = tuple((s2.conds[n0:], v) for s2, v in r)
            return [(st, UNIT)]
        if op == 'fill' and isinstance(x, Sl) and isnum(ld(args[1])):
            st.mem[x.base] = (((), ld(args[1])),)
            return [(st, UNIT)]
        vals = [ld(a) for a in args]
        if vals and all(isnum(v) for v in vals):
            ty = re.sub(r"^&('\w+ )?(mut )?", '', at[0]) if at else dt
            r = s.mathfn(fn, op, vals, ty, st, line)
            if r is not None:
                return r
        if any(isinstance(a, (Sl, Elem)) or isinstance(a, Obj) and a.kind in ('chan', 'image') for a in args) and any('&mut' in z for z in at):
            raise Stop('call of %s' % n)
        if any(isinstance(a, Ref) for a in args):
            for a, z in zip(args, at):
                if isinstance(a, Ref) and '&mut' in z:
                    s.store(st, a, TOP)
        return [(st, TOP)]

    def plain(s, st, x):
        for _ in range(3):
            if isinstance(x, Ref):
                x = s.load(st, x)
        return x

    def cmp(s, st, op, a, b):
        if isnum(a) and isnum(b):
            return compare(op.capitalize(), a, b)
        if isinstance(a, Var) and isinstance(b, Var) and not a.xs and not b.xs:
            return (a.v == b.v) == (op == 'eq')
        if isinstance(a, bool) and isinstance(b, bool):
            return (a == b) == (op == 'eq')
        return TOP

    def mathfn(s, fn, op, v, ty, st, line):
        a = v[0]
        if op in ('clamp', 'zclamp') and len(v) == 3:
            out = []
            for s2, t in s.split(st, compare('Lt', a, v[1])):
                if t:
                    out.append((s2, v[1]))
                    continue
                out += [(s3, v[2] if u else a) for s3, u in s.split(s2, compare('Gt', a, v[2]))]
            return out
        if op in ('min', 'max') and len(v) == 2:
            return [(s2, a if t else v[1]) for s2, t in s.split(st, compare('Le' if op == 'min' else 'Ge', a, v[1]))]
        if op in ('saturating_sub', 'saturating_add', 'saturating_mul') and len(v) == 2 and ty in INT:
            e = can(a - v[1] if op.endswith('sub') else a + v[1] if op.endswith('add') else a * v[1])
            lo, hi = INT[ty]
            out = []
            for s2, t in s.split(st, compare('Lt', e, sympy.Integer(lo))):
                if t:
                    out.append((s2, sympy.Integer(lo)))
                    continue
                out += [(s3, sympy.Integer(hi) if u else e) for s3, u in s.split(s2, compare('Gt', e, sympy.Integer(hi)))]
            return out
        if op in ('wrapping_sub', 'wrapping_add', 'wrapping_mul') and len(v) == 2 and ty in INT:
            e = can(a - v[1] if op.endswith('sub') else a + v[1] if op.endswith('add') else a * v[1])
            f, lo, hi = s.fits(st, e, ty)
            return [(st, e if f else WRAP(e, sympy.Symbol(ty)))]
        if op == 'powf' and len(v) == 2:
            return [(st, POWF(a, v[1]))]
        if op in ('powi', 'pow') and len(v) == 2 and v[1].is_number and 0 <= v[1] <= 8:
            return [(st, can(a ** int(v[1])))]
        if op in ('cos', 'sin') and len(v) == 1:
            return [(st, (COS if op == 'cos' else SIN)(a))]
        if op == 'sqrt':
            return [(st, sympy.sqrt(a))]
        if op == 'abs':
            return [(s2, a if t else can(-a)) for s2, t in s.split(st, compare('Ge', a, sympy.Integer(0)))]
        if op == 'floor':
            return [(st, FLOOR(a))]
        if op == 'round':
            return [(st, ROUND(a))]
        if op == 'recip':
            return [(st, can(1 / a))]
        if op == 'mul_add' and len(v) == 3:
            return [(st, can(a * v[1] + v[2]))]
        return None

    def iterate(s, st, op, x):
        v = s.load(st, x) if isinstance(x, Ref) else x
        if isinstance(v, (It,)):
            return [(st, v)] if not (isinstance(x, Ref) and op == 'by_ref') else [(st, x)]
        if isinstance(v, Sl):
            if op in ('iter', 'iter_mut', 'into_iter'):
                if isinstance(st.mem.get(v.base), Table):
                    raise Stop('loop over a table')
                return [(st, It(lambda s1, b=v.base: [(s1, Elem(b, I))], (sympy.Integer(0), L - 1, I)))]
            return [(st, v)]
        if isinstance(v, Var) and v.ty.split('::')[-1] in ('Range', 'RangeInclusive') and op == 'into_iter':
            lo, hi = v.xs[0], v.xs[1]
            return [(st, s.range(lo, hi if v.ty.endswith('Inclusive') else None, hi))]
        if isinstance(v, Obj) and v.kind == 'seq' and op in ('iter', 'iter_mut', 'into_iter'):
            return [(st, It(v.item))]
        if isinstance(v, Obj) and v.kind == 'list' and op in ('iter', 'iter_mut', 'into_iter'):
            raise Stop('loop over channels')
        if isinstance(v, Var) and v.v in ('Some', 'None', 'Ok', 'Err'):
            return [(st, v)]
        if isinstance(v, (Obj, Arr)):
            return [(st, x if isinstance(v, Arr) and isinstance(x, Ref) else v)]
        return [(st, TOP)]

    def range(s, lo, incl, hi):
        if not isnum(lo) or not isnum(hi):
            return TOP
        last = hi if incl is not None else can(hi - 1)
        if lo == 0 and last == L - 1:
            return It(lambda s1: [(s1, I)], (lo, last, I))
        s.fresh += 1
        y = sympy.Symbol('n%d' % s.fresh, integer=True)
        s.ranges[y] = (lo if lo.is_number else None, last if last.is_number else None)
        return It(lambda s1: [(s1, y)], (lo, last, y))

    def adapt(s, st, op, it, args, t):
        if op == 'zip':
            o = args[1]
            if isinstance(o, Ref):
                o = s.load(st, o)
            if not isinstance(o, It):
                r = s.iterate(st, 'into_iter', o)
                o = r[0][1]
            if not isinstance(o, It):
                raise Stop('zip')
            def item(s1):
                return [(s3, Tup([a, b])) for s2, a in it.item(s1) for s3, b in o.item(s2)]
            return [(st, It(item, it.rng))]
        if op == 'map':
            f = args[1]
            return [(st, It(lambda s1: [r for s2, a in it.item(s1) for r in s.closure(f, [a], s2)], it.rng))]
        if op in ('copied', 'cloned'):
            return [(st, It(lambda s1: [r for s2, a in it.item(s1) for r in (s.element(s2, a) if isinstance(a, Elem) else [(s2, s.load(s2, a))])], it.rng))]
        if op == 'enumerate':
            if it.rng is None:
                raise Stop('enumerate')
            return [(st, It(lambda s1: [(s2, Tup([it.rng[2], a])) for s2, a in it.item(s1)], it.rng))]
        if op == 'for_each':
            return [(s.over_all(st, it, lambda s1, a: s.closure(args[1], [a], s1)), UNIT)]
        if op == 'try_for_each':
            return [(s.over_all(st, it, lambda s1, a: s.closure(args[1], [a], s1)), ok(UNIT))]
        if op == 'collect':
            if it.rng is None or it.rng[2] == I:
                raise Stop('collect')
            n0 = len(st.conds)
            pieces = []
            for s2, v in it.item(st.copy()):
                if not isnum(v):
                    raise Stop('collect')
                pieces.append((s2.conds[n0:], v))
            sl = s.table(st, can(it.rng[1] + 1 - it.rng[0]), sympy.Integer(0))
            if it.rng[0] != 0:
                raise Stop('collect')
            st.mem[sl.base] = Table(it.rng[1] + 1, sympy.Integer(0), it.rng[2], it.rng[0], it.rng[1], pieces)
            return [(st, sl)]
        if op == 'by_ref':
            return [(st, it)]
        raise Stop('iterator %s' % op)


def dedupe(pieces):
    out = {}
    for cs, e in pieces:
        out.setdefault((frozenset(map(repr, cs)), e), (cs, e))
    return tuple(out.values())


def same(a, b):
    if a is b:
        return True
    if isnum(a) and isnum(b):
        return a == b
    if type(a) is type(b):
        if isinstance(a, Ref):
            return a.key == b.key and a.path == b.path
        if isinstance(a, Elem):
            return a.base == b.base and a.idx == b.idx
        if isinstance(a, Sl):
            return a.base == b.base
        if isinstance(a, Var):
            return a.v == b.v and len(a.xs) == len(b.xs) and all(same(x, y) for x, y in zip(a.xs, b.xs))
        if isinstance(a, Tup):
            return len(a.xs) == len(b.xs) and all(same(x, y) for x, y in zip(a.xs, b.xs))
        if isinstance(a, bool):
            return a == b
    return False


def idiv(a, b, facts):
    """floor(a / b) for a >= 0, b > 0"""
    a, b = can(a), can(b)
    if a.is_number and b.is_number:
        return sympy.floor(a / b)
    if b == 1:
        return a
    # (a * (floor((2^64-1)/d) + 1)) >> 64 is a / d for a < 2^32, d >= 1
    if b == 2 ** 64:
        x = sympy.factor_terms(sympy.factor(a))
        for f in sympy.Mul.make_args(x):
            g = can(f - 1)
            if g.func == IDIV and g.args[0] == 2 ** 64 - 1:
                y = can(a / f)
                lo, hi = facts.bounds(y)
                dl, dh = facts.bounds(g.args[1])
                if lo is not None and lo >= 0 and hi is not None and hi < 2 ** 32:
                    return IDIV(y, g.args[1])
    lo, hi = facts.bounds(a)
    if b.is_number and hi is not None and lo is not None and lo >= 0 and hi < b:
        return sympy.Integer(0)
    # exact: (t + (t >> k)) >> k with t = x + 2^(k-1) is x / (2^k - 1) rounded, for x <= (2^k - 1)^2
    for k in (8, 16):
        if b == 2 ** k:
            for u in a.atoms(IDIV):
                if u.args[1] == b and can(a - u - u.args[0]) == 0:
                    x = can(u.args[0] - 2 ** (k - 1))
                    l, h = facts.bounds(x)
                    if l is not None and l >= 0 and h is not None and h <= (2 ** k - 1) ** 2:
                        return IDIV(can(x + 2 ** (k - 1) - 1), sympy.Integer(2 ** k - 1))
    # floor(floor(x)/n)
    if a.func == FLOOR and b.is_number:
        return FLOOR(can(a.args[0] / b))
    return IDIV(a, b)


# -- comparing with the documented formula

def evaluate(e, env):
    """exact value of an expression (floats for roots and powers)"""
    import math
    e = sympy.sympify(e)
    if e.is_Rational:
        return Fraction(int(e.p), int(e.q))
    if e.is_Symbol:
        return env[e]
    if e is sympy.pi or e.is_NumberSymbol:
        return float(e)
    xs = [evaluate(a, env) for a in e.args] if e.func != WRAP and not (e.func == BITS) else None
    if e.is_Add:
        return sum(xs)
    if e.is_Mul:
        r = 1
        for x in xs:
            r = r * x
        return r
    if e.is_Pow:
        if xs[1] == int(xs[1]) and abs(xs[1]) < 20:
            return xs[0] ** int(xs[1])
        return float(xs[0]) ** float(xs[1])
    if e.func == IDIV:
        return Fraction(math.floor(xs[0] / xs[1]))
    if e.func == FLOOR:
        return Fraction(math.floor(xs[0]))
    if e.func == ROUND:
        return Fraction(math.floor(xs[0] + Fraction(1, 2))) if xs[0] >= 0 else Fraction(math.ceil(xs[0] - Fraction(1, 2)))
    if e.func == POWF:
        return float(xs[0]) ** float(xs[1])
    if e.func == COS:
        return math.cos(xs[0])
    if e.func == SIN:
        return math.sin(xs[0])
    if e.func == WRAP:
        x = evaluate(e.args[0], env)
        lo, hi = INT[str(e.args[1])]
        return Fraction((math.floor(x) - lo) % (hi - lo + 1) + lo)
    if e.func == BITS:
        a, b = int(evaluate(e.args[1], env)), int(evaluate(e.args[2], env))
        return Fraction({'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[str(e.args[0])])
    raise KeyError(e)


def holds(c, env):
    if c.op in ('op', 'nop'):
        return None
    v = evaluate(c.d(), env)
    return {'gt': v > 0, 'ge': v >= 0, 'eq': v == 0, 'ne': v != 0}[c.op]


def equal(a, b, facts):
    """are two formulas the same under the conditions?"""
    if can(a - b) == 0:
        return True
    # an expression fixed to one value by the conditions
    for q, iv in facts.iv.items():
        if isinstance(q, tuple):
            continue
        if iv[0] is not None and iv[0] == iv[2] and not iv[1] and not iv[3]:
            for y in sorted(q.free_symbols, key=str):
                try:
                    p = sympy.Poly(q - iv[0], y)
                except sympy.PolynomialError:
                    continue
                if p.degree() == 1:
                    z = can(-p.nth(0) / p.nth(1))
                    if can((a - b).subs(y, z)) == 0:
                        return True
    return False


def samples(sym, ranges, params):
    lo, hi = ranges.get(sym, (None, None))
    if sym in params:
        return [x for x in map(sympy.Rational, params[sym]) if (lo is None or x >= lo) and (hi is None or x <= hi)]
    if lo is not None and hi is not None:
        n = hi - lo
        if sym.is_integer:
            return sorted({lo, lo + 1, lo + 2, lo + n // 7, lo + n // 3, lo + n // 2, lo + n // 2 + 1, hi - n // 5, hi - 2, hi - 1, hi})
        return [lo + n * sympy.Rational(k, 8) for k in range(9)]
    return [sympy.Rational(x) for x in (-3, -1, '-1/2', 0, '1/4', '1/2', 1, 2, 7, 100, 300)]


def witness(conds, a, b, ranges, params, tries=4000):
    """values under which two formulas differ, None when none was found"""
    import random
    rnd = random.Random(1)
    syms = sorted({y for c in conds if c.op not in ('op', 'nop') for y in c.q.free_symbols} | a.free_symbols | b.free_symbols, key=str)
    pool = {y: [Fraction(int(v.p), int(v.q)) for v in map(sympy.Rational, samples(y, ranges, params))] for y in syms}
    total = 1
    for y in syms:
        total *= len(pool[y])
    import itertools
    gen = itertools.product(*[pool[y] for y in syms]) if total <= tries else ([rnd.choice(pool[y]) for y in syms] for _ in range(tries))
    for vals in gen:
        env = dict(zip(syms, vals))
        try:
            if any(holds(c, env) is False for c in conds):
                continue
            x, y = evaluate(a, env), evaluate(b, env)
        except (ZeroDivisionError, OverflowError, ValueError, KeyError, TypeError):
            continue
        if isinstance(x, complex) or isinstance(y, complex):
            continue
        if abs(x - y) > (0 if isinstance(x, Fraction) and isinstance(y, Fraction) else 1e-5 * (1 + abs(x))):
            return env, x, y
    return None
