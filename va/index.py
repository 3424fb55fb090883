"""Index maps: which element of which slice is copied to which element, as polynomials over loop counters and sizes.

A function on slices is walked once in control-flow order.  Loops are not unrolled: an iterator yields its k-th item for a symbolic k, chunk and zip
adapters turn k into offsets, and every element copy becomes an event (destination slice, index polynomial) <- (source slice, index polynomial) with the
trip counts of the enclosing loops."""
import re
from .facts import succs

STDENUM = {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break']}


class P:
    """polynomial with integer coefficients over named atoms"""
    __slots__ = ('t', 'k')

    def __init__(s, t):
        s.t = {m: c for m, c in t.items() if c}
        s.k = tuple(sorted(s.t.items(), key=repr))

    def __eq__(s, o):
        return isinstance(o, P) and s.k == o.k

    def __hash__(s):
        return hash(s.k)

    def __add__(s, o):
        t = dict(s.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return P(t)

    def __neg__(s):
        return P({m: -c for m, c in s.t.items()})

    def __sub__(s, o):
        return s + (-o)

    def __mul__(s, o):
        t = {}
        for m, c in s.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n, key=repr))
                t[k] = t.get(k, 0) + c * d
        return P(t)

    def const(s):
        return s.t.get((), 0) if all(m == () for m in s.t) else None

    def atoms(s):
        return {a for m in s.t for a in m}

    def __repr__(s):
        return ' + '.join(('%d*' % c if c != 1 or not m else '') * (1) + '*'.join(name(a) for a in m) if m else str(c) for m, c in s.k) or '0'


def name(a):
    if isinstance(a, tuple) and a[0] in ('div', 'rem', 'min'):
        return '(%r)%s(%r)' % (P(dict(a[1])), {'div': '/', 'rem': '%', 'min': ' min '}[a[0]], P(dict(a[2])))
    return str(a if not isinstance(a, tuple) else 'i%s' % '_'.join(map(str, a[1:])))


def N(c):
    return P({(): c})


def S(a):
    return P({(a,): 1})


def div(a, b):
    """floor of a quotient of non-negative values"""
    c = b.const()
    if c == 1:
        return a
    if c and c > 0 and a.const() is not None and a.const() >= 0:
        return N(a.const() // c)
    # exact division by a monomial
    if len(b.t) == 1:
        (m, d), = b.t.items()
        out = {}
        for n, e in a.t.items():
            r = list(n)
            ok = e % d == 0
            for x in m:
                if x in r:
                    r.remove(x)
                else:
                    ok = False
            if not ok:
                break
            out[tuple(r)] = e // d
        else:
            return P(out)
    if len(a.t) == 1:
        (m, d), = a.t.items()
        if d == 1 and len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'div':
            return div(P(dict(m[0][1])), P(dict(m[0][2])) * b)
        if len(b.t) == 1:
            # cancel common factors
            (n, e), = b.t.items()
            m, n = list(m), list(n)
            for x in list(n):
                if x in m:
                    m.remove(x)
                    n.remove(x)
            from math import gcd
            g = gcd(d, e) if d and e else 1
            a, b = P({tuple(m): d // g}), P({tuple(n): e // g})
            if b.const() == 1:
                return a
    return S(('div', a.k, b.k))


class TopT:
    def __repr__(s):
        return 'T'


TOP = TopT()


class Slice:
    def __init__(s, base, off, ln):
        s.base, s.off, s.len = base, off, ln

    def __repr__(s):
        return '%s[%r..+%r]' % (s.base, s.off, s.len)

    def key(s):
        return ('s', s.base, s.off, s.len)


class Elem:
    """reference to one element"""

    def __init__(s, base, idx):
        s.base, s.idx = base, idx

    def __repr__(s):
        return '&%s[%r]' % (s.base, s.idx)

    def key(s):
        return ('e', s.base, s.idx)


class Val:
    """a sample: the element a slice held at the start"""

    def __init__(s, base, idx, via=(), at=None):
        s.base, s.idx, s.via = base, idx, via
        s.when = at          # events before it was read

    def __repr__(s):
        return '%s%s[%r]' % (''.join(v + ' ' for v in s.via), s.base, s.idx)

    def key(s):
        return ('v', s.base, s.idx, s.via)


class Arr:
    def __init__(s, xs):
        s.xs = list(xs)

    def __repr__(s):
        return repr(s.xs)

    def key(s):
        return ('a',) + tuple(key(x) for x in s.xs)


class Tup(Arr):
    pass


class App:
    """result of a function of slices which is not looked into, at this point of the loop"""

    def __init__(s, sl, fn=None):
        s.sl, s.fn = sl, fn

    def __repr__(s):
        return 'f(%r)' % (s.sl,)

    def key(s):
        return ('app', key(s.sl))


class Num:
    """polynomial over samples: the exact arithmetic a value stands for"""

    def __init__(s, t, at=None):
        s.t = {m: c for m, c in t.items() if c}
        s.when = at

    def key(s):
        return ('num', tuple(sorted(s.t.items(), key=repr)))

    def __repr__(s):
        return 'num%r' % (s.t,)

    def add(s, o, sg=1):
        t = dict(s.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + sg * c
        return Num(t, first(s, o))

    def mul(s, o):
        t = {}
        for m, c in s.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n, key=repr))
                t[k] = t.get(k, 0) + c * d
        return Num(t, first(s, o))


def first(*xs):
    ws = [x.when for x in xs if x.t and set(x.t) != {()}]
    return None if not ws or None in ws else min(ws)


def num(v):
    """a value as a polynomial, None when it is not one"""
    from fractions import Fraction
    if isinstance(v, Num):
        return v
    if isinstance(v, Flt):
        return Num({(): Fraction(v.v)}) if v.v == v.v and abs(v.v) != float('inf') else None
    if isinstance(v, P):
        return Num({(): Fraction(v.const())}) if v.const() is not None else None
    if isinstance(v, Val) and not v.via:
        return Num({((v.base, v.idx),): Fraction(1)}, v.when)
    return None


def numop(op, a, b, approx=False):
    """arithmetic on samples; approx: in the reals, rounding and saturation left out"""
    x, y = num(a), num(b)
    if x is None or y is None:
        return None
    op = op.replace('Unchecked', '')
    if op == 'Add':
        return x.add(y)
    if op == 'Sub':
        return x.add(y, -1)
    if op == 'Mul':
        return x.mul(y)
    if op == 'Div' and set(y.t) == {()}:
        return Num({m: c / y.t[()] for m, c in x.t.items()}, x.when)
    if approx and op in ('Shl', 'Shr') and set(y.t) <= {()}:
        k = y.t.get((), 0)
        if k == int(k) and 0 <= k < 64:
            from fractions import Fraction
            f = Fraction(2) ** int(k)
            return Num({m: c * f if op == 'Shl' else c / f for m, c in x.t.items()}, x.when)
    return None


class Var:
    """value of an enum or struct"""

    def __init__(s, ty, v, xs, names=()):
        s.ty, s.v, s.xs, s.names = ty, v, list(xs), tuple(names)

    def __repr__(s):
        return '%s%r' % (s.v, s.xs)

    def key(s):
        return ('var', s.v) + tuple(key(x) for x in s.xs)


class Clo:
    def __init__(s, id, caps, gen=None):
        s.id, s.caps, s.gen = id, caps, gen

    def key(s):
        return ('clo', s.id, tuple(sorted((s.gen or {}).items())))


class Iter:
    def __init__(s, item, count, at=None):
        s.made, s.taken = None, 0     # where it was made, items taken off by next() in straight-line code
        s.item, s.count, s.at = item, count, at     # count: list of trip counts, the smallest of which applies

    def key(s):
        return ('it', id(s))


class Flt:
    def __init__(s, v):
        s.v = v

    def key(s):
        return ('f', s.v)

    def __repr__(s):
        return 'f%s' % s.v


def key(x):
    if isinstance(x, tuple):
        return ('t',) + tuple(key(y) if not isinstance(y, (str, int)) else y for y in x)
    if isinstance(x, P):
        return ('p', x)
    if x is TOP or x is None:
        return ('top',)
    if isinstance(x, bool):
        return ('b', x)
    return x.key()


class Event:
    """dst <- src for every value of the loop counters, under the guards"""
    __slots__ = ('dst', 'src', 'loops', 'fn', 'line', 'guards', 'seq')

    def __init__(s, dst, src, loops, fn, line, guards):
        s.dst, s.src, s.loops, s.fn, s.line, s.guards = dst, src, loops, fn, line, guards

    def __repr__(s):
        return '%r <- %r %r%s' % (s.dst, s.src, s.loops, ' if %r' % (s.guards,) if s.guards else '')


def family(b):
    return b[:2] if isinstance(b, tuple) and b[0] != 'in' else b[:1] if isinstance(b, tuple) else b


def distinct(a, b):
    """bases of one family that cannot be the same"""
    return len(a) == len(b) and any(isinstance(x, P) and isinstance(y, P) and (x - y).const() not in (None, 0) for x, y in zip(a, b))


class Stop(Exception):
    pass


class Run:
    def __init__(s, F, oracle=None):
        s.F = F
        s.events = []
        s.opaque = []
        s.tainted = set()    # families of bases written at unknown places
        s.fresh = 0
        s.loops = []         # stack of (symbol, [counts])
        s.depth = 0
        s.steps = 0
        s.oracle = oracle    # (fn name, args) -> value or None
        s.guards = ()        # conditions around the current point: (condition, outcome)
        s.esize = {}         # element size of a base, where a pointer cast made it matter
        s.lens = {}          # length of the bases made on the way
        s.calls = 0
        s.bytesof = set()    # buffers of wider integers whose elements are all 0..=255
        s.approx = False     # arithmetic in the reals: shifts divide, clamps do nothing

    def newbase(s, what):
        s.fresh += 1
        return (what, s.fresh)

    # -- events
    def write(s, dst, src, fn, line):
        e = Event(dst, src, tuple(s.loops), fn, line, s.guards)
        e.seq = len(s.events)
        s.events.append(e)

    def read(s, e):
        """what an element holds now, as far as this iteration wrote it"""
        for ev in reversed(s.events):
            if ev.loops != tuple(s.loops)[:len(ev.loops)] or ev.guards != s.guards[:len(ev.guards)]:
                if isinstance(ev.dst, (Elem, Slice)) and family(ev.dst.base) == family(e.base):
                    break
                continue
            if isinstance(ev.dst, (Elem, Slice)) and family(ev.dst.base) == family(e.base) and ev.dst.base != e.base and not (distinct(ev.dst.base, e.base)):
                break
            if isinstance(ev.dst, Elem) and ev.dst.base == e.base:
                if ev.dst.idx == e.idx:
                    return ev.src
            elif isinstance(ev.dst, Slice) and ev.dst.base == e.base and isinstance(ev.src, Slice):
                d = e.idx - ev.dst.off
                if inside(d, ev.dst.len):
                    return Val(ev.src.base, ev.src.off + d)
        return Val(e.base, e.idx, (), len(s.events))

    def content(s, sl):
        """the slice whose original contents sl holds now"""
        for ev in reversed(s.events):
            if isinstance(ev.dst, (Elem, Slice)) and ev.dst.base == sl.base:
                if isinstance(ev.dst, Slice) and isinstance(ev.src, Slice) and ev.dst.off == sl.off and ev.dst.len == sl.len and ev.loops == tuple(s.loops)[:len(ev.loops)] and ev.guards == s.guards[:len(ev.guards)]:
                    return ev.src
                break
        return sl

    # -- functions
    def call(s, fn, args, gen=None):
        if s.depth > 12 or any(isinstance(x, tuple) for x in args):
            return TOP
        s.depth += 1
        try:
            c = s.last = Ctx(s, fn, args, gen)
            v = c.walk()
            s.last = c
            return v
        finally:
            s.depth -= 1

    def closure(s, c, args, by):
        fn = s.F.fns.get(c.id)
        if fn is None:
            return TOP
        return s.call(fn, ([c] if fn.kind == 'Closure' else []) + list(args), c.gen or (by.gen if by is not None else None))


class Box:
    """allocation filled by one store"""

    def __init__(s):
        s.val = TOP

    def store(s, r, v):
        s.val = v

    def key(s):
        return ('box', id(s))


class Cell:
    """mutable reference to a local that holds registers"""

    def __init__(s, ctx, p):
        s.ctx, s.p = ctx, p

    def get(s, b=None):
        return s.ctx.place(s.p, b)

    def put(s, rest, v, line, b):
        l, e = (s.p, []) if isinstance(s.p, int) else s.p
        e = list(e) + list(rest)
        s.ctx.assign([l, e] if e else l, v, line, b)

    def key(s):
        return ('cell', id(s.ctx), repr(s.p))


def zero(run, items, pol=True):
    fam = {family(b) for b, _ in items}
    if any(not isinstance(e.dst, (Elem, Slice)) or family(e.dst.base) in fam for e in run.events):
        return TOP
    return Zero(items, pol)


class Zero:
    """is every one of these elements zero?"""

    def __init__(s, items, pol=True):
        s.items, s.pol = items, pol

    def key(s):
        return ('zero', s.items, s.pol)


def registers(v):
    return isinstance(v, Vec) or isinstance(v, (Var, Tup)) and any(registers(x) for x in v.xs)


class Vec:
    """a vector register: bytes, each a byte of a sample"""

    def __init__(s, by):
        s.by = list(by)

    def key(s):
        return ('vec', repr(s.by))


def subp(p, sym, k):
    out = N(0)
    for m, c in p.t.items():
        q = N(c)
        for x in m:
            q = q * (k if x == sym else S(suba(x, sym, k)) if isinstance(x, tuple) and x[0] in ('div', 'rem', 'min') else S(x))
        out = out + q
    return out


def suba(x, sym, k):
    return (x[0],) + tuple(subp(P(dict(y)), sym, k).k for y in x[1:])


def patoms(p):
    for a in p.atoms():
        if isinstance(a, tuple) and a[0] in ('div', 'rem', 'min'):
            for y in a[1:]:
                yield from patoms(P(dict(y)))
        else:
            yield a


def mentions(v, k):
    if isinstance(v, P):
        return k in set(patoms(v))
    if isinstance(v, Slice):
        return mentions(v.off, k) or mentions(v.len, k)
    if isinstance(v, (Elem, Val)):
        return mentions(v.idx, k)
    if isinstance(v, App):
        return mentions(v.sl, k)
    if isinstance(v, Num):
        return any(mentions(i, k) for m in v.t for _, i in m)
    if isinstance(v, (Arr, Var)):
        return any(mentions(x, k) for x in v.xs)
    if isinstance(v, tuple):
        return any(mentions(x, k) for x in v)
    return False


def GrowVec_():
    from .idxstd import GrowVec
    return GrowVec


def inside(d, ln):
    """is 0 <= d < ln evident?"""
    c, l = d.const(), ln.const()
    if c is not None and l is not None:
        return 0 <= c < l
    if c is not None:
        return c == 0
    return False


def loopsof(fn):
    """header -> set of blocks, natural loops"""
    out = {}
    idom = fn.idom()

    def dom(a, b):
        while b is not None:
            if a == b:
                return True
            n = idom.get(b) if isinstance(idom, dict) else idom[b]
            if n == b:
                return False
            b = n
        return False
    for b in fn.rpo():
        for h in fn.succ(b):
            if dom(h, b):
                body = {h, b}
                st = [b]
                while st:
                    x = st.pop()
                    if x == h:
                        continue
                    for p in fn.preds()[x]:
                        if p not in body:
                            body.add(p)
                            st.append(p)
                out.setdefault(h, set()).update(body)
    return out


class Ctx:
    def __init__(s, run, fn, args, gen=None):
        s.r, s.fn = run, fn
        s.gen = gen or {}    # const generics
        s.F = run.F
        s.env = {}
        s.defs = {}
        for i, a in enumerate(args):
            s.env[i + 1] = a
        s.lp = loopsof(fn)
        # locals assigned in several places
        d = {}
        for b in fn.rpo():
            for st in fn.blocks[b]['s']:
                if st[0] == '=' and isinstance(st[1], int):
                    d.setdefault(st[1], []).append((b, st[2]))
            t = fn.blocks[b]['t']
            if t['k'] == 'call' and isinstance(t.get('d'), int):
                d.setdefault(t['d'], []).append((b, None))
        s.alldefs = d
        s.induct = {}
        s.loopk = {}
        s.opened = {}
        run.calls += 1
        s.id = run.calls
        s.rl = {}            # reference local -> local it refers to
        for b in fn.rpo():
            for st in fn.blocks[b]['s']:
                if st[0] == '=' and isinstance(st[1], int) and st[2][0] in ('ref', 'raw') and isinstance(st[2][2], int) and st[2][1]:
                    s.rl[st[1]] = st[2][2]
        for b in fn.rpo():
            for st in fn.blocks[b]['s']:
                if st[0] == '=' and isinstance(st[1], int) and st[2][0] == 'ref' and isinstance(st[2][2], list) and st[2][2][1] == ['*'] and st[2][2][0] in s.rl:
                    s.rl[st[1]] = s.rl[st[2][2][0]]

    def inloops(s, b):
        return [h for h, body in s.lp.items() if b in body]

    def sym(s, b):
        return ('k', s.fn.name.split('::')[-1], b, s.id)

    def order(s, reach=None):
        """topological order of the acyclic part in which a loop is finished before what follows it"""
        fn = s.fn
        back = {(b, h) for h, body in s.lp.items() for b in body if h in fn.succ(b) }
        nodes = fn.rpo()
        pr = {b: [p for p in fn.preds()[b] if (p, b) not in back and p in set(nodes)] for b in nodes}
        left = {b: len(set(pr[b])) for b in nodes}
        ready = [b for b in nodes if left[b] == 0]
        out = []
        cur = []
        pos = {b: i for i, b in enumerate(nodes)}
        while ready:
            b = max(ready, key=lambda q: (len([h for h in cur if q in s.lp[h]]), -pos[q]))
            ready.remove(b)
            out.append(b)
            cur = s.inloops(b)
            for x in set(fn.succ(b)):
                if (b, x) in back or x not in left:
                    continue
                left[x] -= 1
                if left[x] == 0:
                    ready.append(x)
        return out, pr

    def walk(s):
        fn, r = s.fn, s.r
        base, gbase = list(r.loops), r.guards
        ret = []
        order, pr = s.order()
        for h, body in s.lp.items():
            for l, ds in s.alldefs.items():
                ins = [q for q in ds if q[0] in body]
                if ins:
                    s.induct.setdefault(l, []).append(h)
        envs, gin = {}, {}
        entry = dict(s.env)
        edges = {}           # (from, to) -> guard tuple suffix, for reached edges
        for b in order:
            ps = [p for p in pr[b] if (p, b) in edges]
            if b != 0 and not ps:
                continue
            r.steps += 1
            if r.steps > 20000:
                raise Stop('too large')
            if b == 0:
                s.env, g = entry, ()
            else:
                ins = [s.leave(envs[p], p, b) for p in sorted(ps)]
                s.env = s.merge(ins)
                gs = [edges[(p, b)] for p in ps]
                g = gs[0]
                for q in gs[1:]:
                    g = tuple(x for x, y in zip(g, q) if x == y)
                if len(gs) > 1:
                    # a guard whose other outcome leaves the function still holds
                    g = s.common(gs)
            hs = sorted(s.inloops(b), key=lambda h: -len(s.lp[h]))
            if b in s.lp:
                s.enterloop(b)
            r.loops = base + [s.loopk[h] for h in hs if h in s.loopk]
            r.guards = gbase + g
            for st in fn.blocks[b]['s']:
                if st[0] == '=':
                    s.assign(st[1], s.rvalue(st[2], b), st[3] if len(st) > 3 else 0, b)
            t = fn.blocks[b]['t']
            k = t['k']
            out = []
            if k == 'ret':
                ret += s.outs(b, pr, envs, edges)
            elif k == 'switch':
                out = s.switch(t, b)
            elif k == 'call':
                s.docall(t, b)
                if t.get('t') is not None:
                    out = [(t['t'], ())]
            elif k == 'assert':
                out = [(t['t'], ())]
            else:
                out = [(x, ()) for x in succs(t)]
            envs[b] = s.env
            for x, q in out:
                edges[(b, x)] = g + tuple(q)
        r.loops, r.guards = base, gbase
        if not ret:
            return TOP
        s.returned = ret
        ok = [x for x in ret if not (isinstance(x, Var) and x.v == 'Err')]
        if ok and all(key(x) == key(ok[0]) for x in ok):
            return ok[0]
        return TOP

    def outs(s, b, pr, envs, edges):
        """the values a return block is reached with"""
        seen = 0
        while not s.fn.blocks[b]['s'] and seen < 4:
            ps = [p for p in pr[b] if (p, b) in edges]
            if len(ps) != 1:
                break
            b, seen = ps[0], seen + 1
        ps = [p for p in pr[b] if (p, b) in edges]
        if len(ps) > 1 and not any(st[0] == '=' and st[1] == 0 for st in s.fn.blocks[b]['s']):
            out = []
            for p in ps:
                v = envs[p].get(0, TOP)
                out += s.outs1(p, v, pr, envs, edges, 0)
            return out
        return [s.env.get(0, TOP)]

    def outs1(s, b, v, pr, envs, edges, n):
        """look through joins behind which the return value is lost"""
        if v is not TOP or n > 6:
            return [v]
        if any(st[0] == '=' and st[1] == 0 for st in s.fn.blocks[b]['s']) or s.fn.blocks[b]['t'].get('d') == 0:
            return [v]
        ps = [p for p in pr[b] if (p, b) in edges]
        out = []
        for p in ps:
            out += s.outs1(p, envs[p].get(0, TOP), pr, envs, edges, n + 1)
        return out or [v]

    def common(s, gs):
        n = 0
        m = min(len(g) for g in gs)
        while n < m and all(g[n] == gs[0][n] for g in gs):
            n += 1
        return gs[0][:n]

    def leave(s, env, p, b):
        """values after the loops an edge leaves"""
        gone = [h for h in s.inloops(p) if b not in s.lp[h] and h in s.loopk]
        if not gone:
            return env
        env = dict(env)
        for h in gone:
            k, n = s.loopk[h]
            for l, v in list(env.items()):
                if not mentions(v, k):
                    continue
                if isinstance(v, P) and p == h or isinstance(v, P) and any(q[0] == l for q in s.opened.get(h, ())):
                    env[l] = subp(v, k, n[0]) if n is not None and len(set(n)) == 1 else TOP
                else:
                    env[l] = TOP
        return env

    def merge(s, ins):
        if len(ins) == 1:
            return dict(ins[0])
        out = {}
        for l in set().union(*ins):
            vs = [e[l] for e in ins if l in e]
            if len(vs) == len(ins) and all(v is vs[0] or key(v) == key(vs[0]) for v in vs):
                out[l] = vs[0]
            elif len(vs) < len(ins):
                continue        # not set on every way: dead
            else:
                out[l] = TOP
        return out

    def enterloop(s, h):
        for l, hs in s.induct.items():
            if h not in hs or l not in s.env:
                continue
            ds = [q for q in s.alldefs[l] if q[0] in s.lp[h]]
            step = None
            v0 = s.env.get(l)
            if isinstance(v0, Iter) or isinstance(v0, GrowVec_()):
                continue
            if len(ds) == 1 and ds[0][1] is not None and isinstance(v0, P) and s.each(ds[0][0], h):
                step = s.step(l, ds[0][1], h)
            if step is not None:
                if h not in s.loopk:
                    s.loopk[h] = (s.sym(h), None)
                s.env[l] = v0 + S(s.loopk[h][0]) * step
                s.opened.setdefault(h, []).append((l, v0, step))
                continue
            if isinstance(v0, Slice) and len(ds) == 1 and ds[0][1] is not None and s.each(ds[0][0], h):
                d = s.advance(l, ds[0][1], h)
                if d is not None:
                    if h not in s.loopk:
                        s.loopk[h] = (s.sym(h), None)
                    k = S(s.loopk[h][0]) * d
                    s.env[l] = Slice(v0.base, v0.off + k, v0.len - k)
                    continue
            s.env[l] = TOP

    def advance(s, l, rv, h):
        """x = &mut x[c..] -> c"""
        def origin(p):
            for _ in range(8):
                if p == l:
                    return l
                ds = s.alldefs.get(p, [])
                if len(ds) != 1:
                    return None
                rv = ds[0][1]
                if rv is None:
                    t = s.fn.blocks[ds[0][0]]['t']
                    return t if t['k'] == 'call' and t.get('d') == p else None
                q = rv[2] if rv[0] in ('ref', 'raw') else rv[1][1] if rv[0] == 'use' and rv[1][0] != 'k' else None
                p = q[0] if isinstance(q, list) and q[1] == ['*'] else q
                if not isinstance(p, int):
                    return None
            return None
        q = rv[2] if rv[0] in ('ref', 'raw') else rv[1][1] if rv[0] == 'use' and rv[1][0] != 'k' else None
        p = q[0] if isinstance(q, list) and q[1] == ['*'] else q
        t = origin(p) if isinstance(p, int) and p != l else None
        if not isinstance(t, dict):
            return None
        f = t['f'][1].get('v') if t['f'][0] == 'k' else None
        if not isinstance(f, dict) or f.get('name', '').split('::')[-1] not in ('index', 'index_mut') or len(t['a']) != 2:
            return None
        if any(a[0] == 'k' for a in t['a']) or not all(isinstance(a[1], int) for a in t['a']) or origin(t['a'][0][1]) != l:
            return None
        ds = s.alldefs.get(t['a'][1][1], [])
        if len(ds) != 1 or ds[0][1] is None or ds[0][1][0] != 'agg' or ds[0][1][1] != 'adt' or ds[0][1][3].split('::')[-1] != 'RangeFrom':
            return None
        o = ds[0][1][2][0]
        d = s.cval(o[1].get('v')) if o[0] == 'k' else s.inv(o[1], h)
        return d if isinstance(d, P) else None

    def each(s, b, h):
        """is block b on every way round the loop?"""
        dom = s.fn.idom()
        for p in s.lp[h]:
            if h in s.fn.succ(p):
                x = p
                while x != b:
                    n = dom.get(x)
                    if x == h or n is None or n == x:
                        return False
                    x = n
        # not in an inner loop
        return len(s.inloops(b)) == len(s.inloops(h))

    def step(s, l, rv, h):
        """x = x + c -> c"""
        for _ in range(4):
            if rv is None:
                return None
            if rv[0] == 'use' and rv[1][0] in ('c', 'm'):
                p = rv[1][1]
                if isinstance(p, list) and len(p[1]) == 1 and p[1][0][0] == 'f':
                    p = p[0]
                if not isinstance(p, int):
                    return None
                ds = s.alldefs.get(p, [])
                if len(ds) != 1:
                    return None
                rv = ds[0][1]
                continue
            if rv[0] == 'bin' and rv[1].startswith(('Add', 'Sub')):
                a, c = s.src(rv[2]), rv[3]
                if a != l:
                    return None
                if c[0] == 'k':
                    d = s.cval(c[1].get('v'))
                else:
                    d = s.inv(c[1], h)
                if isinstance(d, P):
                    return d if rv[1].startswith('Add') else -d
                return None
            return None
        return None

    def src(s, o):
        """local an operand copies"""
        for _ in range(4):
            if o[0] == 'k' or not isinstance(o[1], int):
                return None
            ds = s.alldefs.get(o[1], [])
            if len(ds) == 1 and ds[0][1] is not None and ds[0][1][0] == 'use':
                o = ds[0][1][1]
                if o[0] != 'k' and isinstance(o[1], int) and len(s.alldefs.get(o[1], [])) > 1:
                    return o[1]
                continue
            return o[1]
        return None

    def inv(s, p, h):
        """value of a place that does not change in the loop"""
        for _ in range(6):
            if not isinstance(p, int):
                return None
            ds = s.alldefs.get(p, [])
            if not any(q[0] in s.lp[h] for q in ds):
                return s.env.get(p)
            if len(ds) == 1 and ds[0][1] is not None and ds[0][1][0] == 'use':
                o = ds[0][1][1]
                if o[0] == 'k':
                    return s.cval(o[1].get('v'))
                p = o[1]
                continue
            return None
        return None

    # -- places
    def place(s, p, b):
        if isinstance(p, int):
            v = s.env.get(p, TOP)
            return v
        v = s.env.get(p[0], TOP)
        for e in p[1]:
            v = s.proj(v, e, b)
        return v

    def proj(s, v, e, b):
        if v is TOP:
            return TOP
        if e == '*':
            return s.r.read(v) if isinstance(v, Elem) else v.get(b) if isinstance(v, Cell) else v
        if isinstance(v, Cell):
            v = v.get(b)
        k = e[0]
        if isinstance(v, Clo) and k == 'f':
            return v.caps[e[1]] if e[1] < len(v.caps) else TOP
        if k == 'f':
            if isinstance(v, (Tup, Var)) and e[1] < len(v.xs):
                return v.xs[e[1]]
            if isinstance(v, (Arr, Slice, Box)):
                return v          # wrappers around slices
            return TOP
        if k == 'd':
            return v if not isinstance(v, Var) or v.v.rstrip('?') == e[2] else TOP
        if k == 'i' or k == 'ci':
            if k == 'i':
                i = s.env.get(e[1], TOP)
            else:
                i = N(e[1]) if not e[2] else TOP
                if e[2] and isinstance(v, Slice):
                    i = v.len - N(e[1])
            if isinstance(v, Slice) and isinstance(i, P):
                return s.r.read(Elem(v.base, v.off + i)) if not s.lval else Elem(v.base, v.off + i)
            if isinstance(v, Arr) and isinstance(i, P) and i.const() is not None and i.const() < len(v.xs):
                return v.xs[i.const()]
            f = getattr(v, 'at', None)
            if isinstance(v, Seq) and isinstance(i, P):
                return v.item(i)
            return TOP
        if k == 's' and isinstance(v, Slice):
            fr, to, end = N(e[1]), N(e[2]), e[3] if len(e) > 3 else False
            return Slice(v.base, v.off + fr, (v.len - to if end else to) - fr)
        return TOP
    lval = False

    def addr(s, p, b):
        """reference to a place"""
        if isinstance(p, int):
            return s.env.get(p, TOP)
        v = s.env.get(p[0], TOP)
        n = len(p[1])
        for j, e in enumerate(p[1]):
            if e == '*' and isinstance(v, Elem) and j == n - 1:
                return v
            if isinstance(e, (list, tuple)) and e[0] in ('i', 'ci') and isinstance(v, Slice) and j == n - 1:
                s.lval = True
                try:
                    return s.proj(v, e, b)
                finally:
                    s.lval = False
            v = s.proj(v, e, b)
        return v

    def assign(s, p, v, line, b):
        if isinstance(p, int):
            s.env[p] = v
            return
        if isinstance(s.env.get(p[0]), Cell) and p[1] and p[1][0] == '*':
            s.env[p[0]].put(p[1][1:], v, line, b)
            return
        if p[1] and p[1][-1] == '*' or p[1] and isinstance(p[1][-1], (list, tuple)) and p[1][-1][0] in ('i', 'ci'):
            a = s.addr(p, b)
            if isinstance(a, Elem):
                s.r.write(a, v, s.fn, line)
                return
            if hasattr(a, 'store') and p[1][-1] == '*':
                a.store(s.r, v)
                return
            if p[1][-1] == '*' and isinstance(p[0], int) and len(p[1]) == 1 and p[0] in s.rl and not isinstance(a, Slice):
                s.env[s.rl[p[0]]] = v
                return
            q = s.place([p[0], p[1][:-1]], b) if p[1][-1] != '*' else None
            if isinstance(q, Slice):
                s.r.tainted.add(family(q.base))
            elif not s.other(p):
                s.r.opaque.append((s.fn.name, line))
            return
        a = s.env.get(p[0])
        if hasattr(a, 'store') and '*' in p[1]:
            a.store(s.r, v)
            return
        if len(p[1]) == 1 and p[1][0][0] == 'f' and isinstance(s.env.get(p[0]), (Tup, Var)):
            o = s.env[p[0]]
            xs = list(o.xs)
            if p[1][0][1] < len(xs):
                xs[p[1][0][1]] = v
                s.env[p[0]] = Tup(xs) if isinstance(o, Tup) else Var(o.ty, o.v, xs, o.names)
                return
        s.env[p[0]] = TOP

    def other(s, p):
        """is the place of a type samples do not have?"""
        ty = s.fn.locals[p[0]]
        for e in p[1]:
            if e == '*':
                ty = re.sub(r"^&('\w+ )?(mut )?|^\*(mut|const) ", '', ty)
            elif isinstance(e, (list, tuple)) and e[0] in ('i', 'ci'):
                m = re.match(r'\[(\w+)[\];]', ty)
                if not m:
                    return False
                ty = m.group(1)
            else:
                return False
        return ty in ('f64', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize', 'bool')

    # -- values
    def operand(s, o, b):
        if o[0] == 'k':
            return s.const(o[1])
        return s.place(o[1], b)

    def const(s, c):
        v = c.get('v')
        if v is None and c.get('param') in s.gen:
            return N(s.gen[c['param']])
        return s.cval(v, c.get('t', ''))

    def cval(s, v, t=''):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            if t == 'bool':
                return bool(v)
            return N(v)
        if isinstance(v, str) and v.startswith('f:'):
            try:
                return Flt(float(v[2:]))
            except ValueError:
                return TOP
        if isinstance(v, dict):
            if 'ref' in v:
                return s.cval(v['ref'])
            if 'adt' in v:
                f = v.get('f') or {}
                return Var(v['adt'], v.get('v'), [s.cval(x) for x in (f.values() if isinstance(f, dict) else f)])
            if 'fn' in v:
                f, q = s.F.fns.get(v.get('res') or v['fn']), v.get('args') or []
                names = (f.d.get('gen') or []) if f is not None else []
                lit = {'true': 1, 'false': 0}
                gen = {n: lit[x] if x in lit else int(x) for n, x in zip(names, q) if x in lit or re.match(r'\d+$', str(x))} if len(names) == len(q) else None
                return Clo(v['fn'], [], gen)
            if 'zst' in v:
                m = re.search(r'\{closure', str(v['zst']))
                return Clo(v['zst'], []) if m and v['zst'] in s.F.fns else TOP
            if 'arr' in v:
                return Arr([s.cval(x) for x in v['arr']])
        if isinstance(v, list):
            return Arr([s.cval(x) for x in v])
        return TOP

    def rvalue(s, r, b):
        k = r[0]
        if k == 'use':
            return s.operand(r[1], b)
        if k in ('ref', 'raw'):
            v = s.addr(r[2], b)
            if s.r.approx and r[1]:
                if isinstance(r[2], list) and r[2][1] == ['*'] and isinstance(s.env.get(r[2][0]), Cell):
                    return s.env[r[2][0]]
                if registers(v):
                    return Cell(s, r[2])
            return v
        if k == 'bin':
            return s.binop(r[1], s.operand(r[2], b), s.operand(r[3], b))
        if k == 'un':
            x = s.operand(r[2], b)
            if r[1] == 'PtrMetadata':
                return x.len if isinstance(x, Slice) else N(len(x.xs)) if isinstance(x, Arr) else TOP
            if r[1] == 'Not' and isinstance(x, Zero):
                return Zero(x.items, not x.pol)
            if r[1] == 'Not' and isinstance(x, bool):
                return not x
            if r[1] == 'Neg' and isinstance(x, P):
                return -x
            if r[1] == 'Neg' and isinstance(x, Flt):
                return Flt(-x.v)
            if r[1] == 'Neg' and isinstance(x, (Val, Num)):
                return numop('Sub', N(0), x) or TOP
            return TOP
        if k == 'cast':
            x = s.operand(r[2], b)
            if r[1] in ('IntToInt', 'BoxDerefTransmute') or r[1].startswith('PointerCoercion') or 'Ptr' in r[1] or r[1] in ('Subtype',):
                return x
            if r[1] == 'FloatToInt' and s.r.approx and isinstance(x, Flt):
                return N(int(x.v))
            if r[1] == 'IntToFloat' and isinstance(x, P) and x.const() is not None:
                return Flt(float(x.const()))
            if r[1] in ('IntToFloat', 'FloatToFloat') and isinstance(x, (Num, Val, Flt)):
                return x
            return TOP
        if k == 'agg':
            xs = [s.operand(o, b) for o in r[2]]
            if r[1] == 'closure':
                return Clo(r[3], xs)
            if r[1] == 'adt':
                return Var(r[3], r[4], xs, r[6] if len(r) > 6 else ())
            if r[1] == 'array':
                return Arr(xs)
            return Tup(xs)
        if k == 'repeat':
            m = re.match(r'(\d+)', str(s.gen.get(r[2], r[2])))
            if m and int(m.group(1)) <= 16 and False:
                return Arr([s.operand(r[1], b)] * int(m.group(1)))
            if m:
                nb = s.r.newbase('array')
                s.r.lens[nb] = N(int(m.group(1)))
                return Slice(nb, N(0), N(int(m.group(1))))
            return TOP
        if k == 'discr':
            v = s.place(r[1], b)
            return ('d', v, r[2])
        if k == 'len':
            v = s.place(r[1], b)
            return v.len if isinstance(v, Slice) else TOP
        return TOP

    def binop(s, op, a, b):
        if isinstance(a, P) and isinstance(b, P):
            if op.endswith('WithOverflow'):
                return Tup([s.binop(op[:-12], a, b), False])
            op = op.replace('Unchecked', '')
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mul':
                return a * b
            if op == 'Div':
                return div(a, b) if b.const() != 0 else TOP
            if op == 'Rem':
                q = div(a, b)
                d = a - q * b
                return d if d == N(0) or d.const() is not None else S(('rem', a.k, b.k))
            if op == 'BitAnd' and b.const() is not None and (b.const() + 1) & b.const() == 0 or op == 'BitAnd' and a.const() is not None and (a.const() + 1) & a.const() == 0:
                if a.const() is not None:
                    a, b = b, a
                m = N(b.const() + 1)
                if a.const() is not None:
                    return N(a.const() & b.const())
                return S(('rem', a.k, m.k))
            if op == 'Shl' and b.const() is not None:
                return a * N(1 << b.const())
            if op == 'Shr' and b.const() is not None:
                return div(a, N(1 << b.const()))
            x, y = a.const(), b.const()
            if op == 'Eq' and a == b:
                return True
            if x is not None and y is not None:
                return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}.get(op, TOP)
            return ('cmp', op, a, b)
        if isinstance(a, Flt) and isinstance(b, Flt):
            x, y = a.v, b.v
            try:
                z = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x / y, 'Rem': lambda: x % y if x >= 0 else -((-x) % y),
                     'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Gt': lambda: x > y, 'Ge': lambda: x >= y}[op]()
            except (KeyError, ZeroDivisionError):
                return TOP
            return z if isinstance(z, bool) else Flt(z)
        if isinstance(a, (Val, Num)) or isinstance(b, (Val, Num)):
            w = op.endswith('WithOverflow')
            v = numop(op[:-12] if w else op, a, b, s.r.approx)
            return TOP if v is None else Tup([v, False]) if w else v
        if isinstance(a, Zero) and isinstance(b, P) and b.const() in (0, 1) and op in ('Eq', 'Ne'):
            return Zero(a.items, a.pol == ((b.const() == 1) == (op == 'Eq')))
        if isinstance(a, bool) and isinstance(b, bool):
            return {'Eq': a == b, 'Ne': a != b, 'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b}.get(op, TOP)
        if op in ('BitAnd', 'BitOr') and (isinstance(a, bool) or isinstance(b, bool)):
            k = a if isinstance(a, bool) else b
            if k is (op == 'BitOr'):
                return k
        return TOP

    def switch(s, t, b):
        d = s.operand(t['d'], b)
        edges = [(v, x) for v, x in t['c']]
        other = t.get('o')
        if other is not None and s.fn.blocks[other]['t']['k'] == 'unreachable':
            other = None
        allx = [(x, ()) for _, x in edges] + ([(other, ())] if other is not None else [])

        def only(n):
            for c, x in edges:
                if c == n:
                    return [(x, ())]
            return [(other, ())] if other is not None else []
        if isinstance(d, tuple) and d[0] == 'd':
            v, ty = d[1], d[2]
            if isinstance(v, Var) and v.v != 'Some?':
                n = None
                base = re.sub(r'<.*', '', ty).split('::')[-1]
                if base in STDENUM and v.v in STDENUM[base]:
                    n = STDENUM[base].index(v.v)
                elif v.ty in s.F.adts:
                    for q in s.F.adts[v.ty]['v']:
                        if q['n'] == v.v:
                            n = q.get('d')
                if isinstance(n, int):
                    return only(n)
            if isinstance(v, Var) and v.v == 'Some?' and v.names and isinstance(v.names[0], tuple):
                some = only(1)
                return [(x, ((v.names[0], x == some[0][0]),)) for x, _ in allx if not s.dead(x)]
            if isinstance(v, Var) and v.v == 'Some?':
                return allx
            return s.both(allx, b, ty)
        if isinstance(d, bool):
            d = N(int(d))
        if isinstance(d, Zero) and not s.r.loops and not s.inloops(b):
            yes = only(1)
            return [(x, ((('zero', d.items), (x == yes[0][0]) == d.pol),)) for x, _ in allx]
        if isinstance(d, P) and d.const() is not None:
            return only(d.const())
        if isinstance(d, tuple) and d[0] == 'cmp':
            # i < n at the head of a counting loop
            for h in s.inloops(b):
                for l, v0, step in s.opened.get(h, ()):
                    i = v0 + S(s.loopk[h][0]) * step
                    out = [x for x, _ in allx if x not in s.lp[h]]
                    if len(out) != 1 or s.loopk[h][1] is not None or not step.const():
                        continue
                    n = None
                    if d[1] == 'Lt' and d[2] == i and step.const() > 0:
                        n = div(d[3] - v0 + step - N(1), step)
                    elif d[1] == 'Le' and d[2] == i and step.const() > 0:
                        n = div(d[3] - v0 + step, step)
                    elif d[1] == 'Gt' and d[3] == i and step.const() > 0:
                        n = div(d[2] - v0 + step - N(1), step)
                    if n is not None and s.pure(b, h):
                        s.loopk[h] = (s.loopk[h][0], (n,))
                        return allx
            if len(edges) == 1 and edges[0][0] == 0 and other is not None:
                a, z = s.dead(edges[0][1]), s.dead(other)
                if a != z:
                    return [(other if a else edges[0][1], ())]
                return [(edges[0][1], ((d, False),)), (other, ((d, True),))]
        if isinstance(d, P) and len(allx) > 1:
            out = [(x, ((('cmp', 'Eq', d, N(c)), True),)) for c, x in edges]
            if other is not None:
                out.append((other, tuple((('cmp', 'Eq', d, N(c)), False) for c, x in edges)))
            return out
        return s.both(allx, b, 'value')

    def pure(s, b, h):
        """the exit test comes before anything else the loop does"""
        x = h
        for _ in range(8):
            if x == b:
                return True
            t = s.fn.blocks[x]['t']
            if t['k'] not in ('goto', 'assert'):
                return False
            x = s.fn.succ(x)[0]
        return False

    def both(s, allx, b, what):
        if len(allx) < 2:
            return allx
        live = [x for x, _ in allx if not s.dead(x)]
        if len(live) == 1:
            return [(live[0], ())]
        inl = bool(s.r.loops) or bool(s.inloops(b))
        return [(x, ((('unk', inl, s.id, b), i),)) for i, (x, _) in enumerate(allx) if x in live]

    def dead(s, b):
        """does every way from here end in a panic?"""
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if s.fn.blocks[x]['t']['k'] == 'ret':
                return False
            st += s.fn.succ(x)
        return True

    # -- calls
    def docall(s, t, b):
        f = t['f']
        args = [s.operand(a, b) for a in t['a']]
        v = TOP
        if f[0] == 'k' and isinstance(f[1].get('v'), dict) and 'name' in f[1]['v']:
            v = s.known(f[1]['v'], args, t, b)
        else:
            s.escape(args, t, b)
        for a in t['a']:
            if a[0] in ('c', 'm') and isinstance(a[1], int) and a[1] in s.rl:
                o = s.rl[a[1]]
                if isinstance(s.env.get(a[1]), Cell):
                    continue
                if isinstance(s.env.get(o), (P, bool, Flt, Tup, Var, Vec)) and (v is TOP or v is None) and not s.keeps(t):
                    s.env[o] = TOP
        d = t.get('d')
        if isinstance(v, Iter) and v.made is None:
            v.made = (len(s.r.loops), s.r.guards)
        if d is not None:
            s.assign(d, v, t.get('l', 0), b)

    def escape(s, args, t, b):
        if any(isinstance(a, (Slice, Elem)) for a in args):
            s.r.opaque.append((s.fn.name, t.get('l', 0)))

    def keeps(s, t):
        f = t['f'][1].get('v') if t['f'][0] == 'k' else None
        return isinstance(f, dict) and f.get('name', '').split('::')[-1] in ('next', '_MM_TRANSPOSE4_PS', 'into_iter', 'by_ref')

    def known(s, c, args, t, b):
        n = c['name']
        op = n.split('::')[-1]
        if s.r.oracle is not None:
            v = s.r.oracle(s, c, args, t, b)
            if v is not None:
                return v
        fid = c.get('res') or c['fn']
        fn = s.F.fns.get(fid) or s.F.fns.get(c['fn'])
        if n.startswith('core::ops::function::Fn') and args and isinstance(args[0], Clo):
            xs = args[1].xs if len(args) > 1 and isinstance(args[1], Tup) else args[1:]
            g = s.F.fns.get(args[0].id)
            if g is not None:
                return s.r.call(g, ([args[0]] if g.kind == 'Closure' else []) + list(xs))
            return TOP
        if fn is not None and n.split('::')[0] not in ('core', 'alloc', 'std') or fn is not None and (fn.kind == 'Closure' or s.r.approx and n.startswith('core::ops::arith')):
            return s.r.call(fn, args, s.generics(fn, c))
        from . import idxstd
        if n.startswith('core::core_arch') or op.startswith('_mm_') or op == '_MM_TRANSPOSE4_PS':
            return idxstd.simd(s, op, c, args, t, b)
        v = idxstd.std(s, c, op, args, t, b)
        if v is None:
            ty = ' '.join(t.get('at') or [])
            if op == 'index_mut' and args and isinstance(args[0], Slice):
                s.r.tainted.add(family(args[0].base))      # an element or part nobody knows
            elif any(isinstance(a, (Slice, Elem)) for a in args) and '&mut' in ty:
                s.r.opaque.append((s.fn.name, t.get('l', 0)))
            return TOP
        return v

    def generics(s, fn, c):
        """const generics of a callee"""
        names, vals = fn.d.get('gen') or [], c.get('args') or []
        if c.get('res') not in (None, c['fn']) or len(names) != len(vals):
            return s.gen if fn.kind == 'Closure' else None
        out = {}
        for n, v in zip(names, vals):
            if v in s.gen:
                out[n] = s.gen[v]
            elif re.match(r'\d+$', str(v)):
                out[n] = int(v)
        return out

    def open(s, it, b):
        """item of the iterator driven by the loop around block b"""
        hs = [h for h in s.inloops(b)]
        if not hs:
            return None
        h = min(hs, key=lambda q: len(s.lp[q]))
        k = s.loopk.get(h)
        if k is None:
            k = (s.sym(h), tuple(it.count) if it.count is not None else None)
        elif k[1] is None and it.count is not None:
            k = (k[0], tuple(it.count))
        s.loopk[h] = k
        return it.item(S(k[0]))


class Seq:
    """a list with an item for every index"""

    def __init__(s, item, count):
        s.item, s.count = item, count

    def key(s):
        return ('seq', id(s))
