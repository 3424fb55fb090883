"""Interprocedural dataflow over MIR: conditional constant propagation with
global value numbering.

Abstract state at a program point = (memory: access path -> value number,
facts: set of atomic conditions known to hold).  States are merged at every
join (no path enumeration, no solver): differing values become phi nodes which
remember, per incoming edge, the facts of that edge, so that a later switch on
the phi can drop the edges it excludes.  Loop headers are iterated to a
fixpoint, differing values become opaque loop symbols.  Callees with known
bodies are analysed in place when the rule's `inline` policy says so; all other
calls yield fresh symbols and forget everything reachable through the mutable
references they were given.
"""
import re, sys
from .facts import callee, rid, rname, succs

sys.setrecursionlimit(20000)
ITERATION = re.compile(r'^core::(iter::traits::|slice::<impl \[T\]>::(iter|iter_mut|contains)$)')


# ------------------------------------------------------------------ values
class V:
    __slots__ = ('tag', 'a', 'depth', 'n')

    def __repr__(s):
        return show(s)


_tab = {}
_cnt = [0]


def mk(tag, *a):
    k = (tag,) + a
    v = _tab.get(k)
    if v is None:
        v = V()
        v.tag = tag
        v.a = a
        d = 0
        for x in a:
            if isinstance(x, V):
                if x.depth > d:
                    d = x.depth
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, V) and y.depth > d:
                        d = y.depth
        v.depth = d + 1
        _cnt[0] += 1
        v.n = _cnt[0]
        _tab[k] = v
    return v


def reset():
    _tab.clear()


def C(x):
    # bools and ints must not collide in the intern table
    return mk('c', type(x).__name__, x)


def isc(v):
    return v.tag == 'c'


def cv(v):
    return v.a[1]


def show(v, d=0):
    if not isinstance(v, V):
        return repr(v)
    if d > 7:
        return '…'
    t = v.tag
    if t == 'c':
        return repr(v.a[1])
    if t == 'op':
        return '(%s %s %s)' % (show(v.a[1], d + 1), v.a[0], show(v.a[2], d + 1))
    if t == 'un':
        return '%s(%s)' % (v.a[0], show(v.a[1], d + 1))
    if t == 'cast':
        return '%s as %s' % (show(v.a[1], d + 1), v.a[0])
    if t == 'agg':
        k, nm, var, fs, names = v.a
        if k == 'adt':
            return '%s::%s{%s}' % (nm.split('::')[-1], var, ', '.join(show(x, d + 1) for x in fs))
        return '%s(%s)' % (k, ', '.join(show(x, d + 1) for x in fs))
    if t == 'proj':
        return '%s.%s' % (show(v.a[0], d + 1), '.'.join(map(str, v.a[1][1:] if v.a[1][0] == 'f' else v.a[1])))
    if t == 'init':
        return '[%s]' % showp(v.a[0])
    if t == 'ref':
        return '&%s' % showp(v.a[0])
    if t == 'phi':
        return 'phi(%s)' % ', '.join(show(x, d + 2) for x in v.a[1])
    if t == 'call':
        return '%s(%s)' % (v.a[0].split('::')[-1], ', '.join(show(x, d + 1) for x in v.a[1]))
    return '%s(%s)' % (t, ', '.join(show(x, d + 1) if isinstance(x, V) else str(x)[-40:] for x in v.a))


def showp(p):
    return '.'.join(show(x) if isinstance(x, V) else (str(x[2]) if isinstance(x, tuple) and x and x[0] == 'f' else str(x)[-30:]) for x in p)


# integer type info
_W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128, 'char': 32, 'bool': 1}


def trunc(x, t):
    if t == 'bool':
        return bool(x)
    if t not in _W or isinstance(x, (str, bool)):
        return x
    w = _W[t]
    x &= (1 << w) - 1
    if t[0] == 'i' and x >> (w - 1):
        x -= 1 << w
    return x


COMM = {'Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne'}
BOOLOPS = {'Eq', 'Ne', 'Lt', 'Le'}


def intc(v):
    return v.tag == 'c' and isinstance(v.a[1], (int, bool)) and not isinstance(v.a[1], str)


def binop(op, x, y, ty=''):
    op = {'AddUnchecked': 'Add', 'SubUnchecked': 'Sub', 'MulUnchecked': 'Mul', 'ShlUnchecked': 'Shl', 'ShrUnchecked': 'Shr'}.get(op, op)
    if op == 'Gt':
        return binop('Lt', y, x, ty)
    if op == 'Ge':
        return binop('Le', y, x, ty)
    if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
        b = op[:3]
        r = binop(b, x, y, ty)
        return mk('agg', 'tuple', '', '', (r, mk('un', 'ovf' + b, r)), ())
    if intc(x) and intc(y):
        a, b = int(x.a[1]), int(y.a[1])
        try:
            r = {
                'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b,
                'Div': lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) if b else None,
                'Rem': lambda: (abs(a) % abs(b)) * (-1 if a < 0 else 1) if b else None,
                'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b,
                'Shl': lambda: a << (b & 127), 'Shr': lambda: a >> (b & 127),
                'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b,
            }[op]()
            if r is not None:
                if op in BOOLOPS:
                    return C(bool(r))
                return C(trunc(r, ty) if ty else r)
        except KeyError:
            pass
    if op in BOOLOPS and x is y and x.tag != 'opaque' and not ty.startswith('f'):
        return C(op in ('Eq', 'Le'))
    if op in ('Eq', 'Ne') and ty == 'bool':
        for p, q in ((x, y), (y, x)):
            if intc(p):
                want = bool(cv(p)) == (op == 'Eq')
                return q if want else unop('Not', q, 'bool')
    if op == 'BitAnd' or op == 'BitOr':
        if intc(x):
            x, y = y, x
        if intc(y):
            c = cv(y)
            if isinstance(c, bool):
                if op == 'BitAnd':
                    return x if c else C(False)
                return C(True) if c else x
            if c == 0:
                return C(0) if op == 'BitAnd' else x
            if op == 'BitAnd' and x.tag == 'op' and x.a[0] in ('BitOr', 'BitAnd') and intc(x.a[2]):
                c1 = cv(x.a[2])
                if x.a[0] == 'BitAnd':
                    return binop('BitAnd', x.a[1], C(c1 & c), ty)
                return binop('BitOr', binop('BitAnd', x.a[1], C(c & ~c1), ty), C(c1 & c), ty)
            if op == 'BitOr' and x.tag == 'op' and x.a[0] == 'BitOr' and intc(x.a[2]):
                return binop('BitOr', x.a[1], C(cv(x.a[2]) | c), ty)
            if op == 'BitOr' and x.tag == 'op' and x.a[0] == 'BitAnd' and intc(x.a[2]) and (cv(x.a[2]) & c):
                return binop('BitOr', binop('BitAnd', x.a[1], C(cv(x.a[2]) & ~c), ty), y, ty)
        elif x is y:
            return x
    if op in ('Add', 'Sub', 'Shl', 'Shr', 'BitXor') and intc(y) and cv(y) == 0:
        return x
    if op == 'Add' and intc(x) and cv(x) == 0:
        return y
    if op == 'Mul':
        for p, q in ((x, y), (y, x)):
            if intc(p) and cv(p) == 1:
                return q
            if intc(p) and cv(p) == 0 and not ty.startswith('f'):
                return C(0)
    if op == 'Div' and intc(y) and cv(y) == 1:
        return x
    # (x & c) == c  after BitOr fold ;  (a|c) has all bits
    if op in ('Eq', 'Ne') and intc(y) and x.tag == 'op' and x.a[0] == 'BitOr' and intc(x.a[2]) and not isinstance(cv(y), bool):
        c1, c2 = cv(x.a[2]), cv(y)
        if c1 & ~c2:
            return C(op == 'Ne')
    if op in COMM and x.n > y.n:
        x, y = y, x
        if intc(x) and not intc(y):
            x, y = y, x
    if op in COMM and intc(x) and not intc(y):
        x, y = y, x
    return lim(mk('op', op, x, y))


def lim(v):
    if v.depth > 60:
        return mk('big', v.n)
    return v


def unop(op, x, ty=''):
    if op == 'Not':
        if intc(x):
            c = cv(x)
            if isinstance(c, bool):
                return C(not c)
            return C(trunc(~c, ty) if ty in _W else ~c)
        if x.tag == 'un' and x.a[0] == 'Not':
            return x.a[1]
        if x.tag == 'op' and x.a[0] in BOOLOPS:
            o, a, b = x.a
            if o == 'Eq':
                return mk('op', 'Ne', a, b)
            if o == 'Ne':
                return mk('op', 'Eq', a, b)
    if op == 'Neg' and intc(x):
        return C(-int(cv(x)))
    return lim(mk('un', op, x))


def widening(frm, to):
    if frm == to:
        return True
    if frm not in _W or to not in _W:
        return False
    if frm == 'bool' or frm == 'char':
        return to[0] == 'u' and _W[to] >= 8 if frm == 'bool' else _W[to] >= 32
    if frm[0] == 'u':
        return _W[to] >= _W[frm] + (1 if to[0] == 'i' else 0)
    return to[0] == 'i' and _W[to] >= _W[frm]


def cast(x, frm, to):
    if frm == to:
        return x
    if intc(x) and to in _W:
        return C(trunc(int(cv(x)), to))
    if widening(frm, to):
        return x
    return lim(mk('cast', to, x, frm))


def uncast(v):
    while v.tag == 'cast':
        v = v.a[1]
    return v


# ------------------------------------------------------------------ facts
def neg(f):
    t = f[0]
    if t == 'T':
        return ('F', f[1])
    if t == 'F':
        return ('T', f[1])
    if t == 'lt':
        return ('le', f[2], f[1])
    if t == 'le':
        return ('lt', f[2], f[1])
    if t == 'eq':
        return ('ne', f[1], f[2])
    if t == 'ne':
        return ('eq', f[1], f[2])
    if t == 'is':
        return ('isnt', f[1], f[2])
    if t == 'isnt':
        return ('is', f[1], f[2])
    return None


class State:
    __slots__ = ('mem', 'facts', 'dead')

    def __init__(s, mem=None, facts=frozenset()):
        s.mem = mem if mem is not None else {}
        s.facts = facts

    def copy(s):
        return State(dict(s.mem), s.facts)


def aggleaves(v, n=8):
    """v is a choice between known structures (at most n of them)"""
    todo, k = [v], 0
    while todo:
        x = todo.pop()
        if x.tag == 'phi':
            todo.extend(x.a[1])
        elif x.tag not in ('agg', 'bot'):
            return False
        k += 1
        if k > 3 * n:
            return False
    return True


def rebase(p, i):
    """element i of a part of a known array: the place in the array itself"""
    if len(p) != 2 or p[0] != '*' or not isinstance(p[1], V) or p[1].tag not in ('sub', 'sptr') or not intc(i):
        return None
    v, k = p[1], cv(i)
    while v.tag == 'sub':
        s_ = v.a[2] if len(v.a) > 2 else C(0)
        if not intc(s_):
            return None
        k += cv(s_)
        v = v.a[0]
    return v.a[0] + (('i', C(k)),) if v.tag == 'ref' or v.tag == 'sptr' and isinstance(v.a[0], tuple) else None


class Frame:
    __slots__ = ('fn', 'id', 'parent', 'site', 'depth', 'args', 'subst')

    def __init__(s, fn, id, parent, site, depth):
        s.fn, s.id, s.parent, s.site, s.depth = fn, id, parent, site, depth
        s.subst = {}

    def ty(s, t):
        """a type argument with the generic parameters of the inlined call replaced"""
        return s.subst.get(t, t)

    def chain(s):
        out = []
        f = s
        while f is not None:
            out.append((f.fn.name, f.site))
            f = f.parent
        return out


class Budget(Exception):
    pass


VARIANTS = {
    'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'ControlFlow': ['Continue', 'Break'], 'Ordering': ['Less', 'Equal', 'Greater'],
}


class Engine:
    def __init__(s, F, inline=None, on_call=None, on_store=None, on_assert=None, model=None, max_depth=12, max_steps=400000, pure=None):
        s.F = F
        s.inline = inline or (lambda fr, c, f: False)
        s.on_call = on_call
        s.on_store = on_store
        s.on_assert = on_assert
        s.model = model
        s.max_depth = max_depth
        s.steps = 0
        s.max_steps = max_steps
        s.pure = pure or (lambda n: False)
        s.jsrc = {}       # J -> source block of each edge
        s.join = {}       # J -> list of fact sets per edge
        s.lphi = {}       # loop phi value -> list of (value, facts)
        s.events = {}     # (frame, block, idx) -> recorded event by client hooks
        s._fid = {}
        s.frames = {}
        s._always = {}
        s.rets = {}
        s.inlined = set()
        s.max_rec = 1
        s.opaque = None     # called for every call that is not interpreted
        s.on_stmt = None
        s.on_deref = None
        s.recursed = set()
        s.nframes = 0
        s.unroll = 0      # loops of every body are peeled this many times
        s.peel = True     # loops over small arrays are followed element by element

    # ---------------------------------------------------------- frames
    def frame(s, fn, parent=None, site=None):
        if s.unroll:
            fn = fn.unrolled(s.unroll)
        elif s.peel:
            fn = fn.peeled()
        key = (fn.id, parent.id if parent else None, site)
        i = s._fid.get(key)
        if i is None:
            i = len(s._fid)
            s._fid[key] = i
        fr = Frame(fn, i, parent, site, parent.depth + 1 if parent else 0)
        s.frames.setdefault(i, fr)
        return fr

    def comdom(s, fn, bs):
        """closest common dominator of blocks"""
        d = fn.idom()
        bs = [b for b in bs if b in d]
        if not bs:
            return None
        def chain(b):
            r = [b]
            while b != 0:
                b = d[b]
                r.append(b)
            return r
        c = chain(bs[0])
        for b in bs[1:]:
            k = set(chain(b))
            c = [x for x in c if x in k]
        return c[0]

    def executed(s, facts):
        """blocks (per frame) known to be passed by the executions described by facts"""
        dead = {}
        on = []
        for f in facts:
            if f[0] == 'x':
                dead.setdefault(f[1], set()).add(f[2])
            elif f[0] == 'on':
                on.append(f[1])
        kids = {}
        for fr in s.frames.values():
            if fr.parent is not None:
                kids.setdefault((fr.parent.id, fr.site), []).append(fr)
        known = {}
        work = []

        def live(fr, J):
            src = s.jsrc.get(J)
            d = dead.get(J)
            if src and d and len(d) < len(src):
                x = s.comdom(fr.fn, [b for i, b in enumerate(src) if i not in d])
                if x is not None:
                    work.append((fr, x))

        def frame(fr):
            key = ('rets', fr.fn.id)
            r = s._always.get(key, 0)
            if r == 0:
                r = s._always[key] = s.comdom(fr.fn, [x for x in fr.fn.rpo() if fr.fn.blocks[x]['t']['k'] == 'ret'])
            if r is not None:
                work.append((fr, r))
                live(fr, (fr.id, 'ret'))
        for fr in s.frames.values():
            if fr.parent is None:
                frame(fr)
        for J in on:
            fr = s.frames.get(J[0])
            if fr is None:
                continue
            if J[1] == 'ret':
                frame(fr)
            else:
                work.append((fr, J[1]))
        while work:
            fr, b = work.pop()
            k = known.get(fr.id)
            if k is None:
                k = known[fr.id] = set()
                if fr.parent is not None:
                    work.append((fr.parent, fr.site))
            d = fr.fn.idom()
            if b not in d:
                continue
            while b not in k:
                k.add(b)
                live(fr, (fr.id, b))
                c = kids.get((fr.id, b), ())
                if len(c) == 1:
                    frame(c[0])
                b = d[b]
        return known

    # ---------------------------------------------------------- memory
    def addr(s, st, fr, pl):
        """place -> access path tuple"""
        if isinstance(pl, int):
            return ((fr.id, pl),)
        p = ((fr.id, pl[0]),)
        for e in pl[1]:
            if e == '*':
                v = s.read(st, p)
                if s.on_deref:
                    s.on_deref(fr, v, st)
                p = s.deref(v)
            elif e == '?':
                p = p + (('?',),)
            elif e[0] == 'f':
                p = p + (('f', e[1], e[2]),)
            elif e[0] == 'i':
                iv = s.read(st, ((fr.id, e[1]),))
                p = rebase(p, iv) or p + (('i', iv),)
            elif e[0] == 'ci':
                p = (rebase(p, C(e[1])) if not e[3] else None) or p + (('ci', e[1], e[3]),)
            elif e[0] == 's':
                p = p + (('s', e[1], e[2], e[3]),)
            elif e[0] == 'd':
                p = p + (('d', e[1], e[2]),)
        return p

    def deref(s, v):
        if v.tag == 'ref':
            return v.a[0]
        if v.tag == 'agg' and v.a[1] and v.a[1].endswith('Box') and v.a[3]:
            return ('*', v)
        return ('*', v)

    def mkref(s, p, mut):
        if len(p) == 2 and p[0] == '*':
            return p[1]
        return mk('ref', p, mut)

    def read(s, st, p):
        m = st.mem
        v = m.get(p)
        if v is not None:
            return s.resolve(st, v)
        # longest stored prefix
        for k in range(len(p) - 1, 0, -1):
            v = m.get(p[:k])
            if v is not None:
                return s.resolve(st, s.project(st, v, p[k:]))
            if k == 2 and p[0] == '*':
                break
        return s.initial(p)

    def initial(s, p):
        # content of a constant reference
        if p[0] == '*' and len(p) >= 2:
            v = p[1]
            if v.tag == 'cref' or v.tag == 'slice_of':
                return s.project(None, v.a[0], p[2:])
            if v.tag == 'phi' or v.tag == 'lphi':
                return mk('init', p)
            if v.tag == 'sptr':
                return mk('init', p)
        return mk('init', p)

    def overlay(s, st, p, base):
        """value at p including stored sub-paths"""
        return base

    def readfull(s, st, p):
        """like read, but if parts of p were overwritten build an updated value"""
        v = s.read(st, p)
        n = len(p)
        subs = [(k[n:], x) for k, x in st.mem.items() if len(k) > n and k[:n] == p]
        if not subs:
            return v
        if p in st.mem or True:
            subs.sort(key=lambda t: (len(t[0]), str([e if not isinstance(e, tuple) else e[1:2] for e in t[0]])))
            for k, x in subs:
                v = s.update(v, k, s.resolve(st, x))
        return v

    def update(s, v, path, x, inphi=False):
        e = path[0]
        if e[0] == 'd':
            if len(path) > 1:
                return s.update(v, path[1:], x) if v.tag == 'agg' else mk('upd', v, path, x)
            return v
        if v.tag == 'agg' and e[0] == 'f' and e[1] < len(v.a[3]):
            fs = list(v.a[3])
            fs[e[1]] = x if len(path) == 1 else s.update(fs[e[1]], path[1:], x, inphi)
            return mk('agg', v.a[0], v.a[1], v.a[2], tuple(fs), v.a[4])
        if v.tag == 'agg' and v.a[0] == 'array' and e[0] in ('i', 'ci'):
            return s.elem_update(v, path, x, inphi)
        if v.tag == 'phi' and aggleaves(v):
            return mk('phi', v.a[0], tuple(y if y.tag == 'bot' else s.update(y, path, x, True) for y in v.a[1]))
        return lim(mk('upd', v, path, x))

    def project(s, st, v, proj):
        for idx, e in enumerate(proj):
            if isinstance(e, V):
                return mk('opaque', v.n, e.n)
            if v.tag in ('phi',):
                rest = proj[idx:]
                want = None
                if e[0] == 'd':
                    want = e[2]
                alts = []
                for i, x in enumerate(v.a[1]):
                    if want is not None and s.variant(st, x) not in (None, want):
                        alts.append(None)
                    else:
                        alts.append(s.project(st, x, rest))
                live = [x for x in alts if x is not None]
                if not live:
                    return mk('bot',)
                if all(x is live[0] for x in live):
                    return live[0]
                return mk('phi', v.a[0], tuple(x if x is not None else mk('bot',) for x in alts))
            v = s.proj1(v, e)
        return v

    def proj1(s, v, e):
        k = e[0]
        if v.tag == 'upd':
            base, path, x = v.a
            pe = path[0]
            if pe == e or (pe[0] == 'f' and k == 'f' and pe[1] == e[1]):
                if len(path) == 1:
                    return x
                return s.update(s.proj1(base, e), path[1:], x)
            if k == 'd':
                return mk('proj', v, e)
            return s.proj1(base, e)
        if k == 'd':
            if v.tag == 'agg':
                return v
            if v.tag == 'cf':
                return mk('proj', v, e)
            return mk('proj', v, ('d', e[2]))
        if k == 'f':
            if v.tag == 'agg':
                if e[1] < len(v.a[3]):
                    return v.a[3][e[1]]
            # ControlFlow view of a result
            if v.tag == 'proj' and v.a[0].tag == 'cf' and v.a[1][0] == 'd':
                r = v.a[0].a[0]
                if v.a[1][2] == 'Continue':
                    good = v.a[0].a[1]
                    return s.project(None, r, (('d', 0, good), ('f', 0, '0')))
                return mk('resid', r)
            if v.tag == 'proj' and v.a[0].tag == 'condopt' and v.a[1] == ('d', 'Some'):
                return v.a[0].a[1]
            if v.tag == 'proj' and v.a[0].tag == 'refopt' and v.a[1][0] == 'd' and v.a[1][1] in ('Some', 'Ok'):
                return mk('ref', v.a[0].a[1] + (('d', 0, v.a[1][1]), ('f', 0, '0')), v.a[0].a[2])
            if v.tag == 'proj' and v.a[0].tag == 'vm' and v.a[1][0] == 'd':
                w = v.a[0]
                if len(w.a) > 2:
                    if v.a[1][1] in ('Some', 'Ok'):
                        return w.a[2]
                    return lim(mk('proj', v, ('f', e[2])))
                src = dict(w.a[1]).get(v.a[1][1])
                if v.a[1][1] in ('Some', 'Ok') and src:
                    return s.project(None, w.a[0], (('d', 0, src), ('f', 0, '0')))
            if v.tag == 'proj' and v.a[0].tag == 'checked' and v.a[1] == ('d', 'Some'):
                return v.a[0].a[0]
            if v.tag == 'proj' and v.a[0].tag == 'tryfrom' and v.a[1] == ('d', 'Ok'):
                return v.a[0].a[0]
            if v.tag == 'range' and e[1] < 2:
                return v.a[e[1]]
            return lim(mk('proj', v, ('f', e[2])))
        if k == 'i':
            if v.tag == 'agg' and v.a[0] == 'array' and intc(e[1]) and cv(e[1]) < len(v.a[3]):
                return v.a[3][cv(e[1])]
            if v.tag == 'repeat':
                return v.a[0]
            return lim(mk('proj', v, ('i', e[1])))
        if k == 'ci':
            if v.tag == 'agg' and v.a[0] == 'array' and e[1] < len(v.a[3]):
                return v.a[3][e[1]] if not e[2] else v.a[3][-e[1]]
            if v.tag == 'repeat':
                return v.a[0]
            if not e[2]:
                return lim(mk('proj', v, ('i', C(e[1]))))
            return lim(mk('proj', v, e))
        return lim(mk('proj', v, e))

    def write(s, st, p, v, fr=None, blk=None, idx=None, line=None):
        m = st.mem
        n = len(p)
        # array element writes with unknown index invalidate sibling elements
        for j, e in enumerate(p):
            if isinstance(e, tuple) and e and e[0] in ('i', 'ci', 's'):
                base = p[:j]
                old = s.readfull(st, base)
                # forget every other stored element below base, then note the write as an opaque update of base
                for k in [k for k in m if len(k) > j and k[:j] == base]:
                    del m[k]
                m[base] = s.elem_update(old, p[j:], v)
                if s.on_store:
                    s.on_store(fr, blk, idx, p, v, st, line)
                return
        if n >= 1:
            dels = [k for k in m if len(k) > n and k[:n] == p]
            for k in dels:
                del m[k]
        m[p] = v
        if s.on_store:
            s.on_store(fr, blk, idx, p, v, st, line)

    def elem_update(s, old, path, v, inphi=False):
        e = path[0]
        if old.tag == 'agg' and old.a[0] == 'array':
            i = None
            if e[0] == 'i' and intc(e[1]):
                i = cv(e[1])
            elif e[0] == 'ci' and not e[2]:
                i = e[1]
            if i is not None and i < len(old.a[3]):
                fs = list(old.a[3])
                fs[i] = v if len(path) == 1 else s.update(fs[i], path[1:], v)
                return mk('agg', 'array', '', '', tuple(fs), ())
            if i is not None and inphi:
                return mk('bot')  # beyond the known length: this access has panicked
        if old.tag == 'phi' and aggleaves(old):
            return mk('phi', old.a[0], tuple(y if y.tag == 'bot' else s.elem_update(y, path, v, True) for y in old.a[1]))
        ln = s.vlen(old)
        return mk('elems', ln if ln is not None else mk('len', old), v.n)

    def havoc(s, st, v, site, seen=None, mutonly=True):
        """forget what is reachable through mutable references inside v"""
        if seen is None:
            seen = set()
        if v in seen:
            return
        seen.add(v)
        if v.tag == 'ref':
            if v.a[1] or not mutonly:
                s.havoc_path(st, v.a[0], site)
            else:
                # shared ref to something holding &mut (e.g. &closure env): look inside
                w = st.mem.get(v.a[0])
                if w is not None and w.tag in ('agg', 'ref'):
                    s.havoc(st, w, site, seen, mutonly)
            return
        if v.tag == 'sptr':
            p = v.a[0]
            if p and p[0] != 'eptr':
                s.havoc_path(st, p, site)
                st.mem[p] = mk('elems', v.a[1], site)
            return
        if v.tag == 'sub':
            if v.a[0].tag == 'ref' and v.a[0].a[1]:
                s.havoc_path(st, v.a[0].a[0], site)
                return
            return s.havoc(st, v.a[0], site, seen, mutonly)
        if v.tag in ('agg',):
            for x in v.a[3]:
                s.havoc(st, x, site, seen, mutonly)
        elif v.tag in ('phi',):
            for x in v.a[1]:
                s.havoc(st, x, site, seen, mutonly)
        elif v.tag in ('proj', 'cast', 'iter', 'call', 'wrap', 'upd'):
            for x in v.a:
                if isinstance(x, V):
                    s.havoc(st, x, site, seen, mutonly)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, V):
                            s.havoc(st, y, site, seen, mutonly)

    def havoc_path(s, st, p, site):
        m = st.mem
        n = len(p)
        for k in [k for k in m if len(k) > n and k[:n] == p]:
            del m[k]
        m[p] = mk('hv', site, p)

    def havoc_opaque(s, st, v, ty, site):
        """argument v of type ty (&mut T) whose value is an opaque pointer"""
        if ty.startswith('&mut ') or ty.startswith("&'") and ' mut ' in ty[:12]:
            if v.tag not in ('ref',):
                if v.tag == 'sptr':
                    return
                inner = re.sub(r"^&('\w+ )?mut ", '', ty)
                if inner.startswith('['):   # slices: contents only
                    return
                s.havoc_path(st, ('*', v), site)

    # ---------------------------------------------------------- resolution
    def resolve(s, st, v):
        if v.tag == 'phi' and st is not None:
            J = v.a[0]
            ex = [i for i in range(len(v.a[1])) if ('x', J, i) in st.facts or v.a[1][i].tag == 'bot']
            if ex:
                live = [x for i, x in enumerate(v.a[1]) if i not in ex]
                if live and all(x is live[0] for x in live):
                    return s.resolve(st, live[0])
        return v

    def deep(s, st, v, lvl=0):
        """resolve phis inside an expression"""
        if lvl > 12:
            return v
        v = s.resolve(st, v)
        if v.tag == 'op':
            return binop(v.a[0], s.deep(st, v.a[1], lvl + 1), s.deep(st, v.a[2], lvl + 1))
        if v.tag == 'cast':
            return cast(s.deep(st, v.a[1], lvl + 1), v.a[2], v.a[0])
        return v

    def variant(s, st, v):
        """variant name of v if known"""
        v = s.resolve(st, v)
        t = v.tag
        if t == 'agg':
            return v.a[2] if v.a[0] == 'adt' else None
        if t == 'cf':
            r = s.variant(st, v.a[0])
            if r is None:
                return None
            return 'Continue' if r == v.a[1] else 'Break'
        if t == 'phi':
            vs = set()
            for i, x in enumerate(v.a[1]):
                if x.tag == 'bot' or (st is not None and ('x', v.a[0], i) in st.facts):
                    continue
                vs.add(s.variant(st, x))
            if len(vs) == 1:
                return vs.pop()
            return None
        if t == 'bot':
            return '⊥'
        if t == 'vm':
            r = s.variant(st, v.a[0])
            for x, y in v.a[1]:
                if y == r:
                    return x
            return None
        if t == 'refopt':
            return s.variant(st, v.a[0])
        if t == 'condopt':
            c = v.a[0]
            if c.tag == 'c':
                return 'Some' if cv(c) else 'None'
            if st is not None:
                if s.known_bool(st, c) is not None:
                    return 'Some' if s.known_bool(st, c) else 'None'
            return None
        if st is not None:
            for f in st.facts:
                if f[0] == 'is' and f[1] is v:
                    return f[2]
        return None

    def known_bool(s, st, v):
        if v.tag == 'c':
            return bool(cv(v))
        if ('T', v) in st.facts:
            return True
        if ('F', v) in st.facts:
            return False
        if v.tag == 'op':
            o, a, b = v.a
            f = {'Lt': ('lt', a, b), 'Le': ('le', a, b), 'Eq': ('eq', a, b), 'Ne': ('ne', a, b)}.get(o)
            if f:
                if f in st.facts:
                    return True
                if neg(f) in st.facts:
                    return False
        return None

    def vlen(s, v):
        """length value of a slice pointer / vec content value; None if unknown"""
        t = v.tag
        if t == 'vec':
            return v.a[0]
        if t == 'slice_of':
            return s.vlen(v.a[0]) or mk('len', v.a[0])
        if t == 'sub' or t == 'sptr' or t == 'view':
            return v.a[1]
        if t == 'elems':
            return v.a[0]
        if t == 'agg' and v.a[0] == 'array':
            return C(len(v.a[3]))
        if t == 'repeat':
            return v.a[1]
        if t == 'cref':
            return s.vlen(v.a[0])
        if t == 'cstr':
            return C(len(v.a[0].encode()))
        if t == 'wrap':
            return s.vlen(v.a[1])
        return None

    def len_of(s, st, ptr, ty=''):
        """length of the slice/array/Vec behind pointer value ptr"""
        ptr = s.resolve(st, ptr)
        if ptr.tag == 'phi':
            alts = tuple(s.len_of(st, x, ty) if x.tag != 'bot' else x for x in ptr.a[1])
            live = [x for x in alts if x.tag != 'bot']
            if live and all(x is live[0] for x in live):
                return live[0]
            return mk('phi', ptr.a[0], alts)
        l = s.vlen(ptr)
        if l is not None:
            return l
        if ptr.tag == 'ref':
            content = s.read(st, ptr.a[0])
            l = s.vlen(content)
            if l is not None:
                return l
            return mk('len', content)
        m = re.search(r'\[[^\[\]]*; (\d+)\]$', ty)
        if m:
            return C(int(m.group(1)))
        return mk('len', ptr)

    # ---------------------------------------------------------- constants
    def const(s, k):
        v = k.get('v')
        t = k['t']
        if 'param' in k and v is None:
            return mk('cparam', k['param'])
        if v is None:
            if 'uid' in k:
                return mk('cref', mk('uconst', k['uid'], k.get('promoted', -1))) if t.startswith('&') else mk('uconst', k['uid'], k.get('promoted', -1))
            return mk('ctype', t)
        return s.jconst(v, t)

    def jconst(s, v, t=''):
        if isinstance(v, bool) or isinstance(v, int):
            return C(v)
        if isinstance(v, str):
            if v.startswith('f:'):
                return mk('c', 'f', v)
            if v.isdigit():
                return C(int(v))
            return mk('uc', v)
        if isinstance(v, list):
            return mk('agg', 'array', '', '', tuple(s.jconst(x) for x in v), ())
        if v is None:
            return mk('uc', 'null')
        if 'fn' in v:
            return mk('fn', v['fn'])
        if 'str' in v:
            return mk('cstr', v['str'])
        if 'ref' in v:
            return mk('cref', s.jconst(v['ref']))
        if 'adt' in v:
            return mk('agg', 'adt', v['adt'], v.get('v', v['adt'].split('::')[-1]), tuple(s.jconst(x) for x in v['f'].values()), tuple(v['f'].keys()))
        if 'char' in v:
            return C(v['char'])
        if 'zst' in v:
            return mk('agg', 'tuple', '', '', (), ()) if v['zst'] == '()' else mk('zst', v['zst'])
        if 'static' in v:
            k = s.F.const_by_name.get(v['static'])
            if k is not None and k.get('v') is not None and not k.get('mut'):
                return mk('cref', s.jconst(k['v']))
            return mk('static', v['static'])
        return mk('uc', str(v)[:80])

    # ---------------------------------------------------------- operands
    def operand(s, st, fr, o):
        if o[0] == 'k':
            return s.const(o[1])
        p = s.addr(st, fr, o[1])
        return s.readfull(st, p)

    def adt_variants(s, ty):
        base = re.sub(r'<.*$', '', ty.replace('&', '').strip())
        a = s.F.adts.get(base)
        if a:
            return [(v['n'], v['d']) for v in a['v']]
        last = base.split('::')[-1]
        if base.startswith('core::') or base.startswith('std::'):
            if last in VARIANTS:
                vs = VARIANTS[last]
                if last == 'Ordering':
                    return [('Less', -1), ('Equal', 0), ('Greater', 1)]
                return [(n, i) for i, n in enumerate(vs)]
        return None

    def rvalue(s, st, fr, r):
        k = r[0]
        if k == 'use':
            return s.operand(st, fr, r[1])
        if k == 'ref' or k == 'raw':
            p = s.addr(st, fr, r[2])
            # reborrow of a sub-slice pattern is opaque but keeps base
            return s.mkref(p, r[1])
        if k == 'bin':
            return s.lift2(st, lambda a, b: binop(r[1], a, b, r[4]), s.operand(st, fr, r[2]), s.operand(st, fr, r[3]))
        if k == 'un':
            x = s.operand(st, fr, r[2])
            if r[1] == 'PtrMetadata':
                ty = ''
                if r[2][0] != 'k' and isinstance(r[2][1], int):
                    ty = fr.fn.locals[r[2][1]]
                return s.len_of(st, x, ty)
            ty = ''
            if r[2][0] != 'k' and isinstance(r[2][1], int):
                ty = fr.fn.locals[r[2][1]]
            return s.lift1(st, lambda a: unop(r[1], a, ty), x)
        if k == 'cast':
            x = s.operand(st, fr, r[2])
            kind, to, frm = r[1], r[3], r[4]
            if kind == 'IntToInt':
                vs = None
                if frm not in _W:
                    vs = s.adt_variants(frm)
                def f(a):
                    if vs is not None:
                        if a.tag == 'agg' and a.a[0] == 'adt':
                            for n, d in vs:
                                if n == a.a[2]:
                                    return C(trunc(d, to))
                        if a.tag == 'discr':
                            a = a.a[0]
                        return lim(mk('cast', to, a, frm))
                    return cast(a, frm, to)
                return s.lift1(st, f, x)
            if kind == 'BoxDerefTransmute' and x.tag == 'ref':
                return x
            if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'FnPtrToPtr', 'Subtype'):
                if 'Unsize' in kind:
                    # array ref -> slice ref keeps the pointer; remember length
                    m = re.search(r'\[[^\[\]]*; (\d+)\]>?$', frm)
                    if m and x.tag not in ('cref', 'agg', 'ref', 'slice_of', 'sub'):
                        return mk('sub', x, C(int(m.group(1))))
                    if m and x.tag == 'ref':
                        return mk('sub', x, C(int(m.group(1)))) if s.vlen(s.read(st, x.a[0])) is None else x
                return x
            return lim(mk('cast', to, x, frm))
        if k == 'discr':
            p = s.addr(st, fr, r[1])
            v = s.readfull(st, p)
            return mk('discr', v, r[2])
        if k == 'agg':
            ops = tuple(s.operand(st, fr, o) for o in r[2])
            if r[1] == 'adt':
                return mk('agg', 'adt', r[3], r[4], ops, tuple(r[6]))
            if r[1] == 'closure':
                return mk('agg', 'closure', r[3], '', ops, ())
            return mk('agg', r[1], '', '', ops, ())
        if k == 'repeat':
            n = r[2]
            m = re.match(r'^(\d+)(_usize)?$', n)
            return mk('repeat', s.operand(st, fr, r[1]), C(int(m.group(1))) if m else mk('cparam', n))
        return mk('opq', fr.id, str(r)[:60])

    def lift1(s, st, f, x):
        if x.tag == 'phi' and len(x.a[1]) <= 8:
            alts = tuple(y if y.tag == 'bot' else s.lift1(st, f, y) for y in x.a[1])
            live = [y for y in alts if y.tag != 'bot']
            if live and all(y is live[0] for y in live):
                return live[0]
            return mk('phi', x.a[0], alts)
        return f(x)

    def lift2(s, st, f, x, y):
        """push an operation into a phi when the other side is a constant, or both share the join"""
        def smallphi(v):
            return v.tag == 'phi' and len(v.a[1]) <= 8 and v.depth < 20
        if smallphi(x) and smallphi(y) and x.a[0] == y.a[0] and len(x.a[1]) == len(y.a[1]):
            alts = tuple(p if p.tag == 'bot' else (q if q.tag == 'bot' else s.lift2(st, f, p, q)) for p, q in zip(x.a[1], y.a[1]))
        elif smallphi(x) and y.tag != 'phi':
            alts = tuple(p if p.tag == 'bot' else s.lift2(st, f, p, y) for p in x.a[1])
            return s.mkphi(x.a[0], alts)
        elif smallphi(y) and x.tag != 'phi':
            alts = tuple(q if q.tag == 'bot' else s.lift2(st, f, x, q) for q in y.a[1])
            return s.mkphi(y.a[0], alts)
        else:
            return f(x, y)
        return s.mkphi(x.a[0], alts)

    def mkphi(s, J, alts):
        live = [y for y in alts if y.tag != 'bot']
        if live and all(y is live[0] for y in live):
            return live[0]
        return mk('phi', J, tuple(alts))

    # ---------------------------------------------------------- refinement
    def assume(s, st, f):
        """add fact f; returns False when contradictory"""
        if f in st.facts:
            return True
        n = neg(f)
        if n is not None and n in st.facts:
            return False
        if f[0] == 'eq' and intc(f[2]):
            for g in st.facts:
                if g[0] == 'eq' and g[1] is f[1] and intc(g[2]) and g[2] is not f[2]:
                    return False
        if f[0] == 'is':
            for g in st.facts:
                if g[0] == 'is' and g[1] is f[1] and g[2] != f[2]:
                    return False
                if g[0] == 'isnt' and g[1] is f[1] and g[2] == f[2]:
                    return False
        st.facts = st.facts | {f}
        return True

    def exclude(s, st, phi, dropped):
        """edges `dropped` of phi's join are known not to have been taken"""
        J = phi.a[0]
        alts = phi.a[1]
        dropped = set(dropped) | {i for i in range(len(alts)) if ('x', J, i) in st.facts}
        live = [i for i in range(len(alts)) if i not in dropped and alts[i].tag != 'bot']
        if not live:
            return False, []
        add = {('x', J, i) for i in dropped}
        info = s.join.get(J)
        if info is not None and len(info) == len(alts):
            common = info[live[0]]
            for i in live[1:]:
                common = common & info[i]
            add |= common
        st.facts = st.facts | add
        return True, live

    def assume_bool(s, st, v, val):
        """v (boolean-valued) is `val`"""
        v = s.resolve(st, v)
        t = v.tag
        if t == 'c':
            return bool(cv(v)) == val
        if t == 'un' and v.a[0] == 'Not':
            return s.assume_bool(st, v.a[1], not val)
        if t == 'phi':
            dropped = []
            for i, x in enumerate(v.a[1]):
                if x.tag == 'bot' or (x.tag == 'c' and bool(cv(x)) != val):
                    dropped.append(i)
                    continue
                info = s.join.get(v.a[0])
                # would the alternative contradict?
                if x.tag != 'c':
                    t2 = State(st.mem, st.facts | (info[i] if info and i < len(info) else frozenset()))
                    if not s.assume_bool(t2, x, val):
                        dropped.append(i)
            ok, live = s.exclude(st, v, dropped)
            if not ok:
                return False
            # consequences common to all surviving alternatives
            res = []
            for i in live:
                t2 = State(st.mem, st.facts)
                if s.assume_bool(t2, v.a[1][i], val):
                    res.append(t2.facts)
            if res:
                common = res[0]
                for r in res[1:]:
                    common &= r
                st.facts = st.facts | common
            return s.assume(st, ('T' if val else 'F', v))
        if t == 'op':
            o, a, b = v.a
            if o == 'Lt':
                return s.assume_cmp(st, ('lt', a, b) if val else ('le', b, a))
            if o == 'Le':
                return s.assume_cmp(st, ('le', a, b) if val else ('lt', b, a))
            if o in ('Eq', 'Ne'):
                eq = (o == 'Eq') == val
                if a.tag == 'discr' and intc(b):
                    return s.assume_discr(st, a, cv(b), eq)
                return s.assume_eq(st, a, b, eq)
            if o == 'BitAnd' and val:
                return s.assume_bool(st, a, True) and s.assume_bool(st, b, True)
            if o == 'BitOr' and not val:
                return s.assume_bool(st, a, False) and s.assume_bool(st, b, False)
        if t == 'isv':
            return s.assume_is(st, v.a[0], v.a[1], val)
        return s.assume(st, ('T' if val else 'F', v))

    def assume_cmp(s, st, f):
        a, b = f[1], f[2]
        return s.assume(st, f)

    def assume_eq(s, st, a, b, eq):
        if intc(a) and not intc(b):
            a, b = b, a
        if intc(a) and intc(b):
            return (cv(a) == cv(b)) == eq
        a = s.resolve(st, a)
        if a.tag == 'phi' and intc(b):
            dropped = []
            for i, x in enumerate(a.a[1]):
                if x.tag == 'bot' or (intc(x) and (cv(x) == cv(b)) != eq):
                    dropped.append(i)
            if dropped:
                ok, live = s.exclude(st, a, dropped)
                if not ok:
                    return False
        if a.n > b.n and not intc(b):
            a, b = b, a
        return s.assume(st, ('eq' if eq else 'ne', a, b))

    def assume_is(s, st, v, var, yes):
        v = s.resolve(st, v)
        k = s.variant(st, v)
        if k is not None:
            if k == '⊥':
                return False
            return (k == var) == yes
        if v.tag == 'cf':
            good = v.a[1]
            bad = {'Ok': 'Err', 'Some': 'None'}.get(good, 'Err')
            want = good if (var == 'Continue') == yes else bad
            return s.assume_is(st, v.a[0], want, True)
        if v.tag == 'phi':
            dropped = []
            info = s.join.get(v.a[0])
            for i, x in enumerate(v.a[1]):
                if ('x', v.a[0], i) in st.facts:
                    dropped.append(i)
                    continue
                t2 = State(st.mem, st.facts | (info[i] if info and i < len(info) else frozenset()))
                if x.tag == 'bot' or not s.assume_is(t2, x, var, yes):
                    dropped.append(i)
            ok, live = s.exclude(st, v, dropped)
            if not ok:
                return False
            res = []
            for i in live:
                t2 = State(st.mem, st.facts)
                if s.assume_is(t2, v.a[1][i], var, yes):
                    res.append(t2.facts)
            if res:
                common = res[0]
                for r in res[1:]:
                    common &= r
                st.facts = st.facts | common
            return s.assume(st, ('is' if yes else 'isnt', v, var))
        if v.tag == 'vm':
            return s.assume_is(st, v.a[0], dict(v.a[1]).get(var, var), yes)
        if v.tag == 'refopt':
            return s.assume_is(st, v.a[0], var, yes)
        if v.tag == 'condopt':
            return s.assume_bool(st, v.a[0], (var == 'Some') == yes)
        two = {'Ok': 'Err', 'Err': 'Ok', 'Some': 'None', 'None': 'Some', 'Continue': 'Break', 'Break': 'Continue'}
        if not yes and var in two:
            return s.assume(st, ('is', v, two[var]))
        return s.assume(st, ('is' if yes else 'isnt', v, var))

    def assume_discr(s, st, d, val, eq):
        vs = s.adt_variants(d.a[1])
        v = d.a[0]
        if vs is None:
            return s.assume(st, ('eq' if eq else 'ne', d, C(val)))
        for n, k in vs:
            if k == val:
                return s.assume_is(st, v, n, eq)
        return not eq

    def assume_switch(s, st, v, ty, val, others):
        """val: case value or None for otherwise (then others = excluded values)"""
        v = s.resolve(st, v)
        if ty == 'bool':
            if val is None:
                # otherwise of a bool switch: not the listed ones
                for o in others:
                    if not s.assume_bool(st, v, not bool(o)):
                        return False
                return True
            return s.assume_bool(st, v, bool(val))
        if v.tag == 'discr':
            if val is None:
                for o in others:
                    if not s.assume_discr(st, v, o, False):
                        return False
                # single remaining variant?
                vs = s.adt_variants(v.a[1])
                if vs is not None:
                    rem = [n for n, k in vs if k not in others and ('isnt', v.a[0], n) not in st.facts]
                    if not rem:
                        return False
                    if len(rem) == 1:
                        return s.assume_is(st, v.a[0], rem[0], True)
                return True
            return s.assume_discr(st, v, val, True)
        if val is None:
            for o in others:
                if not s.assume_eq(st, v, C(o), False):
                    return False
            return True
        return s.assume_eq(st, v, C(val), True)

    # ---------------------------------------------------------- joins
    def boolphi(s, v):
        return v.tag == 'phi' and all(x.tag == 'bot' or (intc(x) and isinstance(cv(x), bool)) or s.boolphi(x) for x in v.a[1])

    def merge(s, J, states, loop=False):
        """states: list of State (one per incoming edge)"""
        if len(states) == 1 and not loop:
            return states[0].copy()
        facts = states[0].facts
        for x in states[1:]:
            facts = facts & x.facts
        # stale exclusions about this very join must go
        if any(f[0] == 'x' and f[1] == J for f in facts):
            facts = frozenset(f for f in facts if not (f[0] == 'x' and f[1] == J))
        s.join[J] = [x.facts for x in states]
        keys = set()
        for x in states:
            keys.update(x.mem)
        mem = {}
        for p in keys:
            vs = []
            v0 = states[0].mem.get(p)
            if v0 is not None and (loop or s.boolphi(v0)) and all(x.mem.get(p) is v0 for x in states[1:]):
                mem[p] = v0
                continue
            for x in states:
                v = x.mem.get(p)
                if v is None:
                    # value implied by a stored prefix or initial
                    v = s.read(x, p)
                else:
                    v = s.resolve(x, v)
                vs.append(v)
            if all(v is vs[0] for v in vs):
                mem[p] = vs[0]
            elif loop:
                l = mk('lphi', J, p)
                s.lphi[l] = [(v, x.facts) for v, x in zip(vs, states)]
                mem[p] = l
            else:
                mem[p] = s.mergev(J, vs)
        # a path stored in one state whose extension is stored in another: drop the shorter covering inconsistently
        return State(mem, facts)

    def mergev(s, J, vs):
        """phi of the values; arrays and structs of the same shape are merged element by element"""
        if all(v is vs[0] for v in vs):
            return vs[0]
        a = vs[0]
        if a.tag == 'agg' and all(v.tag == 'agg' and v.a[:3] == a.a[:3] and len(v.a[3]) == len(a.a[3]) for v in vs[1:]):
            if a.a[0] == 'array' or a.a[0] == 'adt' and s.F.adts.get(a.a[1], {}).get('kind') == 'Struct':
                return mk('agg', a.a[0], a.a[1], a.a[2], tuple(s.mergev(J, [v.a[3][i] for v in vs]) for i in range(len(a.a[3]))), a.a[4])
        return mk('phi', J, tuple(vs))

    # ---------------------------------------------------------- function
    def run(s, fn, args=None, state=None, facts=frozenset()):
        fr = s.frame(fn)
        fn = fr.fn
        st = state.copy() if state else State()
        st.facts = st.facts | facts
        for i in range(fn.argc):
            if args and i < len(args) and args[i] is not None:
                st.mem[((fr.id, i + 1),)] = args[i]
            else:
                st.mem[((fr.id, i + 1),)] = mk('arg', fn.id, i + 1)
        return fr, s.exec(fr, st)

    def exec(s, fr, st0):
        """analyse body; returns merged State at return (or None if it never returns)"""
        fn = fr.fn
        s.nframes += 1
        rpo = fn.rpo()
        pos = {b: i for i, b in enumerate(rpo)}
        preds = fn.preds()
        heads = set()
        for b in rpo:
            for t in fn.succ(b):
                if t in pos and pos[t] <= pos[b]:
                    heads.add(t)
        loops = fn.loops() if heads else {}
        out = {}       # (src, dst) -> State
        in_sig = {}
        npass = 0
        order = rpo
        changed = True
        rets = []
        dirty = set(rpo)
        hstate = {}
        while changed:
            npass += 1
            changed = False
            rets = []
            for b in order:
                ins = []
                src = []
                if b == 0:
                    ins.append(st0)
                    src.append(0)
                for p in sorted(set(preds[b])):
                    e = out.get((p, b))
                    if e is not None:
                        ins.append(e)
                        src.append(p)
                s.jsrc[(fr.id, b)] = src
                if not ins:
                    for t in fn.succ(b):
                        out.pop((b, t), None)
                    continue
                if b in heads:
                    hs = hstate.get(b)
                    ms = s.merge((fr.id, b), ins, loop=len(ins) > 1)
                    if hs is not None and npass > 1:
                        # keep widened paths widened
                        for p, v in hs.mem.items():
                            if v.tag == 'lphi' and v.a[0] == (fr.id, b) and ms.mem.get(p) is not v:
                                s.lphi.setdefault(v, [])
                                s.lphi[v] = [(s.read(x, p), x.facts) for x in ins]
                                ms.mem[p] = v
                        ms.facts = ms.facts & hs.facts
                        if npass > 12:
                            ms.facts = frozenset()
                    if hs is None or hs.mem != ms.mem or hs.facts != ms.facts:
                        if hs is not None or len(heads):
                            changed = True
                        hstate[b] = ms
                    st = ms.copy()
                else:
                    st = s.merge((fr.id, b), ins)
                s.steps += 1
                if s.steps > s.max_steps:
                    raise Budget(fn.name)
                for t in fn.succ(b):
                    out.pop((b, t), None)
                r = s.block(fr, b, st, out)
                if r is not None:
                    rets.append((b, r))
            if not heads or npass > 20:
                break
        if not rets:
            return None
        if len(rets) == 1:
            return rets[0][1]
        s.jsrc[(fr.id, 'ret')] = [b for b, _ in rets]
        return s.merge((fr.id, 'ret'), [r for _, r in rets])

    def block(s, fr, b, st, out):
        fn = fr.fn
        blk = fn.blocks[b]
        for i, x in enumerate(blk['s']):
            if x[0] == '=':
                v = s.rvalue(st, fr, x[2])
                if s.on_stmt:
                    s.on_stmt(fr, b, i, x, v, st)
                p = s.addr(st, fr, x[1])
                s.write(st, p, v, fr, b, i, x[3])
            elif x[0] == 'sd':
                p = s.addr(st, fr, x[1])
                s.write(st, p, mk('opq', fr.id, 'sd%d_%d' % (b, i)), fr, b, i, None)
        t = blk['t']
        k = t['k']
        if k == 'ret':
            return st
        if k in ('goto', 'drop', 'asm'):
            if t.get('t') is not None:
                out[(b, t['t'])] = st
            return None
        if k == 'assert':
            if s.on_assert:
                s.on_assert(fr, b, t, st)
            c = s.operand(st, fr, t['c'])
            if not s.assume_bool(st, c, t['e']):
                return None
            out[(b, t['t'])] = st
            return None
        if k == 'switch':
            v = s.operand(st, fr, t['d'])
            ty = t['ty']
            bydst = {}
            for val, dst in t['c']:
                n = st.copy()
                if s.assume_switch(n, v, ty, val, None):
                    bydst.setdefault(dst, []).append(n)
            n = st.copy()
            if s.assume_switch(n, v, ty, None, [c[0] for c in t['c']]):
                bydst.setdefault(t['o'], []).append(n)
            for dst, l in bydst.items():
                if len(l) == 1:
                    out[(b, dst)] = l[0]
                else:
                    out[(b, dst)] = s.merge((fr.id, b, dst), l)
            return None
        if k == 'call':
            s.call(fr, b, t, st, out)
            return None
        return None

    # ---------------------------------------------------------- calls
    def call(s, fr, b, t, st, out):
        c = callee(t)
        args = [s.operand(st, fr, a) for a in t['a']]
        args = [s.resolve(st, a) for a in args]
        if s.on_call:
            r = s.on_call(fr, b, t, c, args, st)
            if r == 'stop':
                return
        dst = s.addr(st, fr, t['d'])
        if t.get('t') is None:
            return
        site = (fr.id, b)
        ret = None
        done = False
        # indirect call through a known function value
        fnv = None
        if c is None:
            fv = s.operand(st, fr, t['f'])
            if fv.tag == 'fn' and fv.a[0] in s.F.fns:
                fnv = s.F.fns[fv.a[0]]
        else:
            if s.model:
                ret = s.model(s, fr, b, t, c, args, st)
                if ret is not None:
                    done = True
            if not done:
                ret = s.builtin(fr, b, t, c, args, st)
                if ret is not None:
                    done = True
            if not done and s.peel and ITERATION.match(c['name']):
                from . import lists
                ret = lists.model(s, fr, b, t, c, args, st)
                if ret is not None:
                    done = True
            if not done:
                fnv = s.target(st, c, args, fr)
        if not done and fnv is not None:
            if fr.depth < s.max_depth and not s.recursive(fr, fnv) and s.inline(fr, c, fnv):
                r = s.enter(fr, b, t, c, fnv, args, st)
                if r == 'never':
                    return
                if r is not None:
                    st, ret = r
                    done = True
        if not done:
            name = rname(c) if c else '<indirect>'
            if c and s.pure(c['name']):
                ret = mk('call', c['name'], tuple(s.purearg(st, a) for a in args))
            else:
                ret = mk('sym', name, fr.id, b)
                if s.opaque is not None:
                    s.opaque(fr, b, t, c, args, st)
                for a, ty in zip(args, t['at']):
                    s.havoc(st, a, site)
                    s.havoc_opaque(st, a, ty, site)
        s.write(st, dst, ret, fr, b, 'ret', t.get('l'))
        out[(b, t['t'])] = st

    def purearg(s, st, a):
        """argument of a pure call, by content"""
        if a.tag == 'ref':
            return mk('at', s.readfull(st, a.a[0]))
        if a.tag in ('arg', 'init', 'sym', 'hv', 'proj'):
            w = st.mem.get(('*', a))
            if w is not None or any(k[:2] == ('*', a) for k in st.mem):
                return mk('at', s.readfull(st, ('*', a)))
        return a

    def recursive(s, fr, fn):
        f = fr
        n = 0
        while f is not None:
            if f.fn.id == fn.id:
                n += 1
                if n >= s.max_rec:
                    s.recursed.add((fr.fn.id, fn.id))
                    return True
            f = f.parent
        return False

    def target(s, st, c, args, fr=None):
        r = rid(c)
        f = s.F.fns.get(r)
        if fr is not None and c.get('trait') and 'res' not in c and c.get('self') in fr.subst:
            # a trait method on a generic parameter of an inlined function
            ty = fr.ty(c['self'])
            for it, fid, i in s.F.trait_impls.get(c['fn'], ()):
                if it == ty and fid in s.F.fns:
                    return s.F.fns[fid]
            if ty in s.F.adts and f is not None:
                return f
        if f is not None and not (f.d.get('intrait') and 'res' not in c and s.F.trait_impls.get(r)):
            return f
        # closure objects called through Fn* traits with a known closure value
        if c['name'].startswith('core::ops::function::Fn') and args:
            v = args[0]
            if v.tag == 'ref':
                v = s.read(st, v.a[0])
            if v.tag == 'agg' and v.a[0] == 'closure':
                return s.F.fns.get(v.a[1])
            if v.tag == 'fn':
                return s.F.fns.get(v.a[0])
        return f

    def enter(s, fr, b, t, c, fn, args, st):
        nf = s.frame(fn, fr, b)
        fn = nf.fn
        if fn.kind == 'Closure':
            p = fr
            while p is not None and not fn.id.startswith(p.fn.id):
                p = p.parent
            if p is not None:
                nf.subst = p.subst
        elif c is not None and rid(c) == c['fn'] and len(c.get('args') or ()) == len(fn.d.get('gen') or ()):
            nf.subst = {g: fr.ty(a) for g, a in zip(fn.d['gen'], c['args'])}
        if fn.kind == 'Closure':
            # args = (closure or &closure, tuple)
            env = args[0]
            tup = args[1] if len(args) > 1 else None
            want_ref = fn.locals[1].startswith('&')
            vals = []
            if want_ref and env.tag == 'agg':
                p = ((nf.id, 'env'),)
                st.mem[p] = env
                env = mk('ref', p, True)
            elif not want_ref and env.tag == 'ref':
                env = s.readfull(st, env.a[0])
            vals.append(env)
            n = fn.argc - 1
            if tup is not None:
                for i in range(n):
                    vals.append(s.project(st, tup, (('f', i, str(i)),)))
            args = vals
        elif c is not None and c['name'].startswith('core::ops::function::Fn') and len(args) == 2:
            tup = args[1]
            args = [s.project(st, tup, (('f', i, str(i)),)) for i in range(fn.argc)]
        st2 = st.copy()
        for i in range(fn.argc):
            st2.mem[((nf.id, i + 1),)] = args[i] if i < len(args) else mk('arg?', fn.id, i)
        s.inlined.add(fn.id)
        r = s.exec(nf, st2)
        if r is None:
            return 'never'
        ret = s.readfull(r, ((nf.id, 0),))
        # drop the callee's locals
        keep = {}
        for k, v in r.mem.items():
            h = k[0]
            if isinstance(h, tuple) and h[0] == nf.id:
                continue
            keep[k] = v
        # references into the dead frame's locals would dangle; temporaries whose address escapes are rare
        esc = s.refs_into(ret, nf.id)
        for k in esc:
            for kk, v in r.mem.items():
                if kk[:len(k)] == k:
                    keep[kk] = v
        return State(keep, r.facts), ret

    def refs_into(s, v, fid, seen=None):
        out = []
        st = [v]
        seen = set()
        while st:
            x = st.pop()
            if x in seen or len(seen) > 200:
                continue
            seen.add(x)
            if x.tag == 'ref':
                h = x.a[0][0]
                if isinstance(h, tuple) and h[0] == fid:
                    out.append(x.a[0])
            for y in x.a:
                if isinstance(y, V):
                    st.append(y)
                elif isinstance(y, tuple):
                    st.extend(z for z in y if isinstance(z, V))
        return out

    # ---------------------------------------------------------- std models
    def content(s, st, r):
        """value behind a reference argument"""
        if r.tag == 'ref':
            return s.readfull(st, r.a[0])
        if r.tag == 'cref':
            return r.a[0]
        return s.readfull(st, ('*', r))

    def okv(s, ty):
        return 'Some' if 'Option<' in ty[:30] else 'Ok'

    def mkenum(s, adt, var, fs):
        return mk('agg', 'adt', adt, var, tuple(fs), tuple(str(i) for i in range(len(fs))))

    def vmap(s, st, v, f):
        """apply f to each phi alternative"""
        v = s.resolve(st, v)
        return s.lift1(st, f, v)

    def builtin(s, fr, b, t, c, args, st):
        from . import models
        return models.builtin(s, fr, b, t, c, args, st)
