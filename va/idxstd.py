"""Library functions on slices and iterators, for index maps."""
import re
from .index import *


def rng(v, ln):
    """(start, end) of a range value"""
    if not isinstance(v, Var):
        return None
    t = v.ty.split('::')[-1]
    if t == 'Range' and len(v.xs) == 2:
        return v.xs[0], v.xs[1]
    if t == 'RangeFrom':
        return v.xs[0], ln
    if t == 'RangeTo':
        return N(0), v.xs[0]
    if t == 'RangeFull':
        return N(0), ln
    return None


def toiter(s, v):
    if isinstance(v, Iter):
        if v.taken:
            n = N(v.taken)
            return Iter(lambda k: v.item(k + n), [q - n for q in v.count] if v.count is not None else None)
        return v
    if isinstance(v, Slice):
        return Iter(lambda k: Elem(v.base, v.off + k), [v.len])
    if isinstance(v, Seq):
        return Iter(v.item, v.count)
    if isinstance(v, Arr):
        def item(k):
            c = k.const()
            return v.xs[c] if c is not None and c < len(v.xs) else TOP
        return Iter(item, [N(len(v.xs))])
    if isinstance(v, Var) and v.ty.split('::')[-1] == 'Range' and isinstance(v.xs[0], P) and isinstance(v.xs[1], P):
        a, z = v.xs
        return Iter(lambda k: a + k, [z - a])
    return None


def one(cs):
    """the trip count when it is a single expression"""
    return cs[0] if cs is not None and len(set(cs)) == 1 else None


def deref(s, v):
    return s.r.read(v) if isinstance(v, Elem) else v


def std(s, c, op, a, t, b):
    r = s.r
    x = a[0] if a else None
    line = t.get('l', 0)
    if op == 'new_uninit' and not a:
        return Box()
    if op == 'box_assume_init_into_vec_unsafe' and isinstance(x, Box):
        return x.val
    if op == 'size_of' and not a and c.get('args') and c['args'][0] in SIZES:
        return N(SIZES[c['args'][0]])
    if op in ('as_ptr', 'as_mut_ptr') and isinstance(x, Slice):
        m = re.search(r'\[(\w+)\]|Vec<(\w+)', ' '.join(t.get('at') or []))
        if m and SIZES.get(m.group(1) or m.group(2)):
            r.esize[x.base] = SIZES[m.group(1) or m.group(2)]
        return x
    if op in ('cast', 'cast_mut', 'cast_const') and isinstance(x, Slice):
        return x
    if op == 'add' and isinstance(x, Slice) and isinstance(a[1], P):
        return Slice(x.base, x.off + a[1], x.len - a[1])
    if op in ('len',) and isinstance(x, Slice):
        return x.len
    if op == 'len' and isinstance(x, Arr):
        return N(len(x.xs))
    if op == 'len' and isinstance(x, (Seq, Iter)) and one(x.count) is not None:
        return one(x.count)
    if op == 'is_empty' and isinstance(x, Slice):
        return TOP
    if op in ('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'into_boxed_slice', 'to_vec', 'clone', 'to_owned', 'into_vec', 'from', 'into', 'by_ref'):
        if op in ('to_vec',) and isinstance(x, Slice):
            nb = r.newbase('vec')
            r.lens[nb] = x.len
            v = Slice(nb, N(0), x.len)
            r.write(v, r.content(x), s.fn, line)
            return v
        if op in ('clone', 'to_owned') and isinstance(x, Elem):
            return deref(s, x)
        return x
    if op in ('into_iter', 'iter', 'iter_mut'):
        return toiter(s, x)
    if isinstance(x, Slice):
        if op in ('chunks', 'chunks_mut') and isinstance(a[1], P):
            w = a[1]
            return Iter(lambda k: Slice(x.base, x.off + k * w, pmin(w, x.len - k * w)), [div(x.len + w - N(1), w)])
        if op in ('chunks_exact', 'chunks_exact_mut', 'array_chunks') and len(a) > 1 and isinstance(a[1], P):
            w = a[1]
            return Iter(lambda k: Slice(x.base, x.off + k * w, w), [div(x.len, w)])
        if op in ('rchunks_exact', 'rchunks_exact_mut') and isinstance(a[1], P):
            w = a[1]
            return Iter(lambda k: Slice(x.base, x.off + x.len - (k + N(1)) * w, w), [div(x.len, w)])
        if op == 'windows' and isinstance(a[1], P):
            return Iter(lambda k: Slice(x.base, x.off + k, a[1]), [x.len - a[1] + N(1)])
        if op in ('split_at', 'split_at_mut') and isinstance(a[1], P):
            return Tup([Slice(x.base, x.off, a[1]), Slice(x.base, x.off + a[1], x.len - a[1])])
        if op in ('index', 'index_mut', 'get', 'get_mut', 'get_unchecked', 'get_unchecked_mut'):
            i = a[1]
            v = None
            if isinstance(i, P):
                v = Elem(x.base, x.off + i)
            else:
                q = rng(i, x.len)
                if q is not None and all(isinstance(z, P) for z in q):
                    v = Slice(x.base, x.off + q[0], q[1] - q[0])
            if v is None:
                return None
            return Var('core::option::Option', 'Some?', [v]) if op in ('get', 'get_mut') else v
        if op in ('first', 'first_mut'):
            return Var('core::option::Option', 'Some?', [Elem(x.base, x.off)], ('nonempty',))
        if op in ('last', 'last_mut'):
            return Var('core::option::Option', 'Some?', [Elem(x.base, x.off + x.len - N(1))], ('nonempty',))
        if op in ('first_chunk', 'first_chunk_mut', 'last_chunk', 'last_chunk_mut') and re.match(r'\d+$', str((c.get('args') or [''])[-1])):
            n = N(int(c['args'][-1]))
            return Var('core::option::Option', 'Some?', [Slice(x.base, x.off if 'first' in op else x.off + x.len - n, n)], (('cmp', 'Ge', x.len, n),))
        if op == 'try_into' and len(a) == 1:
            return Var('core::result::Result', 'Ok', [x])
        if op == 'reverse':
            k = ('k', 'reverse', s.r.fresh, s.id)
            s.r.fresh += 1
            r.loops.append((k, (div(x.len, N(2)),)))
            a, z = Elem(x.base, x.off + S(k)), Elem(x.base, x.off + x.len - N(1) - S(k))
            r.write(a, Val(x.base, z.idx), s.fn, line)
            r.write(z, Val(x.base, a.idx), s.fn, line)
            r.loops.pop()
            return TOP
        if op in ('copy_from_slice', 'clone_from_slice'):
            y = a[1]
            if isinstance(y, Slice):
                r.write(x, r.content(y), s.fn, line)
                return TOP
            if isinstance(y, Arr):
                for i, z in enumerate(y.xs):
                    r.write(Elem(x.base, x.off + N(i)), deref(s, z), s.fn, line)
                return TOP
            return None
        if op == 'fill':
            r.write(x, ('fill', a[1]), s.fn, line)
            return TOP
        if op == 'swap' and isinstance(a[1], P) and isinstance(a[2], P):
            return swap(s, Elem(x.base, x.off + a[1]), Elem(x.base, x.off + a[2]), line)
        if op == 'swap_with_slice' and isinstance(a[1], Slice):
            p, q = r.content(x), r.content(a[1])
            r.write(x, q, s.fn, line)
            r.write(a[1], p, s.fn, line)
            return TOP
    if op == 'swap' and len(a) == 2 and isinstance(x, Elem) and isinstance(a[1], Elem):
        return swap(s, x, a[1], line)
    if op == 'replace' and len(a) == 2 and isinstance(x, Elem):
        v = r.read(x)
        r.write(x, a[1], s.fn, line)
        return v
    if op in ('unwrap_or', 'unwrap_or_else', 'unwrap_or_default') and isinstance(x, Var) and (x.v in ('Some', 'Ok') or x.names == ('nonempty',)):
        return x.xs[0]
    if isinstance(x, Iter):
        if x.taken and op not in ('next', 'by_ref'):
            x = toiter(s, x)
        if op == 'sum' and one(x.count) is not None and one(x.count).const() is not None and one(x.count).const() <= 64:
            v = N(0)
            for i in range(one(x.count).const()):
                v = numop('Add', v, deref(s, x.item(N(i))))
                if v is None:
                    return None
            return v
        if op == 'enumerate':
            return Iter(lambda k: Tup([k, x.item(k)]), x.count)
        if op == 'zip':
            y = toiter(s, a[1])
            if y is None:
                return None
            return Iter(lambda k: Tup([x.item(k), y.item(k)]), None if x.count is None or y.count is None else list(x.count) + list(y.count))
        if op == 'rev':
            n = one(x.count)
            return Iter(lambda k: x.item(n - N(1) - k), x.count) if n is not None else None
        if op == 'skip' and isinstance(a[1], P):
            return Iter(lambda k: x.item(k + a[1]), [n - a[1] for n in x.count] if x.count is not None else None)
        if op == 'take' and isinstance(a[1], P):
            return Iter(x.item, (x.count or []) + [a[1]])
        if op == 'step_by' and isinstance(a[1], P):
            return Iter(lambda k: x.item(k * a[1]), [div(n + a[1] - N(1), a[1]) for n in x.count] if x.count is not None else None)
        if op in ('copied', 'cloned'):
            return Iter(lambda k: deref(s, x.item(k)), x.count)
        if op in ('peekable', 'fuse', 'by_ref'):
            return x
        if op == 'map' and isinstance(a[1], Clo):
            return Iter(lambda k: r.closure(a[1], [x.item(k)], s), x.count)
        if op == 'for_each' and isinstance(a[1], Clo):
            k = ('k', 'for_each', b, s.id)
            r.loops.append((k, tuple(x.count) if x.count is not None else None))
            r.closure(a[1], [x.item(S(k))], s)
            r.loops.pop()
            return TOP
        if op == 'flat_map' and isinstance(a[1], Clo):
            return FlatMap(x, a[1])
        if op == 'collect' or op == 'from_iter':
            return collect(s, x, b, line)
        if op == 'next':
            if not s.inloops(b) and x.made == (len(r.loops), r.guards):
                x.taken += 1
                return Var('core::option::Option', 'Some?', [x.item(N(x.taken - 1))], ('nonempty',))
            v = s.open(x, b)
            return Var('core::option::Option', 'Some?', [v]) if v is not None else TOP
        if op == 'count' and one(x.count) is not None:
            return one(x.count)
        return None
    if isinstance(x, FlatMap) and op in ('collect',):
        k = ('k', 'flat_map', b, s.id)
        n = one(x.it.count) or (x.it.count[0] if x.it.count else None)
        r.loops.append((k, tuple(x.it.count) if x.it.count is not None else None))
        v = r.closure(x.clo, [x.it.item(S(k))], s)
        nb = r.newbase('vec')
        if isinstance(v, Arr) and n is not None:
            w = N(len(v.xs))
            for i, z in enumerate(v.xs):
                r.write(Elem(nb, S(k) * w + N(i)), deref(s, z), s.fn, line)
            r.loops.pop()
            r.lens[nb] = n * w
            return Slice(nb, N(0), n * w)
        r.loops.pop()
        return None
    if op == 'from_elem' and len(a) > 1 and isinstance(a[1], P):
        nb = r.newbase('vec')
        r.lens[nb] = a[1]
        return Slice(nb, N(0), a[1])
    if op in ('new', 'with_capacity') and 'Vec' in c['name']:
        return GrowVec()
    if isinstance(x, GrowVec) and op == 'push':
        x.push(s, a[1], b)
        return TOP
    if op in ('unwrap', 'expect', 'unwrap_unchecked', 'unwrap_or_default') and isinstance(x, Var) and x.v in ('Some', 'Some?', 'Ok'):
        return x.xs[0]
    if op in ('try_from', 'try_into') and isinstance(x, P) and len(a) == 1:
        return Var('core::result::Result', 'Ok', [x])
    if r.approx and len(a) >= 1:
        v = reals(s, c, op, a)
        if v is not None:
            return v
    if op in ('unsigned_abs', 'abs') and isinstance(x, P) and x.const() is not None:
        return N(abs(x.const()))
    if op == 'branch' and isinstance(x, Var):
        if x.v in ('Ok', 'Some'):
            return Var('core::ops::control_flow::ControlFlow', 'Continue', x.xs)
        return TOP
    if op == 'map_err' and isinstance(x, Var) and x.v == 'Ok':
        return x
    if op in ('eq', 'ne') and len(a) == 2:
        u, v = deref(s, a[0]), deref(s, a[1])
        if r.approx and isinstance(u, Slice) and isinstance(v, Arr) and u.len.const() == len(v.xs) and all(isinstance(q, P) and q == N(0) for q in v.xs):
            return zero(r, tuple(sorted(((u.base, (u.off + N(i)).k) for i in range(len(v.xs))), key=repr)), op == 'eq')
        if isinstance(u, Var) and isinstance(v, Var) and not u.xs and not v.xs:
            return (u.v == v.v) is (op == 'eq')
        if isinstance(u, P) and isinstance(v, P):
            q = s.binop('Eq', u, v)
            return q is (op == 'eq') if isinstance(q, bool) else TOP
        return TOP
    if op in ('abs',) and isinstance(x, Flt):
        return Flt(abs(x.v))
    if op in ('rem_euclid',) and isinstance(x, Flt) and isinstance(a[1], Flt):
        return Flt(x.v % a[1].v)
    if op == 'min' and len(a) == 2 and isinstance(a[0], P) and isinstance(a[1], P):
        return pmin(a[0], a[1])
    if op == 'max' and len(a) == 2 and isinstance(a[0], P) and isinstance(a[1], P):
        return a[0] + a[1] - pmin(a[0], a[1])
    if op in ('saturating_sub', 'wrapping_sub', 'unchecked_sub') and isinstance(x, P) and isinstance(a[1], P):
        return x - a[1]
    if op in ('wrapping_add', 'saturating_add') and isinstance(x, P) and isinstance(a[1], P):
        return x + a[1]
    if op in ('wrapping_mul', 'saturating_mul') and isinstance(x, P) and isinstance(a[1], P):
        return x * a[1]
    if op == 'div_ceil' and isinstance(x, P) and isinstance(a[1], P):
        return div(x + a[1] - N(1), a[1])
    if op in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes'):
        v = deref(s, x)
        if isinstance(v, Val):
            return Arr([Val(v.base, v.idx, v.via + ('%s%d' % (op[3:5], i),)) for i in range(2)])
        return None
    if op in ('next',) and isinstance(x, Var) and x.ty.split('::')[-1] == 'Range':
        it = toiter(s, x)
        v = s.open(it, b) if it is not None else None
        return Var('core::option::Option', 'Some?', [v]) if v is not None else TOP
    if isinstance(x, Var) and x.ty.split('::')[-1] == 'Range' and op in ('rev', 'step_by', 'zip', 'enumerate', 'map', 'for_each', 'skip', 'take'):
        it = toiter(s, x)
        return std(s, c, op, [it] + list(a[1:]), t, b) if it is not None else None
    if isinstance(x, (Arr, Seq)) and op in ('index', 'index_mut', 'get', 'get_unchecked') and len(a) > 1 and isinstance(a[1], P):
        if isinstance(x, Seq):
            return x.item(a[1])
        i = a[1].const()
        return x.xs[i] if i is not None and i < len(x.xs) else None
    return None


REALS = {'wrapping_add': 'Add', 'wrapping_sub': 'Sub', 'wrapping_mul': 'Mul', 'saturating_add': 'Add', 'saturating_sub': 'Sub', 'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'shr': 'Shr', 'shl': 'Shl'}


def reals(s, c, op, a):
    """arithmetic in the reals: clamps keep the value"""
    xs = [deref(s, q) for q in a]
    if op in REALS and len(xs) == 2 and any(isinstance(q, (Val, Num)) for q in xs):
        return numop(REALS[op], xs[0], xs[1], True)
    if op in ('clamp', 'min', 'max', 'try_from', 'try_into', 'unwrap_or') and isinstance(xs[0], (Val, Num)) and all(isinstance(q, (P, Flt)) for q in xs[1:]):
        return xs[0] if op in ('clamp', 'min', 'max') else None
    return None


def pmin(a, b):
    if a == b:
        return a
    x, y = a.const(), b.const()
    if x is not None and y is not None:
        return N(min(x, y))
    return S(('min', a.k, b.k))


SIZES = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'f64': 8}


def simd(s, op, c, a, t, b):
    r = s.r
    if r.approx:
        from . import simd as vector
        v = vector.simd(s, op, c, a, t, b)
        if v is not None:
            return v
    x = a[0] if a else None
    line = t.get('l', 0)

    def load(sl, n):
        es = r.esize.get(sl.base)
        if es is None:
            return TOP
        out = []
        for i in range(n):
            e = r.read(Elem(sl.base, sl.off + N(i // es)))
            out.append((e, i % es, es) if isinstance(e, Val) else None)
        return Vec(out + ['0'] * (16 - n))

    def store(sl, v, n):
        es = r.esize.get(sl.base)
        if es is None or not isinstance(v, Vec):
            r.opaque.append((s.fn.name, line))
            return TOP
        for i in range(n // es):
            g = v.by[i * es:i * es + es]
            e = g[0][0] if isinstance(g[0], tuple) and all(isinstance(q, tuple) and key(q[0]) == key(g[0][0]) and q[1] == j and q[2] == es for j, q in enumerate(g)) else TOP
            r.write(Elem(sl.base, sl.off + N(i)), e, s.fn, line)
        return TOP
    m = re.match(r'_mm_(loadu|load|loadl)_(si128|ps|epi64|pd)$', op)
    if m and isinstance(x, Slice):
        return load(x, 8 if m.group(1) == 'loadl' else 16)
    m = re.match(r'_mm_(storeu|store|storel)_(si128|ps|epi64|pd)$', op)
    if m and isinstance(x, Slice):
        return store(x, a[1], 8 if m.group(1) == 'storel' else 16)
    m = re.match(r'_mm_unpack(lo|hi)_(epi8|epi16|epi32|epi64|ps|pd)$', op)
    if m and isinstance(x, Vec) and isinstance(a[1], Vec):
        w = {'epi8': 1, 'epi16': 2, 'epi32': 4, 'epi64': 8, 'ps': 4, 'pd': 8}[m.group(2)]
        o = 0 if m.group(1) == 'lo' else 8
        out = []
        for i in range(0, 8, w):
            out += x.by[o + i:o + i + w] + a[1].by[o + i:o + i + w]
        return Vec(out)
    if op == '_mm_movelh_ps' and isinstance(x, Vec) and isinstance(a[1], Vec):
        return Vec(x.by[:8] + a[1].by[:8])
    if op == '_mm_movehl_ps' and isinstance(x, Vec) and isinstance(a[1], Vec):
        return Vec(a[1].by[8:] + x.by[8:])
    if op in ('_mm_castps_si128', '_mm_castsi128_ps', '_mm_castps_pd', '_mm_castpd_ps'):
        return x
    if op in ('_mm_setzero_si128', '_mm_setzero_ps'):
        return Vec(['0'] * 16)
    if op in ('_mm_set_epi8', '_mm_setr_epi8') and all(isinstance(q, P) and q.const() is not None for q in a):
        q = [z.const() for z in a]
        return Arr([N(z) for z in (reversed(q) if op == '_mm_set_epi8' else q)])
    if op == '_mm_shuffle_epi8' and isinstance(x, Vec) and isinstance(a[1], Arr):
        return Vec([x.by[q.const() & 15] if 0 <= q.const() < 128 else '0' for q in a[1].xs])
    if op == '_mm_or_si128' and isinstance(x, Vec) and isinstance(a[1], Vec):
        return Vec([p if q == '0' else q if p == '0' else None for p, q in zip(x.by, a[1].by)])
    if op == '_MM_TRANSPOSE4_PS' and all(isinstance(q, Vec) for q in a) and all(z[0] in ('c', 'm') and z[1] in s.rl for z in t['a']):
        for i, z in enumerate(t['a']):
            s.env[s.rl[z[1]]] = Vec([y for q in a for y in q.by[4 * i:4 * i + 4]])
        return TOP
    if any(isinstance(q, Slice) for q in a):
        r.opaque.append((s.fn.name, line))
    for z in t['a']:
        if z[0] in ('c', 'm') and isinstance(z[1], int) and z[1] in s.rl:
            s.env[s.rl[z[1]]] = TOP
    return TOP


def swap(s, x, y, line):
    p, q = s.r.read(x), s.r.read(y)
    s.r.write(x, q, s.fn, line)
    s.r.write(y, p, s.fn, line)
    return TOP


class FlatMap:
    def __init__(s, it, clo):
        s.it, s.clo = it, clo

    def key(s):
        return ('fm', id(s))


class GrowVec(Seq):
    """Vec filled by pushes: one push in a loop gives an item per iteration, otherwise the pushed items in order"""

    def __init__(s):
        s.items, s.loop, s.count = [], None, None

    def item(s, k):
        if s.loop is not None:
            v, sym = s.loop
            return subst(v, sym, k)
        c = k.const()
        return s.items[c] if c is not None and c < len(s.items) else TOP

    def push(s, ctx, v, b):
        if ctx.r.loops and ctx.inloops(b):
            k, n = ctx.r.loops[-1]
            if s.items or s.loop:
                s.loop, s.items = (TOP, k), []
                return
            s.loop, s.count = (v, k), list(n) if n is not None else None
        else:
            s.items.append(v)
            s.count = [N(len(s.items))]

    def key(s):
        return ('gv', id(s))


def subst(v, sym, k):
    if isinstance(v, P):
        return subp(v, sym, k)
    if isinstance(v, Slice):
        return Slice(subb(v.base, sym, k), subp(v.off, sym, k), subp(v.len, sym, k))
    if isinstance(v, Elem):
        return Elem(subb(v.base, sym, k), subp(v.idx, sym, k))
    if isinstance(v, Val):
        return Val(subb(v.base, sym, k), subp(v.idx, sym, k), v.via)
    if isinstance(v, Tup):
        return Tup([subst(x, sym, k) for x in v.xs])
    if isinstance(v, Arr):
        return Arr([subst(x, sym, k) for x in v.xs])
    if hasattr(v, 'subst'):
        return v.subst(sym, k)
    if isinstance(v, Var):
        return Var(v.ty, v.v, [subst(x, sym, k) for x in v.xs], v.names)
    return TOP


def subb(b, sym, k):
    if isinstance(b, tuple):
        return tuple(subp(x, sym, k) if isinstance(x, P) else x for x in b)
    return b


def collect(s, x, b, line):
    k = ('k', 'collect', b, s.id)
    s.r.loops.append((k, tuple(x.count) if x.count is not None else None))
    v = x.item(S(k))
    if isinstance(v, (Val, Elem)) and x.count:
        nb = s.r.newbase('vec')
        s.r.write(Elem(nb, S(k)), deref(s, v), s.fn, line)
        s.r.loops.pop()
        s.r.lens[nb] = x.count[0]
        return Slice(nb, N(0), x.count[0])
    s.r.loops.pop()
    if v is TOP or v is None:
        return None
    return Seq(lambda q: subst(v, k, q), x.count)
