"""Sequences of known length: iterators, closures over them and vectors, element by element.

Used as an engine model together with `engine.unroll` (peeled loops): on an abstract heap whose
lists have a known number of (otherwise unknown) elements, iteration is followed exactly."""
import re
from .engine import mk, C, V, intc, cv, binop, State
from .models import enum, kindof, payload, rng, UNIT
from .facts import rid

LIM = 12
ARR = ('array', '', '')


def arr(xs):
    return mk('agg', 'array', '', '', tuple(xs), ())


def isarr(v):
    return v.tag == 'agg' and v.a[0] == 'array'


def elements(e, st, p, want_mut=False):
    """pointers to the elements behind slice / Vec / array pointer p; None when the number is not known"""
    p = e.resolve(st, p)
    if p.tag == 'cref' or p.tag == 'slice_of':
        v = e.resolve(st, p.a[0])
        if isarr(v):
            return [mk('cref', x) for x in v.a[3]]
        if v.tag == 'repeat' and intc(v.a[1]) and cv(v.a[1]) <= LIM:
            return [mk('cref', v.a[0])] * cv(v.a[1])
        return None
    if p.tag == 'ref' or p.tag == 'sptr':
        path = p.a[0]
        if not path or path[0] == 'eptr':
            return None
        v = e.readfull(st, path)
        if v.tag in ('ref', 'cref', 'slice_of', 'sptr', 'sub') and p.tag == 'ref':
            return elements(e, st, v, want_mut)
        mut = p.tag == 'sptr' or p.a[1]
        if isarr(v):
            return [mk('ref', path + (('i', C(k)),), mut) for k in range(len(v.a[3]))]
        if v.tag == 'repeat' and intc(v.a[1]) and cv(v.a[1]) <= LIM and not mut:
            return [mk('cref', v.a[0])] * cv(v.a[1])
        return None
    if p.tag == 'sub':
        l = elements(e, st, p.a[0], want_mut)
        s_ = p.a[2] if len(p.a) > 2 else C(0)
        if l is None or not intc(p.a[1]) or not intc(s_):
            return None
        return l[cv(s_):cv(s_) + cv(p.a[1])]
    return None


def owned(e, st, v):
    """elements of an owned vector / array value"""
    if isarr(v):
        return list(v.a[3])
    if v.tag == 'repeat' and intc(v.a[1]) and cv(v.a[1]) <= LIM:
        return [v.a[0]] * cv(v.a[1])
    return None


ITERS = ('clist', 'cmap', 'cflat', 'cfilter', 'crange')


def toiter(e, st, v, ty):
    if v.tag in ITERS:
        return v
    if v.tag == 'agg' and v.a[0] == 'adt' and v.a[1].endswith('ops::range::Range') and intc(v.a[3][0]) and intc(v.a[3][1]) and cv(v.a[3][1]) - cv(v.a[3][0]) <= LIM:
        return mk('clist', tuple(C(i) for i in range(cv(v.a[3][0]), cv(v.a[3][1]))))
    if v.tag == 'rangeinc' and intc(v.a[0]) and intc(v.a[1]) and cv(v.a[1]) - cv(v.a[0]) < LIM:
        return mk('clist', tuple(C(i) for i in range(cv(v.a[0]), cv(v.a[1]) + 1)))
    if ty.startswith('&'):
        l = elements(e, st, v)
    else:
        l = owned(e, st, v)
        if l is None and v.tag in ('ref', 'sptr', 'cref', 'sub', 'slice_of'):
            l = elements(e, st, v)
    if l is None and kindof(ty) == 'O':
        k = e.variant(st, v)
        if k == 'Some':
            return mk('clist', (payload(e, st, v, 'Some'),))
        if k == 'None':
            return mk('clist', ())
    return None if l is None else mk('clist', tuple(l))


class Step:
    """evaluation of closures inside one call"""

    def __init__(s, e, fr, b, t, st):
        s.e, s.fr, s.b, s.t, s.st = e, fr, b, t, st
        s.k = 0
        s.never = False

    def call(s, f, args):
        e = s.e
        s.k += 1
        v = f
        if v.tag == 'ref':
            v = e.readfull(s.st, v.a[0])
        fn = None
        if v.tag == 'agg' and v.a[0] == 'closure':
            fn = e.F.fns.get(v.a[1])
        elif v.tag == 'fn':
            fn = e.F.fns.get(v.a[0])
        if fn is None or e.recursive(s.fr, fn) or s.fr.depth >= e.max_depth:
            return None
        if fn.kind == 'Closure':
            a = [f, mk('agg', 'tuple', '', '', tuple(args), ())]
        else:
            a = list(args)
        r = e.enter(s.fr, (s.b, s.k), s.t, None, fn, a, s.st)
        if r == 'never':
            s.never = True
            return mk('bot')
        s.st.mem, s.st.facts = r[0].mem, r[0].facts
        return r[1]

    def join(s, outs):
        """merge the outcomes [(state, value)] of one call into the state of the caller"""
        if not outs:
            return mk('bot')
        cell = ((s.fr.id, 'seq', s.b),)
        for s_, r in outs:
            s_.mem[cell] = r
        m = outs[0][0] if len(outs) == 1 else s.e.merge((s.fr.id, s.b, 'seq'), [s_ for s_, r in outs])
        r = m.mem.pop(cell)
        s.st.mem, s.st.facts = m.mem, m.facts
        return r

    def next(s, it):
        """-> (item or None at the end, rest) ; raises Unknown"""
        if it.tag == 'clist':
            if not it.a[0]:
                return None, it
            return it.a[0][0], mk('clist', it.a[0][1:])
        if it.tag == 'cmap':
            x, rest = s.next(it.a[0])
            if x is None:
                return None, mk('cmap', rest, it.a[1])
            r = s.call(it.a[1], [x])
            if r is None:
                raise Unknown
            return r, mk('cmap', rest, it.a[1])
        if it.tag == 'cfilter':
            rest = it.a[0]
            while True:
                x, rest = s.next(rest)
                if x is None:
                    return None, mk('cfilter', rest, it.a[1], it.a[2])
                if it.a[2]:      # filter_map
                    r = s.call(it.a[1], [x])
                    k = None if r is None else s.e.variant(s.st, r)
                    if k == 'None':
                        continue
                    if k != 'Some':
                        raise Unknown
                    return payload(s.e, s.st, r, 'Some'), mk('cfilter', rest, it.a[1], it.a[2])
                r = s.call(it.a[1], [mk('cref', x)])
                if r is None or not (r.tag == 'c' or s.e.known_bool(s.st, r) is not None):
                    raise Unknown
                if s.e.known_bool(s.st, r):
                    return x, mk('cfilter', rest, it.a[1], it.a[2])
        if it.tag == 'cflat':
            inner, f, cur = it.a
            while True:
                if cur.tag in ITERS:
                    x, cur = s.next(cur)
                    if x is not None:
                        return x, mk('cflat', inner, f, cur)
                y, inner = s.next(inner)
                if y is None:
                    return None, mk('cflat', inner, f, mk('clist', ()))
                if f.tag != 'c':
                    y = s.call(f, [y])
                    if y is None:
                        raise Unknown
                cur = toiter(s.e, s.st, y, '')
                if cur is None:
                    raise Unknown
        raise Unknown

    def all(s, it):
        out = []
        while True:
            x, it = s.next(it)
            if x is None:
                return out
            out.append(x)
            if len(out) > 64:
                raise Unknown


class Unknown(Exception):
    pass


ADAPT = {'map', 'filter', 'filter_map', 'flat_map', 'flatten', 'enumerate', 'zip', 'skip', 'take', 'rev', 'chain', 'copied', 'cloned', 'by_ref', 'inspect', 'peekable', 'fuse', 'step_by', 'into_iter', 'iter'}
EAT = {'any', 'all', 'find', 'position', 'for_each', 'try_for_each', 'fold', 'collect', 'count', 'last', 'nth', 'next', 'find_map', 'max', 'min', 'sum', 'eq', 'unzip'}


def model(e, fr, b, t, c, args, st):
    n = c['name']
    op = n.split('::')[-1]
    at = t['at']
    snap = st.copy()
    try:
        r = _model(e, fr, b, t, c, args, st, n, op, at)
        if r is None:
            st.mem, st.facts = snap.mem, snap.facts
        return r
    except Unknown:
        st.mem, st.facts = snap.mem, snap.facts
        return None


def _model(e, fr, b, t, c, args, st, n, op, at):
    if n.startswith('core::iter::traits::'):
        if n.endswith('IntoIterator::into_iter'):
            it = toiter(e, st, args[0], at[0])
            return it
        if n.startswith('core::iter::traits::iterator::Iterator::') or n.startswith('core::iter::traits::double_ended') or n.startswith('core::iter::traits::exact'):
            return iterop(e, fr, b, t, c, args, st, op, at)
        if n.startswith('core::iter::traits::collect::Extend::extend') and args[0].tag == 'ref':
            v = e.readfull(st, args[0].a[0])
            it = toiter(e, st, args[1], at[1])
            if isarr(v) and it is not None:
                xs = Step(e, fr, b, t, st).all(it)
                if 'cref' in {x.tag for x in xs} or 'ref' in {x.tag for x in xs}:
                    if '&' in at[1]:
                        xs = [e.content(st, x) for x in xs]
                e.write(st, args[0].a[0], arr(v.a[3] + tuple(xs)))
                return UNIT
        return None
    if n.startswith('alloc::boxed::Box::<T') and op == 'new_uninit' and c.get('args') and re.match(r'^\[.*; \d+\]$', c['args'][0]):
        return mk('agg', 'adt', 'alloc::boxed::Box', 'Box', (mk('ref', ((fr.id, 'box', b),), True), mk('sym', 'alloc')), ('0', '1'))
    if n == 'alloc::boxed::box_assume_init_into_vec_unsafe' and args[0].tag == 'agg' and args[0].a[3] and args[0].a[3][0].tag == 'ref':
        p = args[0].a[3][0].a[0]
        for k, v in list(st.mem.items()):
            if k[:len(p)] == p and isarr(v) and all(x[0] == 'f' for x in k[len(p):]):
                return v
        return None
    if n == 'std::thread::scoped::scope':
        return Step(e, fr, b, t, st).call(args[0], [mk('sym', 'scope', fr.id, b)])
    if n.startswith('std::thread::scoped::Scope::') and op == 'spawn':
        r = Step(e, fr, b, t, st).call(args[1], [])
        return None if r is None else mk('joinh', r)
    if n.startswith('std::thread::scoped::ScopedJoinHandle') and op == 'join' and args[0].tag == 'joinh':
        return enum('R', 'Ok', args[0].a[0])
    if n == 'core::slice::<impl [T]>::iter' or n == 'core::slice::<impl [T]>::iter_mut':
        l = elements(e, st, args[0])
        if l is not None and len(l) <= LIM:
            return mk('clist', tuple(l))
        return None
    m = re.match(r'^alloc::vec::Vec::<T(?:, A)?>::(\w+)$', n)
    if m:
        return vecop(e, fr, b, t, c, args, st, m.group(1), at)
    m = re.match(r'^(?:core|alloc)::slice::<impl \[T\]>::(\w+)$', n)
    if m:
        return sliceop(e, fr, b, t, c, args, st, m.group(1), at)
    if n in ('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut') and at[1] == 'usize' and intc(args[1]):
        l = elements(e, st, args[0])
        if l is not None:
            k = cv(args[1])
            return l[k] if k < len(l) else mk('bot')
        return None
    if n in ('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut') and 'Vec<' in at[0]:
        r = rng(e, st, args[1])
        l = elements(e, st, args[0])
        if r is not None and l is not None and intc(r[0]) and (r[1] is None or intc(r[1])):
            a, z = cv(r[0]), len(l) if r[1] is None else cv(r[1])
            if a > z or z > len(l):
                return mk('bot')
            return view(e, st, l[a:z])
        return None
    if n == 'core::clone::Clone::clone':
        v = e.content(st, args[0])
        if isarr(v):
            return v
        return None
    if n == 'alloc::vec::from_elem' and intc(args[1]) and cv(args[1]) <= LIM and not re.match(r'^(u8|u16|f32|i16|i32|u32|f64)$', at[0]):
        return arr([args[0]] * cv(args[1]))
    return None


def view(e, st, l):
    """a slice made of the given element pointers"""
    if all(x.tag == 'cref' for x in l):
        return mk('slice_of', arr([x.a[0] for x in l]))
    if l and all(x.tag == 'ref' and x.a[0][-1][0] == 'i' and x.a[0][:-1] == l[0].a[0][:-1] for x in l):
        ks = [cv(x.a[0][-1][1]) for x in l]
        if ks == list(range(ks[0], ks[0] + len(ks))):
            return mk('sub', mk('ref', l[0].a[0][:-1], l[0].a[1]), C(len(l)), C(ks[0]))
    if not l:
        return mk('slice_of', arr([]))
    raise Unknown


def iterop(e, fr, b, t, c, args, st, op, at):
    a0 = args[0]
    byref = at[0].startswith('&mut ') and a0.tag == 'ref'
    it = e.readfull(st, a0.a[0]) if byref else a0
    it = e.resolve(st, it)
    while byref and it.tag == 'ref' and it.a[1]:
        a0 = it
        it = e.resolve(st, e.readfull(st, a0.a[0]))
    if it.tag not in ITERS:
        it2 = toiter(e, st, it, at[0].lstrip('&').replace('mut ', '') if byref else at[0])
        if it2 is None:
            return None
        it = it2
    s = Step(e, fr, b, t, st)

    def back(rest):
        if byref:
            e.write(st, a0.a[0], rest)
    if op == 'next':
        x, rest = s.next(it)
        back(rest)
        return enum('O', 'None') if x is None else enum('O', 'Some', x)
    if op == 'map':
        return mk('cmap', it, args[1])
    if op in ('filter', 'filter_map'):
        return mk('cfilter', it, args[1], op == 'filter_map')
    if op == 'flat_map':
        return mk('cflat', it, args[1], C(0))
    if op == 'flatten':
        return mk('cflat', it, C(0), C(0))
    if op in ('copied', 'cloned'):
        return mk('clist', tuple(e.content(st, x) for x in s.all(it)))
    if op == 'enumerate':
        return mk('clist', tuple(mk('agg', 'tuple', '', '', (C(i), x), ()) for i, x in enumerate(s.all(it))))
    if op in ('zip', 'chain'):
        o = toiter(e, st, args[1], at[1])
        if o is None:
            return None
        xs, ys = s.all(it), s.all(o)
        if op == 'chain':
            return mk('clist', tuple(xs + ys))
        return mk('clist', tuple(mk('agg', 'tuple', '', '', (x, y), ()) for x, y in zip(xs, ys)))
    if op in ('skip', 'take', 'step_by', 'nth'):
        if not intc(args[1]):
            return None
        k = cv(args[1])
        xs = s.all(it)
        if op == 'nth':
            back(mk('clist', tuple(xs[k + 1:])))
            return enum('O', 'Some', xs[k]) if k < len(xs) else enum('O', 'None')
        return mk('clist', tuple(xs[k:] if op == 'skip' else xs[:k] if op == 'take' else xs[::k]))
    if op == 'rev':
        return mk('clist', tuple(reversed(s.all(it))))
    if op in ('fuse',):
        return it
    if op in ('len',):
        return C(len(s.all(it)))
    if op in ('any', 'all'):
        acc = C(op == 'all')
        for x in drain(s, it, back):
            r = s.call(args[1], [x])
            if r is None:
                return None
            acc = e.lift2(st, lambda p, q: binop('BitAnd' if op == 'all' else 'BitOr', p, q, 'bool'), acc, r)
            if acc.tag == 'c' and bool(cv(acc)) == (op == 'any'):
                return acc
        return acc
    if op in ('find', 'position', 'find_map'):
        # one way out per element that may be the one looked for
        i = 0
        rest = it
        outs = []
        while True:
            x, rest = s.next(rest)
            if x is None:
                back(rest)
                outs.append((st.copy(), enum('O', 'None')))
                return s.join(outs)
            if op == 'find':
                p = ((fr.id, 'find', b, i),)
                st.mem[p] = x
                r = s.call(args[1], [mk('ref', p, False)])
            else:
                r = s.call(args[1], [x])
            if r is None:
                return None
            s1 = st.copy()
            if e.assume_is(s1, r, 'Some', True) if op == 'find_map' else e.assume_bool(s1, r, True):
                keep, s.st = s.st, s1
                st2, st = st, s1
                back(rest)
                s.st, st = keep, st2
                outs.append((s1, r if op == 'find_map' else enum('O', 'Some', x if op == 'find' else C(i))))
            if not (e.assume_is(st, r, 'None', True) if op == 'find_map' else e.assume_bool(st, r, False)):
                return s.join(outs)
            i += 1
    if op in ('for_each', 'try_for_each'):
        outs = []
        k = kindof(t['dt']) if op == 'try_for_each' else None
        if op == 'try_for_each' and k is None:
            return None
        for x in drain(s, it, back):
            r = s.call(args[1], [x])
            if r is None:
                return None
            if s.never:
                return s.join(outs)
            if k:
                s1 = st.copy()
                if e.assume_is(s1, r, 'None' if k == 'O' else 'Err', True):
                    outs.append((s1, e.resolve(s1, r)))
                if not e.assume_is(st, r, 'Some' if k == 'O' else 'Ok', True):
                    return s.join(outs)
        if op == 'for_each':
            return UNIT
        outs.append((st.copy(), enum(k, 'Some' if k == 'O' else 'Ok', UNIT)))
        return s.join(outs)
    if op == 'fold':
        acc = args[1]
        for x in drain(s, it, back):
            acc = s.call(args[2], [acc, x])
            if acc is None:
                return None
        return acc
    if op == 'count':
        return C(len(s.all(it)))
    if op == 'last':
        xs = s.all(it)
        return enum('O', 'Some', xs[-1]) if xs else enum('O', 'None')
    if op == 'collect':
        dt = t['dt']
        xs = s.all(it)
        if dt.startswith('alloc::vec::Vec<'):
            return arr(xs)
        k = kindof(dt)
        if k and 'alloc::vec::Vec<' in dt:
            good = 'Some' if k == 'O' else 'Ok'
            return sequence(s, xs, k, good, lambda ys: arr(ys))
        return None
    return None


def sequence(s, xs, k, good, done):
    """the first failing result of the list xs, or `good` of all the payloads"""
    e, st, bad = s.e, s.st, 'None' if k == 'O' else 'Err'
    outs, ys = [], []
    cur = st.copy()
    for x in xs:
        s1 = cur.copy()
        if e.assume_is(s1, x, bad, True):
            y = e.resolve(s1, x)
            outs.append((s1, enum(k, bad) if k == 'O' else enum('R', 'Err', payload(e, s1, y, 'Err'))))
        if not e.assume_is(cur, x, good, True):
            cur = None
            break
        ys.append(payload(e, cur, e.resolve(cur, x), good))
    if cur is not None:
        outs.append((cur, enum(k, good, done(ys))))
    return s.join(outs)


def drain(s, it, back):
    rest = it
    while True:
        x, rest = s.next(rest)
        if x is None:
            back(rest)
            return
        yield x


def vecop(e, fr, b, t, c, args, st, op, at):
    if op in ('new', 'with_capacity'):
        if re.search(r'Vec<(u8|u16|f32|i16|i32|u32|f64|usize)>', t['dt']):
            return None
        return arr([])
    if not args or args[0].tag != 'ref':
        return None
    v = e.readfull(st, args[0].a[0])
    if not isarr(v):
        return None
    p = args[0].a[0]
    xs = list(v.a[3])
    if op == 'push':
        e.write(st, p, arr(xs + [args[1]]))
        return UNIT
    if op == 'pop':
        if not xs:
            return enum('O', 'None')
        e.write(st, p, arr(xs[:-1]))
        return enum('O', 'Some', xs[-1])
    if op == 'clear':
        e.write(st, p, arr([]))
        return UNIT
    if op == 'truncate' and intc(args[1]):
        e.write(st, p, arr(xs[:cv(args[1])]))
        return UNIT
    if op in ('remove', 'swap_remove') and intc(args[1]):
        k = cv(args[1])
        if k >= len(xs):
            return mk('bot')
        x = xs[k]
        if op == 'remove':
            del xs[k]
        else:
            xs[k] = xs[-1]
            xs.pop()
        e.write(st, p, arr(xs))
        return x
    if op == 'insert' and intc(args[1]):
        k = cv(args[1])
        if k > len(xs):
            return mk('bot')
        e.write(st, p, arr(xs[:k] + [args[2]] + xs[k:]))
        return UNIT
    if op == 'append' and args[1].tag == 'ref':
        w = e.readfull(st, args[1].a[0])
        if isarr(w):
            e.write(st, p, arr(tuple(xs) + w.a[3]))
            e.write(st, args[1].a[0], arr([]))
            return UNIT
    if op in ('reserve', 'shrink_to_fit', 'reserve_exact'):
        return UNIT
    if op == 'is_empty':
        return C(not xs)
    if op == 'drain':
        r = rng(e, st, args[1])
        if r is not None and intc(r[0]) and (r[1] is None or intc(r[1])):
            a, z = cv(r[0]), len(xs) if r[1] is None else cv(r[1])
            e.write(st, p, arr(xs[:a] + xs[z:]))
            return mk('clist', tuple(xs[a:z]))
    return None


def sliceop(e, fr, b, t, c, args, st, op, at):
    if op not in ('contains', 'first', 'last', 'first_mut', 'last_mut', 'split_at', 'split_at_mut', 'get', 'get_mut', 'swap', 'reverse', 'len', 'is_empty', 'to_vec', 'into_vec', 'chunks_exact', 'chunks', 'chunks_exact_mut', 'chunks_mut', 'split_first', 'split_last', 'split_first_mut', 'split_last_mut'):
        return None
    l = elements(e, st, args[0])
    if l is None:
        return None
    if op == 'len':
        return C(len(l))
    if op == 'is_empty':
        return C(not l)
    if op == 'contains':
        x = e.content(st, args[1])
        acc = C(False)
        for p in l:
            y = e.content(st, p)
            kx, ky = e.variant(st, x), e.variant(st, y)
            if isadt(x) and isadt(y) and not x.a[3] and not y.a[3]:
                if kx == ky:
                    return C(True)
            elif intc(x) and intc(y):
                if cv(x) == cv(y):
                    return C(True)
            elif isadt(y) and not y.a[3]:
                acc = binop('BitOr', acc, mk('isv', x, y.a[2]), 'bool') if kx is None else acc
                if kx == y.a[2]:
                    return C(True)
            elif isadt(x) and isadt(y) and kx != ky:
                pass
            else:
                return None
        return acc
    if op in ('first', 'first_mut', 'last', 'last_mut'):
        return enum('O', 'Some', l[0 if op.startswith('f') else -1]) if l else enum('O', 'None')
    if op in ('split_first', 'split_first_mut', 'split_last', 'split_last_mut'):
        if not l:
            return enum('O', 'None')
        a, r = (l[0], l[1:]) if 'first' in op else (l[-1], l[:-1])
        return enum('O', 'Some', mk('agg', 'tuple', '', '', (a, view(e, st, r)), ()))
    if op in ('split_at', 'split_at_mut') and intc(args[1]):
        k = cv(args[1])
        if k > len(l):
            return mk('bot')
        return mk('agg', 'tuple', '', '', (view(e, st, l[:k]), view(e, st, l[k:])), ())
    if op in ('get', 'get_mut'):
        if intc(args[1]):
            k = cv(args[1])
            return enum('O', 'Some', l[k]) if k < len(l) else enum('O', 'None')
        r = rng(e, st, args[1])
        if r is not None and intc(r[0]) and (r[1] is None or intc(r[1])):
            a, z = cv(r[0]), len(l) if r[1] is None else cv(r[1])
            return enum('O', 'None') if a > z or z > len(l) else enum('O', 'Some', view(e, st, l[a:z]))
        return None
    if op == 'to_vec':
        return arr([e.content(st, x) for x in l])
    if op == 'swap' and intc(args[1]) and intc(args[2]) and l and l[0].tag == 'ref':
        i, j = cv(args[1]), cv(args[2])
        if max(i, j) >= len(l):
            return mk('bot')
        x, y = e.content(st, l[i]), e.content(st, l[j])
        e.write(st, l[i].a[0], y)
        e.write(st, l[j].a[0], x)
        return UNIT
    if op.startswith('chunks') and intc(args[1]) and cv(args[1]) > 0:
        k = cv(args[1])
        out = [l[i:i + k] for i in range(0, len(l), k)]
        if 'exact' in op:
            out = [x for x in out if len(x) == k]
        return mk('clist', tuple(view(e, st, x) for x in out))
    return None


def isadt(v):
    return v.tag == 'agg' and v.a[0] == 'adt'


def chain(*ms):
    def model_(e, fr, b, t, c, args, st):
        for m in ms:
            if m is None:
                continue
            r = m(e, fr, b, t, c, args, st)
            if r is not None:
                return r
        return None
    return model_
