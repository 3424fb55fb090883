"""Evaluate an index-map summary for given sizes: where does every element of the result come from?"""
import itertools
from .index import P, N, S, Elem, Slice, Val, Arr, TOP, Flt, App, Num, family


class Undecided(Exception):
    pass


class Broken(Exception):
    pass


def ev(p, env):
    r = 0
    for m, c in p.t.items():
        for a in m:
            c *= eva(a, env)
        r += c
    return r


def eva(a, env):
    if isinstance(a, tuple) and a[0] in ('div', 'rem', 'min'):
        x, y = ev(P(dict(a[1])), env), ev(P(dict(a[2])), env)
        if a[0] == 'min':
            return min(x, y)
        if y == 0:
            raise Broken('division by zero')
        return x // y if a[0] == 'div' else x % y
    if a not in env:
        raise Undecided('unknown quantity %s' % (a,))
    return env[a]


def cond(c, env):
    if isinstance(c, tuple) and c[0] == 'cmp':
        a, b = ev(c[2], env), ev(c[3], env)
        return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[c[1]]
    raise Undecided('condition')


class Sim:
    def __init__(s, run, sizes, bases, choice=None):
        """bases: name -> (length, token function)"""
        s.run, s.env = run, dict(sizes)
        s.mem, s.time, s.t = {}, {}, 0
        s.wrote = {}
        s.len = {}
        s.choice = choice or {}
        for b, (n, f) in bases.items():
            s.mem[b] = [f(i) for i in range(n)]
            s.len[b] = n

    def base(s, b):
        if isinstance(b, tuple) and any(isinstance(x, P) for x in b):
            return tuple(ev(x, s.env) if isinstance(x, P) else x for x in b)
        return b

    def buf(s, b):
        if family(b) in s.run.tainted:
            raise Undecided('buffer written at an unknown place')
        b = s.base(b)
        if b not in s.mem:
            n = s.run.lens.get(b)
            if n is None and isinstance(b, tuple):
                n = s.run.lens.get(b[:2])
            if n is None:
                raise Undecided('buffer of unknown size')
            n = ev(n, s.env)
            s.mem[b] = [('init', b)] * n
            s.len[b] = n
        return s.mem[b]

    def go(s, out=None):
        """run the copies, those that matter for buffer `out` only when it is given"""
        evs = s.run.events
        if out is not None:
            need, n = {family(out)}, 0
            while n != len(need):
                n = len(need)
                for e in evs:
                    if not isinstance(e.dst, (Elem, Slice)) or family(e.dst.base) in need:
                        if isinstance(e.src, Num):
                            need |= {family(y[0]) for m in e.src.t for y in m}
                        q = e.src.sl if isinstance(e.src, App) else e.src[1] if isinstance(e.src, tuple) and e.src[0] == 'fill' else e.src
                        if isinstance(q, (Val, Slice, Elem)):
                            need.add(family(q.base))
            evs = [e for e in evs if not isinstance(e.dst, (Elem, Slice)) or family(e.dst.base) in need]
        s.exec(evs, 0, 0)

    def holds(s, e):
        for c, pol in e.guards:
            if c[0] == 'zero':
                if s.choice.get(c) != pol:
                    return False
            elif c[0] == 'unk':
                if c[1]:
                    raise Undecided('copy depends on a value inside a loop')
                if s.choice.get(c[1:]) != pol:
                    return False
            elif cond(c, s.env) != pol:
                return False
        return True

    def exec(s, evs, d, start):
        i = 0
        while i < len(evs):
            e = evs[i]
            if len(e.loops) <= d:
                j = i
                while j < len(evs) and len(evs[j].loops) <= d:
                    j += 1
                s.straight(evs[i:j], start)
                i = j
                continue
            k = e.loops[d][0]
            j = i
            while j < len(evs) and len(evs[j].loops) > d and evs[j].loops[d][0] == k:
                j += 1
            grp = evs[i:j]
            # a loop under a guard runs only when the guard holds: sizes in trip counts may make no sense otherwise
            live = []
            for q in grp:
                out = [g for g in q.guards if not s.later(g, d)]
                if s.fails(out):
                    continue
                live.append(q)
            if live:
                cs = live[0].loops[d][1]
                if cs is None:
                    raise Undecided('trip count of the loop around %s line %d' % (live[0].fn.name, live[0].line))
                n = min(ev(c, s.env) for c in cs)
                if n > 4096:
                    raise Broken('loop runs %d times' % n)
                for x in range(max(n, 0)):
                    s.env[k] = x
                    s.exec(live, d + 1, s.t)
                s.env.pop(k, None)
            i = j

    def later(s, g, d):
        """can the guard not be evaluated yet?"""
        try:
            if g[0][0] in ('unk', 'zero'):
                return False
            cond(g[0], s.env)
            return False
        except Undecided:
            return True

    def fails(s, gs):
        for c, pol in gs:
            if c[0] == 'zero':
                if s.choice.get(c) != pol:
                    return True
            elif c[0] == 'unk':
                if not c[1] and s.choice.get(c[1:]) != pol:
                    return True
            elif cond(c, s.env) != pol:
                return True
        return False

    def cell(s, base, i, start, e, at=None):
        base = s.base(base)
        m = s.buf(base)
        if not 0 <= i < len(m):
            raise Broken('%s line %d reads element %d of a %s of %d' % (e.fn.name.split('::')[-1], e.line, i, nm(base), len(m)))
        if s.time.get((base, i), -1) > start and (at is None or s.wrote.get((base, i), at) >= at):
            raise Undecided('%s line %d reads an element the same iteration wrote' % (e.fn.name, e.line))
        return m[i]

    def number(s, x, start, e):
        """token of an affine form over tokens"""
        t, c0 = {}, 0
        for m, c in x.t.items():
            if not m:
                c0 += c
                continue
            if len(m) > 1:
                return ('?',)
            b, i = m[0]
            v = s.cell(b, ev(i, s.env), start, e, x.when)
            if v[0] == '?':
                return v
            for k, q in (v[1] if v[0] == 'lin' else () if v[0] == 'const' else ((v, 1),)):
                t[k] = t.get(k, 0) + c * q
            c0 += c * (v[2] if v[0] == 'lin' else v[1] if v[0] == 'const' else 0)
        return ('lin', tuple(sorted(((k, q) for k, q in t.items() if q), key=repr)), c0)

    def straight(s, evs, start):
        t0 = s.t
        pend = []
        for e in evs:
            if not s.holds(e):
                continue
            if isinstance(e.dst, Elem):
                i = ev(e.dst.idx, s.env)
                if isinstance(e.src, Val):
                    v = s.cell(e.src.base, ev(e.src.idx, s.env), start, e, e.src.when)
                    v = e.src.via + (v,) if e.src.via else v
                elif isinstance(e.src, P):
                    v = ('const', ev(e.src, s.env))
                elif isinstance(e.src, Num):
                    v = s.number(e.src, start, e)
                elif isinstance(e.src, App):
                    o, n = ev(e.src.sl.off, s.env), ev(e.src.sl.len, s.env)
                    m = list(s.buf(e.src.sl.base))
                    for pb, pi, pv, _ in pend:
                        if pb == s.base(e.src.sl.base) and 0 <= pi < len(m):
                            m[pi] = pv
                    if not 0 <= o <= o + n <= len(m):
                        raise Broken('%s line %d reads %d elements at %d of a buffer of %d' % (e.fn.name.split('::')[-1], e.line, n, o, len(m)))
                    v = ('f',) + tuple(m[o:o + n])
                else:
                    v = ('?',)
                pend.append((s.base(e.dst.base), i, v, e))
            elif isinstance(e.dst, Slice):
                o, n = ev(e.dst.off, s.env), ev(e.dst.len, s.env)
                if n < 0:
                    raise Broken('%s line %d slices backwards' % (e.fn.name.split('::')[-1], e.line))
                if isinstance(e.src, Slice):
                    p, m = ev(e.src.off, s.env), ev(e.src.len, s.env)
                    if n != m:
                        raise Broken('%s line %d copies %d elements to %d' % (e.fn.name.split('::')[-1], e.line, m, n))
                    vs = [s.cell(e.src.base, p + q, start, e) for q in range(n)]
                elif isinstance(e.src, tuple) and e.src[0] == 'fill':
                    q = e.src[1]
                    v = ('const', ev(q, s.env)) if isinstance(q, P) else s.cell(q.base, ev(q.idx, s.env), start, e) if isinstance(q, Val) and not q.via else s.number(q, start, e) if isinstance(q, Num) else ('?',)
                    vs = [v] * n
                else:
                    vs = [('?',)] * n
                pend += [(s.base(e.dst.base), o + q, vs[q], e) for q in range(n)]
            else:
                raise Undecided('write to an unknown place')
        s.t += 1
        for b, i, v, e in pend:
            m = s.buf(b)
            if not 0 <= i < len(m):
                raise Broken('%s line %d writes element %d of a %s of %d' % (e.fn.name.split('::')[-1], e.line, i, nm(b), len(m)))
            m[i] = v
            s.time[(b, i)] = s.t
            s.wrote[(b, i)] = getattr(e, 'seq', None)
            if s.wrote[(b, i)] is None:
                del s.wrote[(b, i)]


def nm(b):
    return 'buffer' if isinstance(b, tuple) else 'slice (%s)' % b


def choices(run):
    """every assignment of outcomes to the tests the summary knows nothing about"""
    gs = {}
    for e in run.events:
        for c, pol in e.guards:
            if c[0] == 'unk' and not c[1]:
                gs.setdefault(c[1:], set()).add(pol)
            elif c[0] == 'zero':
                gs[c] = {False, True}
    ks = sorted(gs, key=repr)
    if len(ks) > 6:
        raise Undecided('too many unknown tests')
    for vs in itertools.product(*[sorted(gs[k]) + ([max(gs[k]) + 1] if len(gs[k]) < 2 else []) for k in ks]):
        yield dict(zip(ks, vs))


def check(run, sizes, bases, out, want):
    """compare memory `out` with want(i) for every choice; returns None or a message"""
    if run.opaque:
        raise Undecided('untracked write: %s line %s' % run.opaque[0])
    for ch in choices(run):
        s = Sim(run, sizes, bases, ch)
        s.go()
        m = s.mem[out]
        for i in range(len(m)):
            if m[i] != want(i):
                if m[i] == ('?',):
                    raise Undecided('value of element %d' % i)
                return 'element %d is %s, expected %s' % (i, tok(m[i]), tok(want(i)))
    return None


def tok(v):
    if v and v[0] == 'init':
        return 'never written'
    return ' '.join(str(x) for x in v)
