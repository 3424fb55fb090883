"""Memory accesses without bounds check: pointers are traced to the slice they come from and the access is compared with its length."""
from fractions import Fraction
from .engine import *
from .lib import paths
from .lin import Lin, add, factor, infeasible, relevant
from .models import SIZES, binop, rng, sliceptr, sub, enum

UNIT = mk('agg', 'tuple', '', '', (), ())
PTR = re.compile(r'^core::ptr::(?:mut_ptr|const_ptr)::<impl \*(?:mut|const) T>::(\w+)$')
SL = 'core::slice::<impl [T]>::'


class Poly(Lin):
    """linear arithmetic over monomials"""

    def form(s, v, d=0):
        w = uncast(v)
        if w.tag == 'op' and w.a[0] == 'Mul' and d < 40:
            fx, fy = s.form(w.a[1], d + 1), s.form(w.a[2], d + 1)
            return s.times(fx, fy)
        return super().form(v, d)

    def times(s, fx, fy):
        out = {}
        for a, x in fx.items():
            for b, y in fy.items():
                k = s.mono(a, b)
                out[k] = out.get(k, 0) + x * y
        return {k: c for k, c in out.items() if c}

    def mono(s, a, b):
        if a is None or b is None:
            return a if b is None else b
        fs = tuple(sorted(s.parts(a) + s.parts(b), key=lambda w: w.n))
        v = mk('prod', fs)
        s.atoms[v] = 1
        return v

    def parts(s, a):
        return list(a.a[0]) if a.tag == 'prod' else [a]


def proves(facts, goal):
    """facts imply goal, with products of known inequalities and non-negative quantities"""
    L = Poly()
    if goal[0] == 'eq':
        return proves(facts, ('le', goal[1], goal[2])) and proves(facts, ('le', goal[2], goal[1]))
    d = add(L.form(goal[1]), L.form(goal[2]), -1)
    g = {k: -w for k, w in d.items()}
    if goal[0] == 'le':
        g = add(g, {None: Fraction(1)})
    cons = L.facts(facts)
    cons += L.axioms(set())
    g, cons = replace_equal(L, facts, g, cons)
    base = [c for c in cons if any(k is not None for k in c)]
    # cancel a positive common factor
    extra = []
    for c in base:
        if None in c or len(c) < 2:
            continue
        ks = [L.parts(k) for k in c]
        for f in set(ks[0]):
            if all(f in p for p in ks):
                pos = {f: Fraction(1)}
                if infeasible(relevant(base, pos) + [pos]):
                    r = {}
                    for k, w in c.items():
                        p = L.parts(k)
                        p.remove(f)
                        kk = None if not p else p[0] if len(p) == 1 else mk('prod', tuple(p))
                        r[kk] = r.get(kk, 0) + w
                        if kk is not None:
                            L.atoms[kk] = 1
                    extra.append(r)
    base += extra
    if not any(k is not None for k in g):
        return infeasible([g]) or infeasible(base)
    if infeasible(relevant(base, g) + [g], 20000):
        return True
    if any(k is not None and k.tag == 'prod' for k in g):
        # multiply known inequalities with the factors of the goal
        singles = {x for k in g if k is not None and k.tag == 'prod' for x in k.a[0]}
        for f in sorted(singles, key=lambda v: v.n):
            lin = [c for c in base if not any(k is not None and k.tag == 'prod' for k in c) and not (len(c) == 1 and None not in c)]
            rel = relevant(lin, {x: 1 for x in singles if x is not f})
            pr = [L.times(c, {f: Fraction(1)}) for c in rel]
            if infeasible(relevant(base + pr, g) + [g], 20000):
                return True
    return False


def replace_equal(L, facts, g, cons):
    """substitute atoms that equal a polynomial"""
    for _ in range(4):
        done = True
        for f in facts:
            if len(f) == 3 and f[0] == 'eq' and isinstance(f[1], V) and isinstance(f[2], V):
                for x, y in ((f[1], f[2]), (f[2], f[1])):
                    a = L.form(x)
                    if len(a) != 1 or None in a:
                        continue
                    (k, w), = a.items()
                    p = L.form(y)
                    if w != 1 or k.tag not in ('len',) or k in p or any(q is not None and k in L.parts(q) for q in p):
                        continue

                    def sub1(c):
                        if k not in c:
                            return c
                        r = {q: z for q, z in c.items() if q is not k}
                        return add(r, {q: z * c[k] for q, z in p.items()})
                    if k in g or any(k in c for c in cons):
                        done = False
                        g = sub1(g)
                        cons = [sub1(c) for c in cons]
        if done:
            break
    return g, cons


def size_term(t):
    return C(SIZES[t]) if t in SIZES else mk('call', 'core::mem::size_of', (mk('ty', t),))


def pointee(ty):
    m = re.match(r'^\*(?:mut|const) (.*)$', ty)
    return m.group(1) if m else None


def base_off(p):
    off = C(0)
    p = uncast(p)
    while p.tag == 'padd':
        off = p.a[1] if intc(off) and cv(off) == 0 else mk('op', 'Add', off, p.a[1])
        p = uncast(p.a[0])
    return p, off


def width(op):
    """bytes touched by a load or store intrinsic"""
    if not re.search(r'(load|store|stream|lddqu)', op) or 'mask' in op or re.search(r'_load_|_store_|_stream|load1|loadr|storer|store1|dup|hilo|loadu2|storeu2', op):
        return None
    if re.search(r'_si64$|_epi64$|loadl|storel|loadh|storeh|_sd$', op) and not op.startswith('_mm256') and not re.search(r'loadu_epi64|storeu_epi64', op):
        return 8
    if re.search(r'_si32$|_ss$', op):
        return 4
    if op.endswith('_si16'):
        return 2
    return 32 if op.startswith('_mm256') else 64 if op.startswith('_mm512') else 16 if op.startswith('_mm_') else None


class Mem:
    def __init__(s, F, use):
        """use(fr, t, kind, [(facts, goal)]) is told what an access needs"""
        s.F = F
        s.use = use

    def need(s, e, fr, t, st, kind, a, b):
        s.use(fr, t, kind, [(f, ('le', x, y)) for f, (x, y) in paths(e, st, (a, b))])

    def reach(s, e, fr, t, st, kind, p, n):
        """n bytes from p are inside the slice p comes from"""
        for facts, (p, n) in paths(e, st, (p, n)):
            b, off = base_off(p)
            end = mk('op', 'Add', off, n)
            if b.tag == 'slp':
                s.use(fr, t, kind, [(facts, ('le', end, mk('op', 'Mul', b.a[0].a[0], size_term(b.a[1]))))])
            else:
                s.use(fr, t, kind, [(facts, ('unknown', b))])

    # ---- iterators
    def it(s, e, st, v, d=0):
        v = e.resolve(st, v)
        if v.tag in ('ref', 'cref') and d < 4:
            return s.it(e, st, e.content(st, v), d + 1)
        if v.tag == 'lphi' and d < 4:
            alts = [x for x, _ in e.lphi.get(v, []) if x is not v]
            if alts and all(x is alts[0] for x in alts):
                return s.it(e, st, alts[0], d + 1)
        return v if v.tag == 'itr' else None

    def item(s, e, fr, b, st, v, tag, k=None):
        """(condition of being there, item)"""
        kind = v.a[0]
        if k is None:
            k = mk('sym', 'k', fr.id, b, tag)
        if kind in ('chunks_exact', 'chunks', 'windows'):
            p, n, ln = v.a[1:4]
            if kind == 'windows':
                return binop('Le', binop('Add', k, n), ln), mk('sub', p, n, k)
            if kind == 'chunks_exact':
                return binop('Le', binop('Mul', binop('Add', k, C(1)), n), ln), mk('sub', p, n, binop('Mul', k, n))
            return mk('sym', 'more', fr.id, b, tag), mk('sub', p, mk('sym', 'clen', fr.id, b, tag), binop('Mul', k, n))
        if kind == 'range':
            lo, hi = v.a[1:3]
            x = mk('sym', 'i', fr.id, b, tag)
            return binop('BitAnd', binop('Le', lo, x), binop('Lt', x, hi), 'bool'), x
        if kind == 'zip':
            c1, x = s.item(e, fr, b, st, v.a[1], tag + '0', k)
            c2, y = s.item(e, fr, b, st, v.a[2], tag + '1', k)
            return binop('BitAnd', c1, c2, 'bool'), mk('agg', 'tuple', '', '', (x, y), ())
        if kind == 'enumerate':
            c1, x = s.item(e, fr, b, st, v.a[1], tag, k)
            return c1, mk('agg', 'tuple', '', '', (k, x), ())
        if kind == 'step_by':
            n = v.a[2]
            return s.item(e, fr, b, st, v.a[1], tag, binop('Mul', k, n))
        return mk('sym', 'more', fr.id, b, tag), mk('sym', 'item', fr.id, b, tag)

    def __call__(s, e, fr, b, t, c, args, st):
        n = c['name']
        op = n.split('::')[-1]
        at = t['at']
        if 'core_arch' in n:
            if 'prefetch' in op:
                return UNIT
            for i, ty in enumerate(at):
                if ty.startswith('*'):
                    w = width(op)
                    if w is None:
                        s.use(fr, t, op, [(st.facts, ('unknown', args[i]))])
                    else:
                        s.reach(e, fr, t, st, op, args[i], C(w))
            return None
        m = PTR.match(n)
        if m:
            op = m.group(1)
            es = size_term(fr.ty(pointee(at[0]) or '?'))
            if op in ('add', 'wrapping_add', 'offset', 'wrapping_offset'):
                o = args[1]
                if not (intc(es) and cv(es) == 1):
                    o = binop('Mul', o, es)
                return mk('padd', args[0], uncast(o) if op.endswith('offset') else o)
            if op == 'byte_add':
                return mk('padd', args[0], args[1])
            if op in ('cast', 'cast_mut', 'cast_const'):
                return args[0]
            if op in ('copy_from', 'copy_from_nonoverlapping', 'copy_to', 'copy_to_nonoverlapping'):
                nb = binop('Mul', args[2], es)
                s.reach(e, fr, t, st, op, args[0], nb)
                s.reach(e, fr, t, st, op, args[1], nb)
                return UNIT
            if op in ('write', 'read', 'write_unaligned', 'read_unaligned', 'replace'):
                s.reach(e, fr, t, st, op, args[0], es)
            return None
        m = re.match(r'^core::(?:ptr|intrinsics)::(copy|copy_nonoverlapping|write|read|write_unaligned|read_unaligned|write_bytes)$', n)
        if m:
            es = size_term(fr.ty(c['args'][0]))
            if op.startswith('copy'):
                nb = binop('Mul', args[2], es)
                s.reach(e, fr, t, st, op, args[0], nb)
                s.reach(e, fr, t, st, op, args[1], nb)
                return UNIT
            s.reach(e, fr, t, st, op, args[0], binop('Mul', args[2], es) if op == 'write_bytes' else es)
            return None
        if re.match(r'^core::slice::(raw::)?from_raw_parts(_mut)?$', n):
            es = size_term(fr.ty(c['args'][0]))
            s.reach(e, fr, t, st, op, args[0], binop('Mul', args[1], es))
            return None
        if n in (SL + 'as_ptr', SL + 'as_mut_ptr'):
            m = re.match(r'^&(?:mut )?\[(.*?)(?:; \d+)?\]$', re.sub(r"&'\w+ ", '&', at[0]))
            return mk('slp', mk('lenof', e.len_of(st, args[0], at[0])), fr.ty(m.group(1)) if m else '?')
        if n in (SL + 'get_unchecked', SL + 'get_unchecked_mut'):
            ptr = args[0]
            ln = e.len_of(st, ptr, at[0])
            r = rng(e, st, args[1])
            if r is None and at[1] == 'usize':
                s.need(e, fr, t, st, op, binop('Add', args[1], C(1)), ln)
                return None
            if r is None:
                s.use(fr, t, op, [(st.facts, ('unknown', args[1]))])
                return None
            lo, hi = r
            if hi is None:
                s.need(e, fr, t, st, op, lo, ln)
            else:
                s.need(e, fr, t, st, op, hi, ln)
                s.need(e, fr, t, st, op, lo, hi)
            return sub(e, st, ptr, lo, hi, at[0])
        # ---- slices and iterators
        if n.startswith(SL):
            if op in ('chunks_exact', 'chunks_exact_mut', 'windows', 'chunks', 'chunks_mut'):
                return mk('itr', op.replace('_mut', ''), args[0], args[1], e.len_of(st, args[0], at[0]))
            if op in ('split_at', 'split_at_mut'):
                ln = e.len_of(st, args[0], at[0])
                e.assume(st, ('le', args[1], ln))
                return mk('agg', 'tuple', '', '', (mk('sub', args[0], args[1], C(0)), mk('sub', args[0], binop('Sub', ln, args[1]), args[1])), ())
            m = re.match(r'^(first|last)_chunk(_mut)?$', op)
            if m:
                k = re.search(r'; (\d+)\]', fr.ty(t['dt']) if isinstance(t.get('dt'), str) else '')
                if k:
                    ln = e.len_of(st, args[0], at[0])
                    return mk('condopt', binop('Le', C(int(k.group(1))), ln), mk('sub', args[0], C(int(k.group(1))), C(0) if m.group(1) == 'first' else binop('Sub', ln, C(int(k.group(1))))))
        if n == 'core::convert::TryInto::try_into' or n == 'core::convert::TryFrom::try_from':
            m = re.search(r'Result<&(?:\'\w+ )?(?:mut )?\[[^;\]]*; (\d+)\]', fr.ty(t.get('dt') or ''))
            if m:
                v = args[0]
                ln = e.len_of(st, v, at[0])
                return mk('condopt', binop('Eq', ln, C(int(m.group(1)))), mk('sub', v, C(int(m.group(1))), C(0))) if False else enum('R', 'Ok', mk('sub', v, C(int(m.group(1))), C(0)))
        if n == 'core::iter::traits::collect::IntoIterator::into_iter':
            v = s.it(e, st, args[0])
            if v is not None:
                return v
            a = e.resolve(st, args[0])
            r = rng(e, st, a)
            if r is not None and r[1] is not None and a.tag == 'agg':
                return mk('itr', 'range', r[0], r[1])
        if n.startswith('core::iter::traits::iterator::Iterator::'):
            v = s.it(e, st, args[0])
            if op == 'next' and v is None:
                a = args[0]
                for _ in range(3):
                    if a.tag == 'ref':
                        a = e.resolve(st, e.content(st, a))
                    if a.tag == 'lphi':
                        alts = [x for x, _ in e.lphi.get(a, []) if x is not a]
                        a = alts[0] if alts and all(x is alts[0] for x in alts) else a
                r = rng(e, st, a)
                if r is not None and r[1] is not None:
                    v = mk('itr', 'range', r[0], r[1])
            if v is None:
                return None
            if op == 'zip':
                w = s.it(e, st, args[1])
                return mk('itr', 'zip', v, w if w is not None else mk('itr', 'any'))
            if op == 'enumerate':
                return mk('itr', 'enumerate', v)
            if op == 'step_by':
                return mk('itr', 'step_by', v, args[1])
            if op == 'by_ref':
                return args[0]
            if op == 'next':
                cnd, x = s.item(e, fr, b, st, v, '')
                return mk('condopt', cnd, x)
        return None
