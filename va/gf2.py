"""Words as vectors of linear forms over GF(2): a small abstract interpreter of MIR for checksum kernels.

A word is a list of bits, lowest first; a bit is the set of input bits whose exclusive or it is (the number 1 stands for the constant).  Loops over a byte slice are
entered once with every variable they assign replaced by fresh input bits; the words these variables have after the body are the loop's linear map."""
import re
from .facts import rid, rname, succs

WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i32': 32, 'i64': 64, 'isize': 64, 'bool': 1}
ONE = frozenset([1])
ZERO = frozenset()


class Unknown(Exception):
    pass


def const(v, n):
    return [ONE if v >> i & 1 else ZERO for i in range(n)]


def isword(v):
    return isinstance(v, list)


def known(v):
    """the number a word is, or None"""
    if isword(v) and all(b in (ONE, ZERO) for b in v):
        return sum(1 << i for i, b in enumerate(v) if b)
    return None


def symbols(name, n):
    return [frozenset([(name, i)]) for i in range(n)]


def xor(a, b):
    return [x ^ y for x, y in zip(a, b)]


def fit(a, n):
    return (a + [ZERO] * n)[:n]


class Loop:
    def __init__(s, source, entry, state):
        s.source, s.entry, s.state, s.step = source, entry, state, None


class Run:
    def __init__(s, F, opaque=None):
        s.F = F
        s.loops = []
        s.fresh = 0
        s.opaque = opaque or (lambda f, args: None)     # calls kept as symbols
        s.calls = []
        s.analysed = []

    def table(s, ident):
        c = s.F.consts.get(ident) if hasattr(s.F.consts, 'get') else None
        if c is None:
            c = next((x for x in s.F.consts.values() if x['id'] == ident), None)
        if c is None:
            raise Unknown('table ' + str(ident))
        v = c.get('v')
        if isinstance(v, dict):
            v = v.get('arr', v.get('a'))
        return v, c['t']

    def call(s, fn, args, depth=0):
        if depth > 6:
            raise Unknown('calls too deep')
        s.analysed.append(fn)
        env = {i + 1: a for i, a in enumerate(args)}
        return s.walk(fn, env, 0, None, depth)

    # -- places and operands
    def place(s, env, p):
        if isinstance(p, int):
            return env.get(p)
        v = env.get(p[0])
        for e in p[1]:
            if e == '*':
                if isinstance(v, tuple) and v[0] == 'ref':
                    v = env.get(v[1]) if v[2] is env or v[2] is None else v[2].get(v[1])
                elif isinstance(v, tuple) and v[0] == 'val':
                    v = v[1]
            elif e[0] == 'i':
                v = s.index(v, env.get(e[1]))
            elif e[0] == 'ci':
                v = s.index(v, const(e[1], 64))
            elif e[0] == 'd':
                if isinstance(v, tuple) and v[0] == 'some':
                    continue
                raise Unknown('variant')
            elif e[0] == 'f':
                if isinstance(v, tuple) and v[0] == 'some':
                    v = v[1]
                elif isinstance(v, tuple) and v[0] == 'tuple':
                    v = v[1][e[1]]
                else:
                    return None
            else:
                return None
        return v

    def index(s, v, i):
        if not isword(i):
            raise Unknown('index')
        if isinstance(v, tuple) and v[0] == 'static':
            return s.lookup(v[1], i)
        k = known(i)
        if isinstance(v, tuple) and v[0] == 'bytes' and k is not None and k < len(v[1]):
            return v[1][k]
        raise Unknown('element of a value that is not understood')

    def lookup(s, ident, i):
        T, t = s.table(ident)
        m = re.search(r'\[(u\d+); ', t)
        n = WIDTH[m.group(1)] if m else 0
        if not n or not isinstance(T, list):
            raise Unknown('table ' + str(ident))
        pos = [j for j, b in enumerate(i) if b not in (ONE, ZERO)]
        off = sum(1 << j for j, b in enumerate(i) if b == ONE)
        if len(pos) > 12 or off + sum(1 << j for j in pos) >= len(T):
            raise Unknown('index out of the table')
        base = T[off]
        col = {j: T[off + (1 << j)] ^ base for j in pos}
        for x in range(1 << len(pos)):
            w, o = base, off
            for q, j in enumerate(pos):
                if x >> q & 1:
                    w ^= col[j]
                    o += 1 << j
            if w != T[o]:
                raise Broken('%s is not linear over GF(2): entry %d' % (str(ident).split('::')[-1], o))
        out = const(base, n)
        for j in pos:
            for q in range(n):
                if col[j] >> q & 1:
                    out[q] = out[q] ^ i[j]
        return out

    def operand(s, env, o):
        if o[0] in ('c', 'm'):
            return s.place(env, o[1])
        k = o[1]
        v = k.get('v')
        if isinstance(v, bool):
            return const(int(v), 1)
        if isinstance(v, int) and k.get('t') in WIDTH:
            return const(v % (1 << WIDTH[k['t']]), WIDTH[k['t']])
        if isinstance(v, dict) and 'static' in v:
            return ('static', v['static'])
        if isinstance(v, dict) and ('arr' in v or 'a' in v):
            return None
        return None

    def rvalue(s, env, r):
        if r[0] == 'use':
            return s.operand(env, r[1])
        if r[0] in ('ref', 'raw'):
            p = r[2]
            if isinstance(p, int):
                return ('ref', p, env)
            v = env.get(p[0])
            if p[1] == ['*']:
                return v
            w = s.place(env, p)
            return ('val', w) if w is not None else None
        if r[0] == 'copyref':
            return s.place(env, r[1])
        if r[0] == 'cast':
            a = s.operand(env, r[2])
            if isword(a) and r[3] in WIDTH and not r[3].startswith('i'):
                return fit(a, WIDTH[r[3]])
            if r[1].startswith('PointerCoercion') or 'Unsize' in r[1]:
                return a
            return None
        if r[0] == 'bin':
            op, a, b = r[1], s.operand(env, r[2]), s.operand(env, r[3])
            v = s.bin(op.replace('WithOverflow', '').replace('Unchecked', ''), a, b)
            return ('tuple', [v, None]) if op.endswith('WithOverflow') else v
        if r[0] == 'un' and r[1] == 'Not':
            a = s.operand(env, r[2])
            return [b ^ ONE for b in a] if isword(a) else None
        if r[0] == 'discr':
            return ('discr', s.place(env, r[1]))
        return None

    def bin(s, op, a, b):
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            x, y = known(a), known(b)
            if x is None or y is None:
                return None
            return const(int(dict(Lt=x < y, Le=x <= y, Gt=x > y, Ge=x >= y, Eq=x == y, Ne=x != y)[op]), 1)
        if not isword(a) or not isword(b):
            return None
        n = len(a)
        if op == 'BitXor':
            return xor(a, b)
        if op in ('Shl', 'Shr'):
            k = known(b)
            if k is None or k >= n:
                return None
            return a[k:] + [ZERO] * k if op == 'Shr' else [ZERO] * k + a[:n - k]
        if op in ('BitAnd', 'BitOr', 'Add', 'Mul', 'Sub'):
            x, y = known(a), known(b)
            if x is not None and y is not None:
                return const(dict(BitAnd=x & y, BitOr=x | y, Add=x + y, Mul=x * y, Sub=x - y)[op] % (1 << n), n)
            if op == 'Mul':
                if x is not None:
                    a, b, y = b, a, x
                if y is not None and y and y & (y - 1) == 0:
                    k = y.bit_length() - 1
                    return [ZERO] * k + a[:n - k]
                return None
            out = []
            for p, q in zip(a, b):
                if p == ZERO or q == ZERO:
                    out.append(ZERO if op == 'BitAnd' else p ^ q)
                elif op == 'BitAnd' and (p == ONE or q == ONE or p == q):
                    out.append(q if p == ONE else p)
                elif op == 'BitOr' and (p == ONE or q == ONE or p == q):
                    out.append(ONE if ONE in (p, q) else p)
                else:
                    return None
            return out if op != 'Sub' else None
        return None

    # -- control
    def body(s, fn, b):
        succ = {i: succs(blk['t']) for i, blk in enumerate(fn.blocks)}
        def reach(x):
            seen, w = set(), [x]
            while w:
                y = w.pop()
                for z in succ[y]:
                    if z not in seen:
                        seen.add(z)
                        w.append(z)
            return seen
        r = reach(b)
        return {x for x in r if b in reach(x)}

    def invoke(s, fn, env, b, t, depth):
        c = t['f'][1].get('v') if isinstance(t['f'][1], dict) else None
        n = rname(c) if isinstance(c, dict) and 'fn' in c else ''
        op = n.split('::')[-1]
        a = [s.operand(env, x) for x in t['a']]
        x = a[0] if a else None
        while isinstance(x, tuple) and x[0] == 'ref' and op in ('next', 'remainder', 'try_into', 'into_iter', 'iter', 'chunks_exact', 'len', 'clone', 'copied', 'cloned'):
            x = (x[2] if x[2] is not None else env).get(x[1])
        f = s.F.fns.get(rid(c)) if isinstance(c, dict) and 'fn' in c else None
        if f is not None:
            r = s.opaque(f, a)
            if r is not None:
                return r
            r = s.call(f, a, depth + 1)
            return r[1]
        if op in ('into_iter', 'iter', 'copied', 'cloned', 'by_ref', 'clone', 'deref', 'as_ref', 'borrow', 'as_slice', 'index'):
            if isinstance(x, tuple) and x[0] == 'slice' and op in ('into_iter', 'iter'):
                return ('iter', x, 1)
            if op == 'index':
                return None
            return x
        if op in ('chunks_exact', 'array_chunks') and isinstance(x, tuple) and x[0] == 'slice' and known(a[1]) is not None:
            return ('iter', x, known(a[1]))
        if op == 'remainder' and isinstance(x, tuple) and x[0] == 'iter':
            return ('slice', ('rest', x[1][1], x[2]))
        if op == 'len':
            return None
        if op in ('try_into', 'unwrap', 'expect', 'try_from', 'from', 'into', 'unwrap_or_default'):
            if isword(x):
                w = WIDTH.get(t.get('dt'))
                return fit(x, w) if w else x
            return x if not isinstance(x, tuple) or x[0] != 'some' else x[1]
        if op in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes') and isinstance(x, tuple) and x[0] in ('bytes', 'val'):
            bs = x[1] if x[0] == 'bytes' else x[1][1]
            bs = bs if op != 'from_be_bytes' else bs[::-1]
            return [bit for by in bs for bit in by]
        if op == 'not' and isword(x):
            return [q ^ ONE for q in x]
        if op == 'bitxor' and isword(x) and isword(a[1]):
            return xor(x, a[1])
        if op == 'next' and isinstance(x, tuple) and x[0] == 'iter':
            return s.loop(fn, env, b, t, x, depth)
        return None

    def loop(s, fn, env, b, t, it, depth):
        blocks = s.body(fn, b)
        assigned = set()
        for i in blocks:
            for st in fn.blocks[i]['s']:
                if st[0] == '=':
                    assigned.add(st[1] if isinstance(st[1], int) else st[1][0])
            if fn.blocks[i]['t']['k'] == 'call':
                d = fn.blocks[i]['t']['d']
                assigned.add(d if isinstance(d, int) else d[0])
        # references to locals of this frame may be written through
        state, entry = {}, {}
        for l in sorted(assigned):
            if isword(env.get(l)):
                s.fresh += 1
                entry[l] = env[l]
                state[l] = symbols('s%d' % s.fresh, len(env[l]))
            elif not (isinstance(env.get(l), tuple) and env[l][0] in ('ref', 'iter', 'static')):
                env[l] = None
        L = Loop((it[1], it[2]), entry, state)
        for l, v in state.items():
            env[l] = v
        s.loops.append(L)
        k = len(s.loops)
        s.fresh += 1
        by = [symbols('d%d.%d' % (s.fresh, q), 8) for q in range(it[2])]
        L.data = by
        item = ('some', ('bytes', by) if it[2] > 1 else ('val', by[0]))
        sub = dict(env)
        for l, v in list(sub.items()):          # references to this frame's locals follow the copy
            if isinstance(v, tuple) and v[0] == 'ref' and v[2] is env:
                sub[l] = ('ref', v[1], sub)
        d = t['d']
        sub[d if isinstance(d, int) else d[0]] = item
        r = s.walk(fn, sub, t['t'], b, depth)
        if r[0] != 'back':
            raise Unknown('loop left from its body')
        L.step = {l: r[1].get(l) for l in state}
        if len(s.loops) != k:
            raise Unknown('nested loops')
        env[d if isinstance(d, int) else d[0]] = ('none',)
        return ('jump', s.walk(fn, env, t['t'], None, depth))

    def walk(s, fn, env, b, stop, depth):
        """follow the function from block b until it returns, or reaches the block of the loop being summarised"""
        for _ in range(3000):
            if b == stop:
                return ('back', env)
            r = s.step(fn, env, b, depth)
            if r[0] != 'to':
                return r
            b = r[1]
        raise Unknown('too long')

    def step(s, fn, env, b, depth):
        """one block"""
        blk = fn.blocks[b]
        t = blk['t']
        for st in blk['s']:
            if st[0] != '=':
                continue
            v = s.rvalue(env, st[2])
            if isinstance(st[1], int):
                env[st[1]] = v
            else:
                base = env.get(st[1][0])
                if st[1][1] == ['*'] and isinstance(base, tuple) and base[0] == 'ref':
                    (base[2] if base[2] is not None else env)[base[1]] = v
                else:
                    env[st[1][0]] = None
        k = t['k']
        if k in ('goto', 'drop', 'assert', 'false'):
            return ('to', t['t'])
        if k == 'ret':
            return ('ret', env.get(0))
        if k == 'switch':
            d = s.operand(env, t['d'])
            if isinstance(d, tuple) and d[0] == 'discr':
                d = d[1]
                d = const(1, 64) if isinstance(d, tuple) and d[0] == 'some' else const(0, 64) if d == ('none',) else None
            x = known(d)
            if x is None:
                raise Unknown('branch at %s' % fn.where(t.get('l')))
            return ('to', dict((p, q) for p, q in t['c']).get(x, t.get('o')))
        if k == 'call':
            r = s.invoke(fn, env, b, t, depth)
            if isinstance(r, tuple) and r and r[0] == 'jump':
                return r[1]
            d = t['d']
            env[d if isinstance(d, int) else d[0]] = r if isinstance(d, int) else None
            if t.get('t') is None:
                raise Unknown('call that does not return')
            return ('to', t['t'])
        raise Unknown('terminator ' + str(k))


class Broken(Exception):
    pass

