"""Vector instructions on registers of known lanes, in real arithmetic (rounding, saturation and wrapping left out)."""
import re
from fractions import Fraction
from .index import *

W = {'epi8': 1, 'epu8': 1, 'epi16': 2, 'epu16': 2, 'epi32': 4, 'epu32': 4, 'epi64': 8, 'epi64x': 8, 'si128': 16, 'ps': 4, 'pd': 8}


def lanes(v, w):
    """values of the lanes of w bytes"""
    out = []
    for i in range(0, len(v.by), w):
        g = v.by[i:i + w]
        if all(q == '0' for q in g):
            out.append(N(0))
        elif isinstance(g[0], tuple) and g[0][0] != 'or' and g[0][2] == 1 and w > 1 and all(q == '0' for q in g[1:]):
            out.append(g[0][0])         # a byte, extended with zeros
        elif all(isinstance(q, tuple) and q[0] != 'or' and q[2] == w and q[1] == j and key(q[0]) == key(g[0][0]) for j, q in enumerate(g)):
            out.append(g[0][0])
        else:
            out.append(whole(g, w))
    return out


def whole(g, w):
    """constant lanes of another width"""
    n = 0
    for j, q in enumerate(g):
        if q == '0':
            continue
        if not isinstance(q, tuple) or q[0] == 'or' or not isinstance(q[0], P) or q[0].const() is None:
            return None
        n |= ((q[0].const() >> (8 * q[1])) & 255) << (8 * j)
    return N(n - (1 << 8 * w) if w > 1 and n >> (8 * w - 1) else n)


def vec(vals, w):
    by = []
    for v in vals:
        by += [None] * w if v is None or v is TOP else [(v, j, w) for j in range(w)]
    return Vec(by)


def some(p, q):
    """bits of either byte"""
    if not isinstance(p, tuple) or not isinstance(q, tuple):
        return None
    out = {}
    for z in (p, q):
        for y in z[1] if z[0] == 'or' else [z]:
            out[(key(y[0]), y[1], y[2])] = y
    return ('or', tuple(out.values()), 0)


def arith(op, a, b):
    if a is None or b is None or a is TOP or b is TOP:
        return None
    if isinstance(a, P) and isinstance(b, P) and a.const() is not None and b.const() is not None and op in ('Add', 'Sub', 'Mul'):
        return {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[op]
    return numop(op, a, b, True)


def imm(c, a, t):
    """the immediate operand: a const generic or the last argument"""
    for z in reversed(c.get('args') or []):
        m = re.match(r'-?\d+$', str(z))
        if m:
            return int(z)
    z = a[-1] if a else None
    return z.const() if isinstance(z, P) else None


def simd(s, op, c, a, t, b):
    """value of the instruction; None when it is not one of these"""
    r = s.r
    line = t.get('l', 0)
    m = re.match(r'_mm(256)?_(\w+)$', op)
    if not m:
        return None
    n = 32 if m.group(1) else 16
    o = m.group(2)
    a = [x.get(b) if isinstance(x, Cell) else x for x in a]
    vs = [x for x in a if isinstance(x, Vec)]
    x = a[0] if a else None
    # memory
    q = re.match(r'(loadu|load|lddqu|loadl)_(si128|si256|epi64|ps)$', o)
    if q and isinstance(x, Slice):
        k = 8 if q.group(1) == 'loadl' else n
        es = r.esize.get(x.base)
        if es is None:
            return TOP
        out = []
        for i in range(k):
            e = r.read(Elem(x.base, x.off + N(i // es)))
            if isinstance(e, Val) and e.base in r.bytesof and es > 1:
                out.append((e, 0, 1) if i % es == 0 else '0')
                continue
            out.append((e, i % es, es) if isinstance(e, (Val, Num, P)) else None)
        return Vec(out + ['0'] * (n - k))
    q = re.match(r'(storeu|store|storel)_(si128|si256|epi64|ps)$', o)
    if q and isinstance(x, Slice):
        es = r.esize.get(x.base)
        if es is None or not isinstance(a[1], Vec):
            r.opaque.append((s.fn.name, line))
            return TOP
        ls = lanes(a[1], es)
        for i in range((8 if q.group(1) == 'storel' else n) // es):
            r.write(Elem(x.base, x.off + N(i)), ls[i] if ls[i] is not None else TOP, s.fn, line)
        return TOP
    # constants
    q = re.match(r'set1_(epi8|epi16|epi32|epi64x|ps)$', o)
    if q:
        w = W[q.group(1)]
        v = x if isinstance(x, (P, Val, Num)) else None
        if isinstance(x, Flt):
            v = num(x)
        return vec([v] * (n // w), w)
    q = re.match(r'(set|setr)_(epi8|epi16|epi32|epi64x)$', o)
    if q:
        w = W[q.group(2)]
        ys = list(a) if q.group(1) == 'setr' else list(reversed(a))
        return vec([y if isinstance(y, (P, Val, Num)) else None for y in ys], w)
    if o in ('setzero_si128', 'setzero_si256', 'setzero_ps', 'undefined_si256', 'undefined_si128'):
        return Vec(['0'] * n)
    if not vs:
        return None
    q = re.match(r'cast(\w+)_(\w+)$', o)
    if q:
        if o == 'castsi256_si128':
            return Vec(x.by[:16])
        if o == 'castsi128_si256':
            return Vec(x.by[:16] + [None] * 16)
        return x
    # lane arithmetic
    q = re.match(r'(add|adds|sub|subs)_(ep[iu]8|ep[iu]16|epi32|epi64|ps)$', o)
    if q and len(vs) == 2:
        w = W[q.group(2)]
        k = 'Add' if q.group(1).startswith('add') else 'Sub'
        return vec([arith(k, p, z) for p, z in zip(lanes(vs[0], w), lanes(vs[1], w))], w)
    q = re.match(r'(mullo|mul)_(epi16|epi32|ps)$', o)
    if q and len(vs) == 2 and not (q.group(1) == 'mul' and q.group(2) == 'epi32'):
        w = W[q.group(2)]
        return vec([arith('Mul', p, z) for p, z in zip(lanes(vs[0], w), lanes(vs[1], w))], w)
    if o in ('mulhrs_epi16', 'mulhi_epi16', 'mulhi_epu16') and len(vs) == 2:
        f = Fraction(1, 32768 if o == 'mulhrs_epi16' else 65536)
        return vec([scale(arith('Mul', p, z), f) for p, z in zip(lanes(vs[0], 2), lanes(vs[1], 2))], 2)
    if o == 'madd_epi16' and len(vs) == 2:
        p, z = lanes(vs[0], 2), lanes(vs[1], 2)
        pr = [arith('Mul', i, j) for i, j in zip(p, z)]
        return vec([arith('Add', pr[i], pr[i + 1]) for i in range(0, len(pr), 2)], 4)
    q = re.match(r'(slli|srli|srai)_(epi16|epi32|epi64)$', o)
    if q:
        w, k = W[q.group(2)], imm(c, a, t)
        if k is None or k >= 8 * w:
            return None
        g = [x.by[i:i + w] for i in range(0, n, w)]
        if q.group(1) == 'slli' and k % 8 == 0 and k and all(z == '0' for y in g for z in y[w - k // 8:]):
            return Vec([z for y in g for z in (['0'] * (k // 8) + y)[:w]])
        f = Fraction(2) ** (k if q.group(1) == 'slli' else -k)
        return vec([scale(p, f) for p in lanes(x, w)], w)
    q = re.match(r'(min|max)_(ep[iu]8|ep[iu]16|epi32)$', o)
    if q and len(vs) == 2:
        w = W[q.group(2)]
        out = []
        for p, z in zip(lanes(vs[0], w), lanes(vs[1], w)):
            ks = [y for y in (p, z) if isinstance(y, P) and y.const() is not None]
            out.append((z if p is ks[0] else p) if len(ks) == 1 else None)
        return vec(out, w)
    q = re.match(r'(packus|packs)_(epi16|epi32)$', o)
    if q and len(vs) == 2:
        w = W[q.group(2)]
        p, z = lanes(vs[0], w), lanes(vs[1], w)
        k = 16 // w
        out = []
        for h in range(0, n // w, k):
            out += p[h:h + k] + z[h:h + k]
        return vec(out, w // 2)
    q = re.match(r'cvtep([iu])(8|16|32)_epi(16|32|64)$', o)
    if q:
        w, z = int(q.group(2)) // 8, int(q.group(3)) // 8
        return vec(lanes(x, w)[:n // z], z)
    # lane movement
    q = re.match(r'unpack(lo|hi)_(epi8|epi16|epi32|epi64|ps|pd)$', o)
    if q and len(vs) == 2:
        w, k = W[q.group(2)], 0 if q.group(1) == 'lo' else 8
        out = []
        for h in range(0, n, 16):
            for i in range(h + k, h + k + 8, w):
                out += vs[0].by[i:i + w] + vs[1].by[i:i + w]
        return Vec(out)
    if o == 'shuffle_epi8' and len(vs) == 2:
        k = lanes(vs[1], 1)
        if any(not isinstance(i, P) or i.const() is None for i in k):
            return Vec([None] * n)
        k = [i.const() & 255 for i in k]
        return Vec(['0' if i & 128 else x.by[(j & ~15) + (i & 15)] for j, i in enumerate(k)])
    if o in ('shuffle_epi32', 'shufflelo_epi16', 'shufflehi_epi16'):
        k = imm(c, a, t)
        if k is None:
            return None
        out = []
        for h in range(0, n, 16):
            g = x.by[h:h + 16]
            sel = [(k >> (2 * i)) & 3 for i in range(4)]
            if o == 'shuffle_epi32':
                out += [y for i in sel for y in g[4 * i:4 * i + 4]]
            elif o == 'shufflelo_epi16':
                out += [y for i in sel for y in g[2 * i:2 * i + 2]] + g[8:]
            else:
                out += g[:8] + [y for i in sel for y in g[8 + 2 * i:10 + 2 * i]]
        return Vec(out)
    if o == 'permute4x64_epi64' or o == 'permute4x64_pd':
        k = imm(c, a, t)
        return Vec([y for i in range(4) for y in x.by[8 * ((k >> (2 * i)) & 3):][:8]]) if k is not None else None
    if o in ('permute2x128_si256', 'permute2f128_si256') and len(vs) == 2:
        k = imm(c, a, t)
        if k is None:
            return None
        out = []
        for z in (k & 15, k >> 4 & 15):
            out += ['0'] * 16 if z & 8 else vs[z >> 1 & 1].by[16 * (z & 1):][:16]
        return Vec(out)
    if o in ('extracti128_si256', 'extractf128_si256'):
        k = imm(c, a, t)
        return Vec(x.by[16 * (k & 1):][:16]) if k is not None else None
    if o in ('inserti128_si256', 'insertf128_si256') and len(vs) == 2:
        k = imm(c, a, t)
        return Vec(vs[1].by[:16] + x.by[16:] if k == 0 else x.by[:16] + vs[1].by[:16]) if k is not None else None
    if o in ('set_m128i', 'setr_m128i') and len(vs) == 2:
        return Vec(vs[1].by + vs[0].by if o == 'set_m128i' else vs[0].by + vs[1].by)
    if o in ('or_si128', 'or_si256') and len(vs) == 2:
        return Vec([p if z == '0' else z if p == '0' else some(p, z) for p, z in zip(vs[0].by, vs[1].by)])
    if o in ('testz_si128', 'testz_si256') and len(vs) == 2 and key(vs[0]) == key(vs[1]):
        es = set()
        for q in x.by:
            q = [q] if isinstance(q, tuple) and q[0] != 'or' else list(q[1]) if isinstance(q, tuple) else None if q is None else []
            if q is None or any(not isinstance(z[0], Val) or z[0].via for z in q):
                return None
            es |= {(z[0].base, z[0].idx.k) for z in q}
        return zero(r, tuple(sorted(es, key=repr)))
    if re.match(r'(b?s[lr]li_(si|epi)128|b[sr]rli_epi128|s[rl]li_si(128|256)|bs[rl]li_epi128)$', o):
        k = imm(c, a, t)
        if k is None:
            return None
        left = 'sll' in o
        out = []
        for h in range(0, n, 16):
            g = x.by[h:h + 16]
            out += (['0'] * k + g)[:16] if left else (g + ['0'] * k)[k:k + 16]
        return Vec(out)
    if o == 'blendv_epi8' and len(vs) == 3:
        k = lanes(vs[2], 1)
        if any(not isinstance(i, P) or i.const() is None for i in k):
            return Vec([None] * n)
        return Vec([z if i.const() & 128 else p for p, z, i in zip(vs[0].by, vs[1].by, k)])
    if o.startswith('blend'):
        k = imm(c, a, t)
        q = re.match(r'blend_(epi16|epi32)$', o)
        if q and k is not None and len(vs) == 2:
            w = W[q.group(1)]
            out = []
            for i in range(n // w):
                z = vs[(k >> (i % 8)) & 1]
                out += z.by[i * w:i * w + w]
            return Vec(out)
    return None


def scale(v, f):
    if v is None or v is TOP:
        return None
    x = num(v)
    return Num({m: c * f for m, c in x.t.items()}, x.when) if x is not None else None
