"""Model of the input stream for the dataflow engine: every value read from the stream becomes the symbol of the bytes at its position.

A field is written be32@8 / le16@14 / u8@3: so many bits, in that byte order, starting at that byte of the stream.  The position is part of the abstract state;
where it is not a known number the field is unknown."""
import re
from .engine import mk, C, cv, intc, uncast, V, _W
from .models import enum, kindof
from .lib import split
from . import lists

POS = (('stream position', 0),)
GET = re.compile(r'^get_u(16|32|64)_(be|le)(_err)?$')
READER = 'bytestream::reader::'


def field(kind, at):
    return mk('sym', '%s@%d' % (kind, at), 'stream', at)


class Stream:
    def __init__(s, pins=None, base=0):
        s.pins = dict(pins or {})      # byte position -> value
        s.reads = {}                   # field name -> place
        s.end = 0                      # end of the last byte read
        s.base = base

    def begin(s, st):
        st.mem[POS] = C(s.base)

    def bytes_at(s, at, n, order):
        """value of n bytes at a position"""
        b = [s.pins.get(at + i) for i in range(n)]
        if None not in b:
            return C(int.from_bytes(bytes(b), 'big' if order == 'be' else 'little'))
        return field('u8' if n == 1 else '%s%d' % (order, 8 * n), at)

    def get(s, e, fr, b, st, n, order):
        p = e.resolve(st, st.mem.get(POS, C(-1)))
        if not intc(p) or cv(p) < 0:
            return mk('sym', 'bytes at an unknown position', fr.id, b)
        v = s.bytes_at(cv(p), n, order)
        s.end = max(s.end, cv(p) + n)
        st.mem[POS] = C(cv(p) + n)
        if v.tag == 'sym':
            s.reads.setdefault(v.a[0], fr)
        return v

    def move(s, e, fr, b, st, k):
        p = e.resolve(st, st.mem.get(POS, C(-1)))
        st.mem[POS] = C(cv(p) + cv(k)) if intc(p) and cv(p) >= 0 and intc(k) else mk('sym', 'position', fr.id, b)

    def array(s, e, fr, b, st, n):
        return mk('agg', 'array', '', '', tuple(s.get(e, fr, b, st, 1, 'be') for _ in range(n)), ())

    def __call__(s, e, fr, b, t, c, args, st):
        n = c['name']
        op = n.split('::')[-1]
        if op in ('from_be_bytes', 'from_le_bytes') and len(args) == 1:
            a = args[0]
            if a.tag == 'agg' and a.a[0] == 'array':
                return join(a.a[3], op[5:7])
            return None
        if op in ('to_be_bytes', 'to_le_bytes') and len(args) == 1 and intc(args[0]) and re.match(r'\[u8; (\d+)\]$', t.get('dt') or ''):
            k = int(re.match(r'\[u8; (\d+)\]$', t['dt']).group(1))
            return lists.arr([C(x) for x in (cv(args[0]) % (1 << 8 * k)).to_bytes(k, 'big' if op == 'to_be_bytes' else 'little')])
        if op in ('unsigned_abs', 'abs') and len(args) == 1 and intc(args[0]):
            return C(abs(cv(args[0])))
        if op in ('try_into', 'try_from') and len(args) == 1 and args[0].tag in ('sub', 'ref', 'sptr', 'slice_of', 'cref') and READER not in n:
            l = lists.elements(e, st, args[0])
            if l is not None and 0 < len(l) <= 16:
                xs = [x.a[0] if x.tag == 'cref' else e.readfull(st, x.a[0]) for x in l]
                return enum('R', 'Ok', lists.arr(xs))
            return None
        if READER not in n:
            return None
        ty = t.get('dt') or ''
        m = GET.match(op)
        if m:
            v = s.get(e, fr, b, st, int(m.group(1)) // 8, m.group(2))
            return enum('R', 'Ok', v) if m.group(3) else v
        if op == 'read_u8':
            return s.get(e, fr, b, st, 1, 'be')
        if op == 'read_u8_err':
            return enum('R', 'Ok', s.get(e, fr, b, st, 1, 'be'))
        if op in ('read_fixed_bytes_or_error', 'read_fixed_bytes_or_zero'):
            k = next((int(x) for x in reversed(c.get('args') or ()) if str(x).isdigit()), None)
            if k is None:
                k = next((int(x) for x in re.findall(r'::<(?:.*, )?(\d+)(?:_usize)?>$', c.get('disp', '') or '')), None)
            if k is None or k > 64:
                s.move(e, fr, b, st, mk('sym', 'length', fr.id, b))
                v = mk('sym', 'bytes read', fr.id, b)
            else:
                v = s.array(e, fr, b, st, k)
            return enum('R', 'Ok', v) if op.endswith('error') else v
        if op == 'skip':
            s.move(e, fr, b, st, args[1])
            return enum('R', 'Ok', mk('sym', 'position after skip', fr.id, b))
        if op == 'rewind':
            s.move(e, fr, b, st, C(-cv(args[1])) if intc(args[1]) else args[1])
            return enum('R', 'Ok', mk('sym', 'position after rewind', fr.id, b))
        if op == 'set_position':
            st.mem[POS] = args[1] if intc(args[1]) else mk('sym', 'position', fr.id, b)
            return enum('R', 'Ok', mk('agg', 'tuple', '', '', (), ()))
        if op == 'position':
            p = e.resolve(st, st.mem.get(POS, C(-1)))
            return enum('R', 'Ok', p)
        if op == 'eof':
            return enum('R', 'Ok', mk('sym', 'end of input', fr.id, b))
        if op in ('read_exact_bytes', 'read_bytes'):
            a = args[1]
            r = arrayref(e, st, a)
            if r is not None:
                p, k = r
                e.write(st, p, s.array(e, fr, b, st, k))
            else:
                e.havoc(st, a, (fr.id, b))
                s.move(e, fr, b, st, mk('sym', 'length', fr.id, b))
            return enum('R', 'Ok', C(r[1]) if op == 'read_bytes' and r else mk('agg', 'tuple', '', '', (), ()))
        if op in ('peek_at', 'get_ref', 'new', 'consume'):
            return None
        if args and t['at'] and t['at'][0].startswith('&mut'):
            s.move(e, fr, b, st, mk('sym', 'length', fr.id, b))
        return None

    def opaque(s, fr, b, t, c, args, st):
        """a call that is not followed: it may move the stream when it is given it"""
        n = c['name'] if c else ''
        if READER in n and n.split('::')[-1] in ('peek_at',):
            return
        for ty in t['at']:
            if ty.startswith('&mut') and ('Reader' in ty or 'Decoder' in ty) or ty.startswith('&mut') and re.match(r'^&mut [A-Z]\w?$', ty):
                st.mem[POS] = mk('sym', 'position', fr.id, b)


def arrayref(e, st, a):
    """(place, length) of a small array behind a reference or slice"""
    v = e.resolve(st, a)
    while v.tag in ('cast',):
        v = v.a[1]
    if v.tag != 'ref':
        return None
    c = e.readfull(st, v.a[0])
    if c.tag == 'agg' and c.a[0] == 'array' and len(c.a[3]) <= 64:
        return v.a[0], len(c.a[3])
    if c.tag in ('rep', 'repeat') and intc(c.a[1]) and cv(c.a[1]) <= 64:
        return v.a[0], cv(c.a[1])
    return None


def join(bs, order):
    """integer made of single bytes"""
    if all(intc(x) for x in bs):
        return C(int.from_bytes(bytes(cv(x) for x in bs), 'big' if order == 'be' else 'little'))
    if all(x.tag == 'sym' and len(x.a) > 2 and x.a[1] == 'stream' and x.a[0].startswith('u8@') for x in bs):
        at = [x.a[2] for x in bs]
        n = len(at)
        if at == list(range(at[0], at[0] + n)):
            return field('%s%d' % (order, 8 * n), at[0])
        if at == list(range(at[0], at[0] - n, -1)):
            return field('%s%d' % ('le' if order == 'be' else 'be', 8 * n), at[-1])
    return None


def weights(v, bits=64):
    """{byte position: weight} of a value that is a sum of stream bytes; None when it is not"""
    if v.tag == 'cast':
        w, to = weights(v.a[1]), v.a[0]
        if w is None or to not in _W:
            return None
        top = sum(x * (1 if k is None or isinstance(k, tuple) else 255) for k, x in w.items())
        n = _W[to] - (to[0] == 'i')
        if 0 <= top < 2 ** n:
            return w
        w = {k: x % 2 ** _W[to] for k, x in w.items()}
        w = {k: x for k, x in w.items() if x}
        if to[0] == 'i':
            w[('signed', to)] = 1
        return w
    if intc(v):
        return {None: cv(v)} if cv(v) else {}
    if v.tag == 'sym' and len(v.a) > 2 and v.a[1] == 'stream':
        k, at = v.a[0].split('@')
        at = int(at)
        if k == 'u8':
            return {at: 1}
        n = int(k[2:]) // 8
        return {at + i: 256 ** ((n - 1 - i) if k[:2] == 'be' else i) for i in range(n)}
    if v.tag == 'op':
        o, a, b = v.a[0], v.a[1], v.a[2]
        if o == 'Shl' and intc(b):
            w = weights(a)
            return None if w is None else {k: x << cv(b) for k, x in w.items()}
        if o == 'Mul' and intc(b):
            w = weights(a)
            return None if w is None else {k: x * cv(b) for k, x in w.items()}
        if o in ('Add', 'BitOr', 'BitXor'):
            p, q = weights(a), weights(b)
            if p is None or q is None:
                return None
            if o != 'Add' and (None in p or None in q or set(p.values()) & set(q.values())):
                return None
            r = dict(p)
            for k, x in q.items():
                r[k] = r.get(k, 0) + x
            return r
    return None


def fields_of(v):
    """stream fields a value is computed from; None when something else is in it"""
    v = uncast(v)
    if intc(v) or v.tag == 'c':
        return set()
    if v.tag == 'sym':
        return {v.a[0]} if len(v.a) > 2 and v.a[1] == 'stream' else None
    out = set()
    for x in v.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, V):
                r = fields_of(y)
                if r is None:
                    return None
                out |= r
    return out if v.tag in ('op', 'un', 'cast', 'call') else None


# ---------------------------------------------------------------- output
OUT = (('bytes written', 0),)
PUT = re.compile(r'^write_u(8|16|32|64)(?:_(be|le))?(_err)?$')
WRITER = 'bytestream::writer::'


def low(v, k):
    """byte k (from the least significant) of a value"""
    if intc(v):
        return C(int(cv(v)) >> (8 * k) & 255)
    while v.tag == 'cast' and v.a[0] in _W and _W[v.a[0]] > 8 * k:
        v = v.a[1]
    if v.tag == 'cast' and v.a[0] in _W and v.a[0][0] == 'u' and _W[v.a[0]] <= 8 * k:
        return C(0)
    return mk('byte', v, k)


class Sink:
    """Model of the output: the sequence of bytes and texts handed to writers, as far as no loop is passed"""

    def __init__(s, F):
        s.F = F
        s.shown = {}

    def begin(s, st):
        st.mem[OUT] = lists.arr(())

    def put(s, e, st, items):
        cur = e.resolve(st, st.mem.get(OUT, C(0)))
        st.mem[OUT] = s.grow(e, st, cur, tuple(items))

    def grow(s, e, st, cur, items):
        if cur.tag == 'phi':
            return mk('phi', cur.a[0], tuple(s.grow(e, st, x, items) for x in cur.a[1]), *cur.a[2:])
        if lists.isarr(cur) and len(cur.a[3]) < 400:
            return lists.arr(cur.a[3] + items)
        return cur

    def word(s, v, n, order):
        b = [low(v, i) for i in range(n)]
        return b if order == 'le' else b[::-1]

    def parts(s, e, st, a):
        """items behind a byte or string pointer"""
        a = e.resolve(st, a)
        seen = 0
        while seen < 6:
            seen += 1
            if a.tag == 'text':
                return list(a.a[0])
            if a.tag == 'cstr':
                return [C(x) for x in a.a[0].encode()]
            if a.tag in ('slice_of', 'cref') and a.a[0].tag in ('text', 'cstr'):
                a = a.a[0]
                continue
            if a.tag == 'ref':
                c = e.resolve(st, e.readfull(st, a.a[0]))
                if c.tag in ('text', 'cstr', 'ref', 'cref', 'slice_of', 'sub'):
                    a = c
                    continue
            l = lists.elements(e, st, a)
            if l is not None:
                xs = [x.a[0] if x.tag == 'cref' else e.resolve(st, e.readfull(st, x.a[0])) for x in l]
                return [C(cv(x) & 255) if intc(x) else x if x.tag == 'byte' else low(x, 0) for x in xs]
            break
        return [mk('blob', a)]

    def display(s, e, st, v):
        """items of a displayed value"""
        v = e.resolve(st, v)
        for _ in range(4):
            if v.tag in ('ref', 'cref', 'slice_of'):
                v = e.resolve(st, v.a[0] if v.tag != 'ref' else e.readfull(st, v.a[0]))
        if v.tag in ('cstr', 'text'):
            return s.parts(e, st, v)
        if intc(v) and not isinstance(cv(v), bool):
            return [C(x) for x in str(cv(v)).encode()]
        if v.tag == 'agg' and v.a[0] == 'adt':
            t = s.shows(v)
            if t is not None:
                return [C(x) for x in t.encode()]
        if v.tag == 'cast' and widens(v):
            return s.display(e, st, v.a[1])
        return [mk('shown', v)]

    def shows(s, v):
        """text an enum value is displayed as"""
        if v in s.shown:
            return s.shown[v]
        s.shown[v] = None
        f = next((f for f in s.F.fns.values() if f.name == '<%s as core::fmt::Display>::fmt' % v.a[1]), None)
        if f is None:
            return None
        from .engine import Engine, State
        from .lib import boxed
        texts = []

        def oc(fr, b, t, c, args, st):
            op = c['name'].split('::')[-1] if c else ''
            if op in ('write_fmt', 'write_str', 'pad'):
                a = args[1]
                texts.append(a.a[0].a[0] if a.tag == 'text' and a.a[0] and False else a)
        e = Engine(s.F, inline=lambda fr, c, fn: True, model=s, on_call=oc)
        st = State()
        e.run(f, args=[boxed(st, 'shown', v), mk('arg', 'f', 0)], state=st)
        if len(texts) == 1:
            x = texts[0]
            xs = x.a[0] if x.tag == 'text' else [C(y) for y in x.a[0].encode()] if x.tag == 'cstr' else None
            if xs is not None and all(intc(y) for y in xs):
                s.shown[v] = bytes(cv(y) for y in xs).decode('latin1')
        return s.shown[v]

    def arguments(s, e, st, args):
        """text of fmt::Arguments::new(template, arguments)"""
        tpl = s.parts(e, st, args[0])
        if not all(intc(x) for x in tpl):
            return None
        tpl = [cv(x) for x in tpl]
        l = lists.elements(e, st, args[1]) if len(args) > 1 else []
        if l is None:
            return None
        vals = [e.resolve(st, x.a[0] if x.tag == 'cref' else e.readfull(st, x.a[0])) for x in l]
        out, i, k = [], 0, 0
        while i < len(tpl):
            b = tpl[i]
            if b == 0:
                break
            if b < 0x80:
                out += [C(x) for x in tpl[i + 1:i + 1 + b]]
                i += 1 + b
            elif b == 0x80:
                n = tpl[i + 1] | tpl[i + 2] << 8
                out += [C(x) for x in tpl[i + 3:i + 3 + n]]
                i += 3 + n
            elif b == 0xC0 and k < len(vals) and vals[k].tag == 'display':
                out += list(vals[k].a[0])
                i += 1
                k += 1
            else:
                return None
        return mk('text', tuple(out))

    def __call__(s, e, fr, b, t, c, args, st):
        n = c['name']
        op = n.split('::')[-1]
        unit = mk('agg', 'tuple', '', '', (), ())
        if 'core::fmt' in n or 'alloc::fmt' in n:
            if op == 'new_display':
                return mk('display', tuple(s.display(e, st, args[0])))
            if op == 'from_str' or op == 'new_const':
                p = s.parts(e, st, args[0])
                return mk('text', tuple(p))
            if op == 'new' and 'Arguments' in n:
                return s.arguments(e, st, args)
            if op == 'format' and args[0].tag == 'text':
                return args[0]
            return None
        if op in ('must_use', 'as_bytes', 'as_str', 'deref', 'into_bytes', 'as_ref', 'to_string', 'as_slice', 'borrow', 'into', 'from', 'to_owned') and len(args) == 1:
            a = args[0]
            if a.tag == 'ref':
                a = e.resolve(st, e.readfull(st, a.a[0]))
            if a.tag == 'text':
                return a
            if op == 'to_string' and 'ToString' in n:
                d = s.display(e, st, args[0])
                if not any(x.tag == 'shown' and x.a[0].tag in ('sym', 'init') for x in d):
                    return mk('text', tuple(d))
            return None
        if op in ('to_be_bytes', 'to_le_bytes') and len(args) == 1:
            m = re.search(r'<impl u(8|16|32|64)>', n)
            if m:
                return lists.arr(s.word(args[0], int(m.group(1)) // 8, op[3:5]))
            return None
        if WRITER not in n:
            return None
        m = PUT.match(op)
        ok = enum('R', 'Ok', unit)
        if m:
            s.put(e, st, s.word(args[1], int(m.group(1)) // 8, m.group(2) or 'be'))
            return ok if m.group(3) else unit
        if op in ('write_all', 'write_const_bytes', 'write_all_bytes', 'write'):
            s.put(e, st, s.parts(e, st, args[1]))
            return ok if op != 'write' else None
        if op == 'reserve':
            return ok
        return None


def widens(v):
    from .engine import widening
    return widening(v.a[2], v.a[0]) if len(v.a) > 2 else False


def written(e, st):
    """[(items, cut short by a loop?)]"""
    out = []

    def go(v, looped, seen):
        v = e.resolve(st, v)
        if v.tag == 'phi':
            for i, x in enumerate(v.a[1]):
                if x.tag != 'bot' and ('x', v.a[0], i) not in st.facts:
                    go(x, looped, seen)
        elif v.tag == 'lphi':
            if v in seen:
                return
            l = e.lphi.get(v, [])
            for x, _ in l:
                go(x, True, seen | {v})
        elif lists.isarr(v):
            out.append((v.a[3], looped))
        else:
            out.append((None, looped))
    go(st.mem.get(OUT, C(0)), False, frozenset())
    return out
