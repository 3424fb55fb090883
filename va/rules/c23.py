"""C23: checksums are computed as specified and compared when asked."""
import re
from ..engine import mk, C, cv, intc, V, Budget, State
from ..models import enum
from ..lib import split, retval, boxed
from ..core import NoAnswer
from ..facts import rid, rname
from ..stream import Stream, Sink, written, low, POS, OUT, field
from .. import gf2, lists
from . import c03

PROP = dict(
    id='C23',
    title='Checksums of PNG, zlib and gzip data are computed and verified as specified',
    statement='The CRC routines compute CRC-32 (polynomial EDB88320 reflected) of all the bytes they are given, continuing from the value they are given, for every length. A PNG chunk is written with its length, type, data and the CRC of type and data, high byte first. When verification is asked for, a PNG chunk header is read successfully only if the stored CRC (the four bytes after the data, high byte first) is that of type and data, '
              'zlib data is decoded successfully only if the stored Adler-32 (high byte first) is that of the decoded data, and gzip data only if its stored CRC-32 (low byte first) is that of the decoded data; when it is not asked for, the checksum does not matter. Gzip data is in any case refused unless its stored length is that of the decoded data; '
              'a zlib or gzip stream is refused unless its header names the deflate method (zlib: with a window of at most 32 KiB and a header sum divisible by 31; gzip: with the bytes 1F 8B and no reserved flag).',
    quantifier=dict(over=['inputs', 'configurations'], text='every data and length, every stored checksum'),
    why_tests_cant='Tests decode valid files, where a check that compares too little, or not at all, passes; a wrong table entry or remainder shows only for data that reaches it.',
    anchors=dict(files=['crates/zune-png/src/crc.rs', 'crates/zune-png/src/crc/crc_tables.rs', 'crates/zune-inflate/src/crc.rs', 'crates/zune-inflate/src/crc/crc_tables.rs', 'crates/zune-png/src/decoder.rs', 'crates/zune-png/src/headers/writers.rs', 'crates/zune-inflate/src/decoder.rs'],
                 mechanism=[dict(name='crc32_slice8', where='crates/zune-png/src/crc.rs'), dict(name='crc32', where='crates/zune-inflate/src/crc.rs'), dict(name='read_chunk_header', where='crates/zune-png/src/decoder.rs'), dict(name='write_chunk, write_header_fn', where='crates/zune-png/src/headers/writers.rs'), dict(name='decode_zlib, decode_gzip', where='crates/zune-inflate/src/decoder.rs')]))
TECHNIQUE = 'abstract interpretation of MIR over vectors of GF(2)-linear forms (checksum kernels); path facts of the dataflow engine at every success exit (verification)'
EXPLAIN = """
Kernels: a word is a vector of 32 or 64 bits, each the exclusive or of input bits.  A lookup is accepted if the part of the table it can reach is GF(2)-affine (every entry is compared), which makes its result a vector of forms again.  A loop over the data is entered with the state replaced by fresh bits; its body's map is compared with the
map of the specification for that many bytes, bit by bit; the loops must cover the whole slice (chunks, then their remainder), start with the given value and return the last state.
Verification: the reading functions are walked with the option off and on (set by its own setter), chunk length and type pinned.  With the option on, every success exit must carry the fact that the stored number equals the checksum of exactly the required data; with it off no checksum may be computed.  Headers are pinned to invalid bytes and must leave no success exit.
The writers are walked with the model of the output used for C41.
"""
ASSUME = ['Adler-32 itself is computed by the external crate simd_adler32; that it is given all the data is checked', 'the place of the trailer in zlib and gzip data depends on the length of the deflate stream and is not checked', 'a PNG chunk of 5 bytes stands for chunks of every length']

POLY = 0xEDB88320


def spec(state, data):
    s = list(state)
    for by in data:
        for i in range(8):
            s[i] = s[i] ^ by[i]
        for _ in range(8):
            c = s[0]
            s = s[1:] + [gf2.ZERO]
            s = [b ^ c if POLY >> i & 1 else b for i, b in enumerate(s)]
    return s


def kernels(F):
    return sorted((f for f in F.fns.values() if re.match(r'zune_(png|inflate)::crc::', f.name) and f.kind != 'Closure' and f.ins() == ['&[u8]', 'u32'] and f.out() == 'u32'), key=lambda f: f.name)


def kernel(F, f):
    """None or what is wrong"""
    r = gf2.Run(F)
    init = gf2.symbols('crc', 32)
    v = r.call(f, [('slice', ('data',)), init])
    v = v[1]
    if not gf2.isword(v):
        raise gf2.Unknown('result is not a word')
    cur, src, done = init, ('data',), False
    for L in r.loops:
        if done:
            raise gf2.Unknown('more loops than data')
        base, n = L.source
        if base[1] != src:
            raise gf2.Unknown('loop over other bytes')
        # the state: the variable that holds the value so far
        st = [l for l in L.state if len(L.state[l]) == 32]
        carried = [l for l in st if L.entry[l] == cur]
        if not carried:
            if len(st) == 1:
                return 'the loop over %s starts from another value than the checksum so far' % ('single bytes' if n == 1 else '%d bytes' % n)
            raise gf2.Unknown('state of the loop')
        nxt = None
        bad = None
        for l in carried:
            want = spec(L.state[l], L.data)
            got = L.step[l]
            if got == want:
                nxt = L.state[l]
                break
            if gf2.isword(got) and got != L.state[l]:
                d = next(i for i in range(32) if got[i] != want[i])
                bad = 'bit %d after %d byte%s is not that of CRC-32' % (d, n, 's' if n > 1 else '')
        if nxt is None:
            if bad is None:
                raise gf2.Unknown('step of the loop')
            return bad
        cur = nxt
        if n == 1:
            done = True
        else:
            src = ('rest', src, n)
    if not done:
        if r.loops:
            return 'the last bytes of the data are not covered'
        raise gf2.Unknown('no loop over the data')
    if v != cur:
        return 'the value returned is not the checksum'
    return None


def engine(F, crate):
    e = c03.engine(F, crate)
    e.max_steps = 600000
    return e


def summed(ks):
    """model of the checksum routines: the result is a symbol; calls are recorded"""
    calls = []

    def m(e, fr, b, t, c, args, st):
        i = rid(c)
        if i in ks:
            v = mk('sym', 'sum', 'checksum', len(calls))
            for k, (x, y, z) in enumerate(calls):
                if (x, y) == (args[0], args[1] if len(args) > 1 else None):
                    return z
            calls.append((args[0], args[1] if len(args) > 1 else None, v))
            return v
        return None
    return m, calls


class Chunk(Stream):
    """the stream, with ranges of bytes that are looked at kept as such"""

    def __init__(s, pins, sums, flag):
        Stream.__init__(s, pins)
        s.sums, s.flag = sums, flag

    def __call__(s, e, fr, b, t, c, args, st):
        op = c['name'].split('::')[-1]
        if op == 'png_get_confirm_crc':
            return C(s.flag)
        r = s.sums(e, fr, b, t, c, args, st)
        if r is not None:
            return r
        if op == 'peek_at':
            p = e.resolve(st, st.mem.get(POS, C(-1)))
            if intc(p) and intc(args[1]) and intc(args[2]):
                at, n = cv(p) + cv(args[1]), cv(args[2])
                return enum('R', 'Ok', mk('sym', 'bytes', 'stream', (at, n)))
        if op in ('copy_from_slice', 'clone_from_slice') and is_bytes(args[1]):
            at, n = is_bytes(args[1])
            from ..stream import arrayref
            q = arrayref(e, st, args[0])
            if q is not None and q[1] == n:
                e.write(st, q[0], lists.arr([s.bytes_at(at + i, 1, 'be') for i in range(n)]))
                return mk('agg', 'tuple', '', '', (), ())
        if op in ('try_into', 'try_from') and is_bytes(args[0]) and is_bytes(args[0])[1] <= 8:
            at, n = is_bytes(args[0])
            return enum('R', 'Ok', lists.arr([s.bytes_at(at + i, 1, 'be') for i in range(n)]))
        return Stream.__call__(s, e, fr, b, t, c, args, st)


def is_bytes(v):
    for _ in range(3):
        if v.tag in ('slice_of', 'cref'):
            v = v.a[0]
    return v.a[2] if v.tag == 'sym' and v.a[0] == 'bytes' and v.a[1] == 'stream' else None


def equalities(x):
    return [(f[1], f[2]) for f in x.facts if f[0] == 'eq']


def inverted(v):
    """(value, number of Not around it)"""
    n = 0
    while v.tag in ('Not', 'op', 'un') and v.a and (v.tag == 'Not' or v.a[0] == 'Not'):
        v = v.a[0] if v.tag == 'Not' else v.a[1]
        n += 1
    if v.tag == 'op' and v.a[0] == 'BitXor' and any(intc(y) and cv(y) & 0xffffffff == 0xffffffff for y in v.a[1:]):
        w = next(y for y in v.a[1:] if not intc(y))
        v, k = inverted(w)
        n += k + 1
    return v, n


def ones(v):
    return v is not None and intc(v) and cv(v) & 0xffffffff == 0xffffffff


def png(cx, F, ks):
    f = next((f for f in F.fns.values() if re.match(r'zune_png::decoder::PngDecoder::<\w+>::read_chunk_header$', f.name)), None)
    if f is None:
        return cx.undec('png/read', 'reader of chunk headers not found', '')
    cx.analysed(f)
    selfv = mk('arg', 'decoder', 0)
    ty = f.name.rsplit('::', 1)[0]
    for flag in (0, 1):
        for name in (b'IHDR', b'IDAT', b'IEND', b'fdAT', b'PLTE', b'tRNS', b'abcd'):
            e = engine(F, 'zune_png')
            sums, calls = summed(ks)
            S = Chunk(dict(enumerate(b'\0\0\0\5' + name)), sums, flag)
            e.model, e.opaque = S, S.opaque
            _, st0 = c03.start(e, F, ty, selfv)
            S.begin(st0)
            key = 'png/read/%s/%s' % (name.decode(), 'verified' if flag else 'not verified')
            try:
                fr, st = e.run(f, args=[selfv], state=st0)
            except (Budget, RecursionError) as b:
                cx.undec(key, 'not followed', f.name)
                continue
            oks = [] if st is None else [x for x, _ in split(e, st, retval(e, fr, st), 'Ok')]
            if not oks:
                cx.undec(key, 'no success exit', f.where())
                continue
            bad = und = None
            for x in oks:
                if not flag:
                    if calls and any(is_sum(y) for p in equalities(x) for y in p):
                        bad = 'the checksum decides although verification is off'
                    continue
                r = [check_png(e, x, p, calls) for p in equalities(x)]
                if True in r:
                    continue
                w = [y for y in r if isinstance(y, str)]
                bad = w[0] if w else 'success without comparing the stored CRC with that of type and data'
            cx.ob(key, bad is None, bad or ('compared on each of %d success exits' % len(oks) if flag else 'no checksum involved'), f.where())


def is_sum(v):
    v, _ = inverted(v)
    return v.tag == 'sym' and v.a[1] == 'checksum'


def check_png(e, x, pair, calls):
    from ..stream import weights
    for a, b in (pair, pair[::-1]):
        v, n = inverted(e.deep(x, a))
        if v.tag == 'sym' and v.a[1] == 'checksum':
            d, init, _ = calls[v.a[2]]
            d = is_bytes(e.deep(x, d)) if d.tag != 'sym' else is_bytes(d)
            if d is None:
                return None
            if d != (4, 9):
                return 'the CRC covers bytes %d to %d of a chunk instead of 4 to 12 (type and 5 bytes of data)' % (d[0], d[0] + d[1] - 1)
            if not ones(init) or n % 2 != 1:
                return 'the CRC is not started with ones and inverted at the end'
            w, k = inverted(e.deep(x, b))
            if k % 2:
                return 'the CRC is not inverted as specified'
            if w.tag == 'sym' and w.a[1] == 'stream':
                return True if w == field('be32', 13) else 'the CRC is compared with %s instead of the four bytes after the data' % w.a[0]
            return True if weights(w) == weights(field('be32', 13)) else None
    return None


def writers(cx, F, ks):
    f = next((f for f in F.fns.values() if f.name.endswith('headers::writers::write_chunk')), None)
    if f is None:
        cx.undec('png/write', 'writer of chunks not found', '')
    else:
        cx.analysed(f)
        e = engine(F, 'zune_png')
        sums, calls = summed(ks)
        S = Sink(F)

        def model(e, fr, b, t, c, args, st):
            return sums(e, fr, b, t, c, args, st) or S(e, fr, b, t, c, args, st)
        e.model = model
        st0 = State({}, frozenset())
        S.begin(st0)
        chunk = mk('arg', 'chunk', 0)
        adt = f.ins()[0]
        data = mk('arg', 'data', 1)
        fr, st = e.run(f, args=[chunk, data, mk('arg', 'writer', 2)], state=st0)
        oks = [] if st is None else [x for x, _ in split(e, st, retval(e, fr, st), 'Ok')]
        for x in oks:
            for items, looped in written(e, x):
                if items is None or looped:
                    cx.undec('png/write/chunk', 'output not followed', f.where())
                    continue
                judge_chunk(cx, f, e, x, [e.deep(x, i) for i in items], calls, chunk, data)
        if not oks:
            cx.undec('png/write/chunk', 'no success exit', f.where())
    g = next((f for f in F.fns.values() if f.name.endswith('headers::writers::write_header_fn')), None)
    if g is None:
        return cx.undec('png/write header', 'writer of header chunks not found', '')
    cx.analysed(g)
    e = engine(F, 'zune_png')
    sums, calls = summed(ks)
    puts = []
    S = Sink(F)

    def model2(e, fr, b, t, c, args, st):
        r = sums(e, fr, b, t, c, args, st)
        if r is not None:
            return r
        op = c['name'].split('::')[-1]
        if op in ('extend_from_slice', 'extend') and len(args) == 2:
            puts.append((fr, st, [e.deep(st, i) for i in S.parts(e, st, args[1])]))
        if op in ('to_be_bytes', 'to_le_bytes'):
            return S(e, fr, b, t, c, args, st)
        return None
    e.model = model2
    fr, st = e.run(g, args=[mk('arg', n, i) for i, n in enumerate(('encoder', 'writer', 'name', 'func'))])
    last = [p for p in puts if any(is_sum(drop(i)) for i in p[2])]
    if not last or not calls:
        return cx.undec('png/write header/crc', 'checksum of header chunks not found', g.where())
    bad = None
    for _, s, items in last:
        v = whole(items)
        if v is None:
            bad = 'the CRC is not written as four bytes, high byte first'
            continue
        w, n = inverted(v)
        d, init, _ = calls[w.a[2]]
        if not ones(init) or n % 2 != 1:
            bad = 'the CRC is not started with ones and inverted at the end'
        r = start_of(e.deep(s, d), e, s)
        if r is not None and r != 4:
            bad = 'the CRC covers the chunk from byte %d on instead of 4' % r
    cx.ob('png/write header/crc', bad is None, bad or 'type and data, big endian', g.where())


def start_of(v, e, st):
    """first element of a slice of a vector"""
    if v.tag in ('slice_of', 'cref', 'ref') and isinstance(v.a[0], V):
        return start_of(v.a[0], e, st)
    if v.tag == 'sub':
        for y in v.a:
            if isinstance(y, V) and intc(y):
                return cv(y)
    if v.tag == 'call' and v.a[0].endswith('::index'):
        r = v.a[1][1] if len(v.a[1]) > 1 else None
        if r is not None and r.tag == 'agg' and r.a[3] and intc(r.a[3][0]) and 'RangeFrom' in str(r.a[1]):
            return cv(r.a[3][0])
    m = re.search(r'RangeFrom::RangeFrom\{(\d+)\}', repr(v))
    return int(m.group(1)) if m else None


def drop(i):
    return i.a[0] if i.tag == 'byte' else i


def whole(items):
    """the word four written bytes are, high byte first"""
    if len(items) == 4 and all(i.tag == 'byte' for i in items) and len({i.a[0] for i in items}) == 1 and [i.a[1] if isinstance(i.a[1], int) else cv(i.a[1]) for i in items] == [3, 2, 1, 0]:
        return items[0].a[0]
    return None


def judge_chunk(cx, f, e, x, items, calls, chunk, data):
    key = 'png/write/chunk'
    v = whole(items[-4:])
    if v is None or not is_sum(v):
        k = [i for i in items if is_sum(drop(i))]
        if not k:
            return cx.undec(key, 'checksum not found in the output', f.where())
        return cx.ob(key, False, 'the CRC is not the last four bytes, high byte first', f.where())
    w, n = inverted(v)
    d2, i2, _ = calls[w.a[2]]
    parts = [d2]
    while i2 is not None and not ones(i2):
        u, k = inverted(e.deep(x, i2))
        if u.tag != 'sym' or u.a[1] != 'checksum' or k % 2:
            return cx.ob(key, False, 'the CRC does not start with ones', f.where())
        d, i2, _ = calls[u.a[2]]
        parts.insert(0, d)
    if n % 2 != 1:
        return cx.ob(key, False, 'the CRC is not inverted', f.where())
    out = [i for i in items[4:-4]]
    names = [repr(e.deep(x, p)) for p in parts]
    good = len(parts) == 2 and 'chunk' in names[0] and 'data' in names[1] and 'data' not in names[0]
    body = repr(out)
    okay = 'chunk' in body and 'data' in body and body.index('chunk') < body.index('data')
    cx.ob(key, good and okay, 'CRC of %s, written after %d items' % (' then '.join(n[-40:] for n in names), len(items)) if not (good and okay) else 'length, type, data, CRC of type and data', f.where())


def unzip(cx, F, ks, adler):
    ty = next((f.name.rsplit('::', 1)[0] for f in F.fns.values() if re.match(r'zune_inflate::decoder::DeflateDecoder::<.*>::decode_zlib$', f.name)), None)
    setter = F.fn('zune_inflate::decoder::DeflateOptions::set_confirm_checksum')
    df = next((f for f in F.fns.values() if f.name.endswith('Default>::default') and 'DeflateOptions' in f.name), None)
    if not (ty and setter and df and F.fn(ty + '::new_with_options')):
        return cx.undec('inflate', 'decoder not found', '')

    def go(name, flag, pins):
        e = engine(F, 'zune_inflate')
        sums, calls = summed(ks | adler)
        out = mk('sym', 'inflated', 'decoded data', 0)

        def model(e, fr, b, t, c, args, st):
            r = sums(e, fr, b, t, c, args, st)
            if r is not None:
                return r
            if c['name'].split('::')[-1] == 'decode_deflate':
                return enum('R', 'Ok', out)
            return None
        e.model = model
        fr, st = e.run(df)
        fr, st = e.run(setter, args=[retval(e, fr, st), C(flag)])
        data = mk('arg', 'data', 0)
        fr, st = e.run(F.fn(ty + '::new_with_options'), args=[data, retval(e, fr, st)])
        st0 = State(dict(st.mem), st.facts)
        selfv = mk('arg', 'decoder', 0)
        e.write(st0, ('*', selfv), retval(e, fr, st))
        for i, x in pins.items():
            st0.mem[('*', data, ('i', C(i)))] = C(x)
        f = F.fn(ty + '::' + name)
        cx.analysed(f)
        fr, st = e.run(f, args=[selfv], state=st0)
        return e, f, calls, out, [] if st is None else [(x, v) for x, v in split(e, st, retval(e, fr, st), 'Ok')]

    for name, order, inv, first in (('decode_zlib', 'be', 0, {0: 0x78, 1: 0x9c}), ('decode_gzip', 'le', 1, {0: 31, 1: 139, 2: 8, 3: 0})):
        if F.fn(ty + '::' + name) is None:
            cx.undec(name, 'not found', '')
            continue
        for flag in (0, 1):
            key = '%s/%s' % (name, 'verified' if flag else 'not verified')
            try:
                e, f, calls, out, oks = go(name, flag, first)
            except (Budget, RecursionError):
                cx.undec(key, 'not followed', '')
                continue
            if not oks:
                cx.undec(key, 'no success exit', f.where())
                continue
            bad = und = None
            for x, v in oks:
                eqs = [(e.deep(x, a), e.deep(x, b)) for a, b in equalities(x)]
                if not flag:
                    if any(is_sum(y) for p in eqs for y in p):
                        bad = 'the checksum decides although verification is off'
                else:
                    r = None
                    for a, b in eqs:
                        for p, q in ((a, b), (b, a)):
                            if not is_sum(p):
                                continue
                            w, n = inverted(p)
                            d, init, _ = calls[w.a[2]]
                            o, k = inverted(q)
                            if (n + k) % 2 != inv or inv and not ones(init):
                                bad = 'the checksum is not started or finished as specified'
                            if 'inflated' not in repr(e.deep(x, d)):
                                bad = 'the checksum is not that of the decoded data'
                            so = stored(o)
                            if so is None:
                                und = 'stored checksum not recognised: %s' % repr(o)[:80]
                            elif so != order:
                                bad = 'the stored checksum is read %s instead of %s endian' % (so, order)
                            r = True
                    if r is None:
                        bad = 'success without comparing the stored checksum with that of the decoded data'
                if name == 'decode_gzip':
                    if not any(stored(q) == 'le' and p.tag == 'len' and 'inflated' in repr(p) for a, b in eqs for p, q in ((strip(a), strip(b)), (strip(b), strip(a)))):
                        w = [1 for a, b in eqs for p in (a, b) if 'inflated' in repr(p) and not is_sum(p)]
                        if w:
                            und = und or 'comparison of the length not recognised'
                        else:
                            bad = bad or 'success without comparing the stored length with that of the decoded data'
            if und and not bad:
                cx.undec(key, und, f.where())
            else:
                cx.ob(key, bad is None, bad or ('compared on each of %d success exits' % len(oks) if flag else 'no checksum involved'), f.where())
        invalid = [('method', {0: 0x77}), ('method', {0: 0x70}), ('method', {0: 0x7f}), ('window', {0: 0x88}), ('window', {0: 0xf8}), ('header sum', {1: 0x9d}), ('header sum', {1: 0x9b}), ('header sum', {1: 0})] if name == 'decode_zlib' else \
            [('magic', {0: 30}), ('magic', {1: 138}), ('magic', {0: 139, 1: 31}), ('method', {2: 7}), ('method', {2: 0}), ('method', {2: 9})] + [('flags', {3: 1 << k}) for k in (5, 6, 7)]
        for what, ch in invalid:
            p = dict(first)
            p.update(ch)
            if name == 'decode_zlib' and what == 'window' :
                p[1] = (31 - p[0] * 256 % 31) % 31      # header sum divisible
            if name == 'decode_zlib' and what == 'method':
                p[1] = (31 - p[0] * 256 % 31) % 31
            key = '%s/refused/%s %s' % (name, what, ' '.join('%02x' % p[i] for i in sorted(p)))
            try:
                e, f, calls, out, oks = go(name, 1, p)
            except (Budget, RecursionError):
                cx.undec(key, 'not followed', '')
                continue
            cx.ob(key, not oks, 'a stream with an invalid %s is decoded' % what if oks else 'no success exit', f.where())


def strip(v):
    while v.tag == 'cast':
        v = v.a[1] if isinstance(v.a[1], V) else v.a[0]
    return v


def stored(v):
    v = strip(v)
    m = re.match(r'from_(be|le)_bytes$', str(v.tag)) or (re.search(r'from_(be|le)_bytes$', str(v.a[0])) if v.tag == 'call' else None)
    return m.group(1) if m else None


def adlers(cx, F):
    fs = [f for f in F.fns.values() if re.match(r'zune_inflate::utils::calc_adler', f.name) and f.kind != 'Closure']
    out = set()
    for f in fs:
        cx.analysed(f)
        names = [rname(c) for _, _, c in f.calls() if c is not None]
        new = [n for n in names if n.endswith('Adler32::new')]
        wr = [(b, t) for b, t, c in f.calls() if c is not None and rname(c).endswith('Adler32::write')]
        fin = [(b, t) for b, t, c in f.calls() if c is not None and rname(c).endswith('Adler32::finish')]
        if not (new and wr and fin):
            cx.undec('adler/' + f.name, 'computation not recognised', f.where())
            out.add(f.id)
            continue
        e = engine(F, 'zune_inflate')
        seen = []

        def oc(fr, b, t, c, args, st):
            if c and rname(c).endswith('Adler32::write'):
                seen.append(repr(e.deep(st, args[1])))
        e.on_call = oc
        e.run(f, args=[mk('arg', 'all the data', 0)])
        good = len(set(seen)) == 1 and 'all the data' in seen[0] and 'sub' not in seen[0] and 'index' not in seen[0]
        cx.ob('adler/' + f.name.split('::')[-1], good, 'the hasher is not given exactly the data: %s' % seen if not good else 'given all the data', f.where())
        out.add(f.id)
    return out


def options(cx, F):
    n = 0
    for f in F.fns.values():
        if not f.name.startswith('zune_') or f.crate == 'zune_inflate':
            continue
        for b, t, c in f.calls():
            if c is None or not rname(c).endswith('DeflateOptions::set_confirm_checksum'):
                continue
            n += 1
            a = t['a'][1]
            src = None
            seen = set()
            while src is None and a[0] in ('c', 'm') and isinstance(a[1], int) and a[1] not in seen:
                seen.add(a[1])
                l, a = a[1], ('?',)
                for blk in f.blocks:
                    for s in blk['s']:
                        if s[0] == '=' and s[1] == l and s[2][0] == 'use':
                            a = s[2][1]
                    tt = blk['t']
                    if tt['k'] == 'call' and tt.get('d') == l and isinstance(tt['f'][1], dict) and isinstance(tt['f'][1].get('v'), dict):
                        src = rname(tt['f'][1]['v'])
                        neg = None
            key = 'option/' + f.name.split('::')[-1]
            if src is None and a[0] == 'k':
                cx.ob(key, False, 'whether the checksum is verified is fixed instead of taken from the options', f.where(t.get('l')))
            elif src is None:
                cx.undec(key, 'origin of the setting unknown', f.where(t.get('l')))
            else:
                cx.ob(key, src.endswith('inflate_get_confirm_adler'), 'set from ' + src.split('::')[-1], f.where(t.get('l')))
    if n == 0:
        cx.ob('option/none', False, 'no decoder hands the option that asks for verification to the inflater', '')


def run(cx):
    F = cx.F
    ks = set()
    found = kernels(F)
    if not found:
        raise NoAnswer('no CRC routine found')
    for f in found:
        cx.analysed(f)
        ks.add(f.id)
        key = 'crc/' + f.name
        try:
            m = kernel(F, f)
        except gf2.Broken as b:
            cx.ob(key, False, str(b), f.where())
            continue
        except (gf2.Unknown, RecursionError) as u:
            cx.undec(key, str(u), f.where())
            continue
        cx.ob(key, m is None, m or 'CRC-32 of all the bytes', f.where())
    png(cx, F, ks)
    writers(cx, F, ks)
    unzip(cx, F, ks, adlers(cx, F))
    options(cx, F)
