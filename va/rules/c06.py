"""C06: decoders report every failed read; headers are never made of missing data."""
from ..iofail import *

PROP = dict(
    id='C06',
    title='A failing or truncated input makes decoding report an error',
    statement='When the source of a decoder fails or ends, no decoder panics because of it, and every read, peek, skip or seek that reports a failure makes the decode call '
              'return that failure as an error. Tolerated instead are only: missing compressed pixel data, which may decode as zeros, and a missing palette entry or embedded color profile of BMP. Header decoding that runs past the end of the input is an error: header fields are never filled with zeros '
              'that stand for missing bytes.',
    quantifier=dict(over=['inputs', 'histories'], text='every input, every point at which the source fails or ends'),
    why_tests_cant='Tests read complete in-memory files; each read is a separate fault point.',
    anchors=dict(files=['crates/zune-bmp/src/decoder.rs', 'crates/zune-farbfeld/src/decoder.rs', 'crates/zune-gif/src/decoder.rs', 'crates/zune-hdr/src/decoder.rs', 'crates/zune-jpeg/src/headers.rs', 'crates/zune-jpeg/src/decoder.rs',
                        'crates/zune-png/src/decoder.rs', 'crates/zune-png/src/headers/readers.rs', 'crates/zune-ppm/src/decoder.rs', 'crates/zune-psd/src/decoder.rs', 'crates/zune-qoi/src/decoder.rs', 'crates/zune-core/src/bytestream/reader.rs'],
                 mechanism=[dict(name='error propagation of ZReader calls', where='header parsers and decode loops of every decoder')]))
TECHNIQUE = 'abstract interpretation of MIR with failure injection at every read call site (one site at a time), climbing callers for reads that default to zero'
EXPLAIN = """
Call sites: every call of a ZReader / reader-trait method returning Result, and every call of a function that (transitively) reads, in the decoder crates, the reader of zune-core and zune-image.
For each, the enclosing function is evaluated with that call returning Err: no panic routine or unwrap may be reached and every end state must return Err (None/false for Option/bool).
Reads which yield zero at end of input and are reachable from header decoding are evaluated as the first read past the end (that read gives zero, all later ones fail): the enclosing function, or
failing that its callers up to the public header routine, must return Err in every end state.  Parsers of a PNG chunk are entered only after the whole chunk was peeked successfully.
"""
ASSUME = ['once a source has ended it stays ended', 'fields of a PNG chunk are read within the chunk length (numeric, not decided here)', 'std/core models of va/models.py']
CRATES = NATIVE + ['zune_core', 'zune_image']


def tolerated(F, f, c, hdr):
    nm = c['name'].split('::')[-1]
    if f.crate == 'zune_jpeg':
        return f.id not in hdr        # entropy-coded data
    if f.crate == 'zune_bmp':
        return nm in ('peek_at', 'read_fixed_bytes_or_error')
    return False


def run(cx):
    F = cx.F
    io = io_functions(F, 'read', set(CRATES))
    types = decoder_types(F)
    hdr = set()
    roots = {}
    for cr, ty in sorted(types.items()):
        h = F.fn(ty + '::decode_headers')
        if h is None:
            cx.ob('anchor:' + cr, False, 'no decode_headers')
            continue
        roots[cr] = h
        hdr |= {i for i in F.reachable([h.id]) if F.fns[i].crate == cr}
    # reader methods that yield a default instead of an error
    lossy = {f.id for f in F.fns.values() if f.id in io and f.crate == 'zune_core' and strip_generics(f.name).startswith(READER) and not f.locals[0].startswith(RESULT)}
    cx.ob('inventory:defaulting', len(lossy) >= 6, '%d defaulting reader methods' % len(lossy))
    n = 0
    for f in sorted(F.fns.values(), key=lambda f: f.name):
        if f.crate not in CRATES or f.id in lossy:
            continue
        if f.crate == 'zune_core' and not f.locals[0].startswith(RESULT):
            continue      # the *_no_error methods of the reader traits: judged where they are used
        k = {}
        for b, t, c in f.calls():
            if c is None:
                continue
            dt = dest_type(f, t)
            nm = c['name'].split('::')[-1]
            if not (io_call(f, c, 'read') or io.has(c)) or not dt.startswith(RESULT):
                continue
            n += 1
            k[nm] = k.get(nm, 0) + 1
            v, d = fail_at(F, f, b)
            cx.analysed(f)
            ok = v in ('reported', 'never') or (v == 'swallowed' and tolerated(F, f, c, hdr))
            cx.ob('%s:%s:%d' % (f.name, nm, k[nm]), ok, 'a failure of this call is %s%s' % (v, ': ' + d if d else ''), f.where(t.get('l')))
    cx.ob('inventory', n >= 300, '%d fallible read call sites' % n)
    # reads past the end during header decoding
    callers = {}
    for i, o in F.callgraph().items():
        for x in o:
            callers.setdefault(x, []).append(i)
    m = 0
    for i in sorted(hdr):
        f = F.fns[i]
        k = {}
        for b, t, c in f.calls():
            if c is None or rid(c) not in lossy:
                continue
            nm = c['name'].split('::')[-1]
            k[nm] = k.get(nm, 0) + 1
            m += 1
            why = eof(cx, F, f, b, io, lossy, callers, hdr, roots[f.crate])
            cx.ob('eof:%s:%s:%d' % (f.name, nm, k[nm]), why is None, 'a read past the end here %s' % ('makes header decoding fail' if why is None else why), f.where(t.get('l')))
        if roots and f.crate == 'zune_ppm' and f.locals[0].startswith(RESULT + '<usize') and any(c is not None and c['name'].split('::')[-1] == 'is_ascii_digit' for b, t, c in f.calls()):
            # a number the header needs, with no input left at its first byte
            m += 1
            ok = not outcome(F, f, None, None, frozenset([f.id]), io, lossy)
            cx.ob('eof:%s:start' % f.name, ok, 'a number missing at the end of the input %s' % ('is an error' if ok else 'is read as a value'), f.where())
    cx.ob('inventory:eof', m >= 20, '%d defaulting reads in header code' % m)


def whole_chunk(f):
    """takes a chunk whose data was made available by whoever built it"""
    return any(re.search(r'::PngChunk$', t) for t in f.locals[1:f.argc + 1])


def eof(cx, F, f, b, io, lossy, callers, hdr, root):
    if whole_chunk(f):
        return None
    level = [(f, frozenset([f.id]))]
    seen = set()
    for _ in range(6):
        nxt = []
        for g, path in level:
            if g.id in seen:
                continue
            seen.add(g.id)
            cx.analysed(g)
            if ends_ok(F, g, f, b, path, io, lossy):
                if g.id == root.id or g.reach:
                    return 'lets %s return success' % g.name
                cs = [c for c in callers.get(g.id, ()) if c in hdr and c != g.id]
                if not cs:
                    return 'lets %s return success' % g.name
                nxt += [(F.fns[c], path | {c}) for c in cs if not whole_chunk(F.fns[c])]
        level = nxt
        if not level:
            return None
    return 'is not turned into an error within 6 call levels'


EOFCALL = (('eofcall', 0),)


def ends_ok(F, g, f, b, path, io, lossy):
    """can g return normally and successfully when the read in block b of f is the first one past the end"""
    if not outcome(F, g, f, b, path, io, lossy):
        return False
    if f is g and b is not None:
        return True
    # start anew behind every call through which the failing read is reached: input ended, everything else unknown
    for b2, t, c in g.calls():
        if c is not None and rid(c) in path and rid(c) != g.id and t.get('t') is not None:
            if outcome(F, behind(g, t['t']), None, None, path - {rid(c)}, io, lossy):
                return True
    return False


_must = {}


def must_read(F, i, io, lossy):
    """no success of this function without a read"""
    if i not in _must:
        _must[i] = False
        _must[i] = not outcome(F, F.fns[i], None, None, frozenset([i]), io, lossy)
    return _must[i]


def behind(g, blk):
    """g entered at block blk"""
    import copy
    h = copy.copy(g)
    h.blocks = [dict(s=[], t=dict(k='goto', t=blk))] + g.blocks[1:]
    h._succ = h._pred = h._dom = h._rpo = None
    return h


def outcome(F, g, f, b, path, io, lossy):
    def model(e, fr, bb, t, c, args, st):
        if c is None:
            return None
        nm = c['name'].split('::')[-1]
        rd = io_call(fr.fn, c, 'read') or rid(c) in lossy
        guarded = False
        if rd:
            last = st.mem.get(EOFCALL)
            if nm == 'eof':
                v = mk('sym', 'eof', fr.id, bb)
                st.mem[EOFCALL] = v
                m = st.mem.get(CELL)
                if m is not None and intc(m) and cv(m) == 1:
                    return enumval(F, RESULT, 'Ok', [C(True)])
                return enumval(F, RESULT, 'Ok', [v])
            guarded = last is not None and last.tag == 'sym' and ('F', last) in st.facts
            st.mem[EOFCALL] = C(0)
        if f is not None and fr.fn.id == f.id and bb == b and not guarded:
            st.mem[CELL] = C(1)
        m = st.mem.get(CELL)
        past = m is not None and intc(m) and cv(m) == 1
        if rid(c) in lossy:
            if past and re.match(r'^[ui](8|16|32|64|size)$', dest_type(fr.fn, t)):
                return C(0)
            return None
        if dest_type(fr.fn, t).startswith(RESULT) and nm not in ('seek', 'set_position', 'rewind', 'position'):
            if past and (rd or (rid(c) in io and rid(c) not in path and must_read(F, rid(c), io, lossy))):
                return enumval(F, RESULT, 'Err', [mk('sym', 'ioerror')])
            if rd and m is not None and not intc(m):
                # the other obligations show that a failure here is reported: go on with its success, which means that the input had not ended
                st.mem[CELL] = C(0)
        return None
    st0 = State()
    st0.mem[CELL] = C(0 if f is not None else 1)
    e = Engine(F, inline=lambda fr, c, fn: fn.id in path, model=model, max_steps=150000)
    fr, st = e.run(g, state=st0)
    if st is None:
        return False
    m = e.read(st, CELL)
    if g.locals[0].startswith(RESULT):
        return any(may_fail(e, s2, m) for s2, v in split(e, st, retval(e, fr, st), 'Ok'))
    return may_fail(e, st, m)
