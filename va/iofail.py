"""Failure injection on the abstract level: what a function returns when one of its I/O calls fails."""
from .lib import *

READER = 'zune_core::bytestream::reader::ZReader'
WRITER = 'zune_core::bytestream::writer::ZWriter'
RESULT = 'core::result::Result'
CELL = (('failed', 0),)
PANIC = re.compile(r'(^|::)(panic|panic_fmt|panic_display|panic_str|unwrap_failed|expect_failed|begin_panic|unreachable_display|panic_nounwind)$|panicking::')
STD_IO = re.compile(r'(^|[<: ])io::(Read|Seek|BufRead)')


def sname(c):
    return strip_generics(rname(c))


def io_call(f, c, kind):
    """is this callee a primitive of the given direction?"""
    n = sname(c)
    if kind == 'read':
        return n.startswith(READER + '::') or 'ZByteReaderTrait::' in c['name'] or ('bytestream' in f.name and bool(STD_IO.search(c['name'])))
    return n.startswith(WRITER + '::') or 'ZByteWriterTrait::' in c['name'] or (('bytestream' in f.name or f.crate == 'zune_image') and bool(re.search(r'io::Write>?::|Write::(write|flush|write_all)', c['name'])))


class IoSet(set):
    traits = None

    def has(s, c):
        """may a call of c perform the I/O?"""
        return rid(c) in s or ('res' not in c and c['fn'] in s.traits)


def io_functions(F, kind, crates):
    """ids of functions of `crates` that may perform I/O of that kind (transitively)"""
    cg = F.callgraph()
    s = IoSet()
    for f in F.fns.values():
        if f.crate in crates and any(c is not None and io_call(f, c, kind) for b, t, c in f.calls()):
            s.add(f.id)
    rev = {}
    for i, o in cg.items():
        for x in o:
            rev.setdefault(x, []).append(i)
    work = list(s)
    tdecl = {fid: tid for tid, l in F.trait_impls.items() for _, fid, _ in l}
    s.traits = set()
    while work:
        x = work.pop()
        if x in tdecl:
            s.traits.add(tdecl[x])
        for y in rev.get(x, ()):
            if y not in s and F.fns[y].crate in crates and F.fns[x].crate in crates:
                s.add(y)
                work.append(y)
    return s


def dest_type(f, t):
    return f.locals[t['d']] if isinstance(t['d'], int) else ''


def fail_at(F, f, b, inline=None, budget=120000):
    """evaluate f with the call in block b failing (returning Err).
    -> (verdict, detail):  verdict in 'reported', 'swallowed', 'panics', 'never' """
    hits = []
    panics = []

    def model(e, fr, bb, t, c, args, st):
        if fr.fn is f and bb == b:
            st.mem[CELL] = C(1)
            hits.append(1)
            ty = dest_type(f, t)
            if ty.startswith('core::option::Option'):
                return enumval(F, 'core::option::Option', 'None', [])
            return enumval(F, RESULT, 'Err', [mk('sym', 'ioerror')])
        return None

    def oc(fr, b2, t, c, args, st):
        if c is None:
            return
        m = st.mem.get(CELL)
        failed = m is not None and intc(m) and cv(m) == 1
        n = c['name']
        if failed and (PANIC.search(n)):
            panics.append((n, fr.fn.where(t.get('l'))))
        if n.split('::')[-1] in ('unwrap', 'expect') and args:
            for a, fs in alternatives(e, st, args[0], st.facts):
                if e.variant(None, a) == 'Err' and has_ioerror(a):
                    panics.append((n, fr.fn.where(t.get('l'))))
    st0 = State()
    st0.mem[CELL] = C(0)
    e = Engine(F, inline=inline or (lambda fr, c, fn: False), model=model, max_steps=budget)
    e.on_call = oc
    fr, st = e.run(f, state=st0)
    if panics:
        return 'panics', '%s at %s' % panics[0]
    if not hits:
        return 'never', ''
    if st is None:
        return 'reported', 'no normal return'
    out = f.locals[0]
    if out.startswith(RESULT) or out.startswith('core::option::Option'):
        good = 'Ok' if out.startswith(RESULT) else 'Some'
        m = e.read(st, CELL)
        for s2, v in split(e, st, retval(e, fr, st), good):
            if may_fail(e, s2, m):
                return 'swallowed', 'success is returned although the call failed'
        return 'reported', ''
    if out == 'bool':
        m = e.read(st, CELL)
        for v, fs in alternatives(e, st, retval(e, fr, st)):
            if not (intc(v) and cv(v) is False) and may_fail(e, State(st.mem, fs), m):
                return 'swallowed', 'true may be returned although the call failed'
        return 'reported', ''
    if out.startswith('core::task') or out == '!':
        return 'reported', ''
    return 'swallowed', 'returns %s, which cannot carry the error' % out[:40]


def has_ioerror(v, d=0):
    if v.tag == 'sym' and v.a and v.a[0] == 'ioerror':
        return True
    if d > 6:
        return False
    for x in v.a:
        if isinstance(x, V) and has_ioerror(x, d + 1):
            return True
        if isinstance(x, tuple) and any(isinstance(y, V) and has_ioerror(y, d + 1) for y in x):
            return True
    return False


def may_fail(e, st, m):
    """can the failure marker be set in this state?"""
    m = sel(e.resolve(st, m), st.facts)
    for x, fs in alternatives(e, st, m, st.facts):
        if not (intc(x) and cv(x) == 0):
            s2 = State(st.mem, fs)
            prune(e, s2)
            if consistent(e, s2):
                return True
    return False
