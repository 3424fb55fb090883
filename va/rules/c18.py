"""C18: the C API checks its pointers and reports failures."""
from ..lib import *
from ..engine import unop

PROP = dict(
    id='C18',
    title='The C API never dereferences null handles and reports every failure',
    statement='In every function of the C API, image, status, width, height, depth and channel pointers that are null are never read or written; a status that is given and not null holds an error after '
              'a call in which reading, decoding, encoding, converting or an allocation failed; functions returning memory return null in that case; and memory allocated by a function is either '
              'returned to the caller or freed on every path.',
    quantifier=dict(over=['inputs', 'histories'], text='every exported C function, every combination of null and non-null handles, every outcome of the operations it calls'),
    why_tests_cant='The C API has no tests; each combination of null handles and failing operation is one path.',
    anchors=dict(files=['crates/zune-capi/src/image.rs', 'crates/zune-capi/src/imread.rs', 'crates/zune-capi/src/improc.rs', 'crates/zune-capi/src/errno.rs', 'crates/zune-capi/src/utils.rs'],
                 mechanism=[dict(name='null checks and ZStatus assignments of the extern functions', where='crates/zune-capi/src')]))
TECHNIQUE = 'path-sensitive abstract interpretation of MIR: nullness facts at every raw pointer dereference, status value per failing call, typestate of allocations'
EXPLAIN = """
Every extern "C" function of zune-capi is evaluated abstractly with unknown arguments.  Each dereference of a handle (parameter of pointer type other than byte buffers and strings, or fresh
allocation) must happen under the fact that is_null() was false.  For each fallible call (returning Result or Option) and allocation, the end states in which that call ran and failed are
selected; in them the status cell must hold a constant error code, and a returned pointer must be null.  Allocated memory must be returned or passed to the free function in every end state.
"""
ASSUME = ['byte buffers and strings given by the caller are valid for the given length', 'a panic inside a called library function is outside this property']
BUF = re.compile(r'^\*(mut|const) (u8|u16|f32|i8|c_char|core::ffi::c_char|char)$')
NULL = re.compile(r'(mut_ptr|const_ptr)::<impl \*(mut|const) T>::is_null$')
PTRREF = re.compile(r'(.*_ptr::<impl \*(mut|const) T>)::(as_ref|as_mut)$')
ALLOC = re.compile(r'(zil_malloc|libc::.*malloc|^malloc)$')


def run(cx):
    F = cx.F
    fs = [f for f in F.fns.values() if f.crate == 'zil_c' and f.kind != 'Closure' and f.name.split('::')[-1].startswith('zil_')]
    n = 0
    for f in sorted(fs, key=lambda f: f.name):
        if any(t.startswith('*') for t in f.locals[1:f.argc + 1]) or ALLOC.search(f.name) or f.locals[0].startswith('*'):
            one(cx, f)
            n += 1
    cx.ob('inventory', n >= 45, '%d exported functions with pointers' % n)


def one(cx, f):
    F = cx.F
    cx.analysed(f)
    fn = f.name.split('::')[-1]
    handles = {}
    inv = {l: k for k, l in f.names.items()}
    for i in range(1, f.argc + 1):
        t = f.locals[i]
        if t.startswith('*') and not BUF.match(t):
            handles[mk('arg', f.id, i)] = inv.get(i, '_%d' % i)
    status = [v for v, n in handles.items() if n == 'status']
    status = status[0] if status else None
    inl = lambda fr, c, g: g.crate == 'zil_c' and g.name.split('::')[-1] not in ('imdecode_inner', 'zil_malloc', 'zil_free')
    bad, nd = [], [0]
    sites, fallible, allocs = {}, {}, {}

    def nonnull(st, v):
        v = uncast(v)
        for g in st.facts:
            if g[0] == 'F' and g[1].tag == 'call' and NULL.search(g[1].a[0]) and any(uncast(x) is v for x in g[1].a[1]):
                return True
        return False

    def isnull(facts, v):
        v = uncast(v)
        return any(g[0] == 'T' and g[1].tag == 'call' and NULL.search(g[1].a[0]) and any(uncast(x) is v for x in g[1].a[1]) for g in facts)

    def deref(fr, v, st):
        w = uncast(v)
        if w in handles or w in allocs:
            nd[0] += 1
            if not nonnull(st, w):
                bad.append((handles.get(w, 'allocation'), fr.fn.name))

    def mark(fr, b):
        return ((('ran', fr.id, b), 0),)

    def oc(fr, b, t, c, args, st):
        if c is None:
            return
        n = rname(c)
        last = c['name'].split('::')[-1]
        if PTRREF.search(c['name']):
            return
        if last in ('write', 'read', 'drop_in_place', 'write_bytes', 'replace') and args and 'ptr' in c['name']:
            deref(fr, args[0], st)
        if last == 'strcpy':
            return
        dt = fr.fn.locals[t['d']] if isinstance(t['d'], int) else ''
        ty = strip_generics(dt).split('<')[0]
        foreign = not (c.get('id') in F.fns and inl(fr, c, F.fns[c['id']])) if c.get('id') else True
        v = mk('sym', None)
        if ALLOC.search(n):
            sites[(fr.id, b)] = ('alloc', last, t, fr)
            st.mem[mark(fr, b)] = C(1)
        elif last == 'zil_free' or n.endswith('libc::free') or last == 'free':
            p = uncast(args[0])
            st.mem[((('freed', p), 0),)] = C(1)
        elif foreign and re.match(r'^(core::result::Result|core::option::Option|Result|Option|std::result|std::option)', dt) and last not in STEP and not STEPRE.search(n):
            sites[(fr.id, b)] = ('fail', last, t, fr)
            st.mem[mark(fr, b)] = C(1)
    e = Engine(F, inline=inl, pure=lambda n: bool(NULL.search(n)))
    e.on_call = oc
    e.map_err = True

    def model(e_, fr, b, t, c, args, st):
        if c is None:
            return None
        if ALLOC.search(rname(c)):
            v = mk('sym', rname(c), fr.id, b)
            allocs[v] = (fr.id, b)
            return v
        if re.search(r'_ptr::<impl \*(mut|const) T>::(cast|cast_mut|cast_const)$', c['name']):
            return args[0]
        q = PTRREF.search(c['name'])
        if q:
            return mk('condopt', unop('Not', mk('call', q.group(1) + '::is_null', (uncast(args[0]),)), 'bool'), mk('ref', ('*', uncast(args[0])), q.group(3) == 'as_mut'))
        return None
    e.model = model
    e.on_deref = deref
    st0 = State()
    fr, st = e.run(f)
    w = f.where()
    cx.ob('%s:null' % fn, not bad, 'handle %s is used in %s without a null check' % bad[0] if bad else '%d uses of handles, all behind null checks' % nd[0], w)
    if st is None:
        return
    code = None
    if status is not None:
        code = e.read(st, ('*', status, ('f', 0, 'status')))
    rv = retval(e, fr, st)
    retptr = f.locals[0].startswith('*')
    for site, (kind, name, t, sf) in sorted(sites.items()):
        mv = e.read(st, mark(sf, site[1]))
        st2 = st.copy()
        if mv.tag == 'phi' or not (intc(mv) and cv(mv) == 1):
            st2 = restrict(e, st2, mv)
        if st2 is None:
            continue
        res = [v for v in allocs if allocs[v] == site] if kind == 'alloc' else None
        key = '%s:%s' % (fn, name)
        if kind == 'alloc':
            if sf is not fr and sf.fn.name.split('::')[-1] not in ('zil_zimg_new', 'zil_malloc'):
                continue
            p = res[0]
            # leak: when it ran and is not null, it is returned or freed
            leak = []
            for s3 in ends(e, st2, [rv, e.read(st, ((('freed', p), 0),))]):
                if isnull(s3.facts, p):
                    continue
                r = sel2(rv, s3.facts)
                fz = sel2(e.read(st, ((('freed', p), 0),)), s3.facts)
                if uncast(r) is p or (intc(fz) and cv(fz) == 1):
                    continue
                if escapes(s3, r, p, e):
                    continue
                leak.append((show(r)[:60], show(fz)[:40]))
            cx.ob(key + ':owned', not leak, 'returned or freed' if not leak else 'allocation is neither returned nor freed (returns %s)' % leak[0][0], sf.fn.where())
            fails = lambda facts, p=p: isnull(facts, p)
            s4 = st2.copy()
            nul = [c for g in s4.facts for c in []]
            s4 = assume_null(e, s4, p)
        else:
            v = symat(e, st, sf, site, t)
            if v is None:
                continue
            dt = sf.fn.locals[t['d']] if isinstance(t['d'], int) else ''
            s4 = st2.copy()
            if not e.assume_is(s4, v, 'Err' if 'Result' in dt.split('<')[0] else 'None', True):
                continue
        if s4 is None:
            continue
        prune(e, s4)
        if not consistent(e, s4):
            continue
        if status is not None:
            wrong = []
            for x, facts in alternatives(e, s4, e.resolve(s4, code), s4.facts):
                s5 = State(s4.mem, facts)
                if isnull(facts, status) or not consistent(e, s5) or isnull(s5.facts, status):
                    continue
                pv = plain(x)
                if not isinstance(pv, str) or not pv.startswith('Zil') or pv == 'ZilOk':
                    wrong.append(pv)
            cx.ob(key + ':reported', not wrong, 'error status set' if not wrong else 'status is %s after %s failed' % (wrong[0], name), sf.fn.where())
        if retptr:
            wrong = []
            for x, facts in alternatives(e, s4, e.resolve(s4, rv), s4.facts):
                s5 = State(s4.mem, facts)
                if not consistent(e, s5):
                    continue
                x = uncast(x)
                if isnull(facts, x) or 'null' in show(x) or (intc(x) and cv(x) == 0):
                    continue
                if kind == 'fail' and name in ('guess_format',):
                    continue
                wrong.append(show(x)[:60])
            cx.ob(key + ':null-result', not wrong, 'null returned' if not wrong else 'returns %s after %s failed' % (wrong[0], name), sf.fn.where())


STEP = {'checked_mul', 'checked_add', 'branch', 'from_residual', 'map_err', 'ok', 'map', 'image_format', 'as_ref', 'unwrap_or', 'new', 'next'}
STEPRE = re.compile(r'^core::(option|result)::')


def symat(e, st, fr, site, t):
    for v in e.syms.get(site, []) if hasattr(e, 'syms') else []:
        return v
    from ..facts import callee as cl
    c = cl(t)
    for n in (c['name'], rname(c)):
        v = mk('sym', n, site[0], site[1])
        return v


def restrict(e, st, mv):
    """states in which the marker was set"""
    if mv.tag == 'init':
        return None
    st = st.copy()
    st.facts = st.facts | excl(e, mv)
    prune(e, st)
    return st


def excl(e, v):
    out = set()
    if v.tag == 'phi':
        J = v.a[0]
        for i, x in enumerate(v.a[1]):
            if x.tag == 'init' or dead(x):
                out.add(('x', J, i))
            else:
                out |= excl(e, x)
    return out


def dead(x):
    if x.tag == 'phi':
        return all(y.tag in ('bot', 'init') or dead(y) for y in x.a[1])
    return x.tag in ('init', 'bot')


def sel2(v, facts):
    return sel(v, facts)


def ends(e, st, vs):
    """end states split along the joins of the given values"""
    work = [(st, list(vs))]
    while work:
        s, l = work.pop()
        if not l:
            if consistent(e, s):
                yield s
            continue
        v = l[0]
        for x, facts in alternatives(e, s, e.resolve(s, v), s.facts):
            work.append((State(s.mem, facts), l[1:]))


def escapes(st, r, p, e):
    """p is stored in memory reachable from the result"""
    r = uncast(r)
    return any(k[0] == '*' and len(k) > 2 and isinstance(k[1], V) and uncast(k[1]) is r and uncast(e.resolve(st, v)) is p for k, v in st.mem.items())


def assume_null(e, st, p):
    for J, infos in list(e.join.items()):
        for i in infos:
            for g in i:
                if g[0] in ('T', 'F') and g[1].tag == 'call' and NULL.search(g[1].a[0]) and any(uncast(x) is p for x in g[1].a[1]):
                    st = st.copy()
                    if not e.assume_bool(st, g[1], True):
                        return None
                    return st
    return None
