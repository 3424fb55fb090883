"""C33: binding operations run the operation they are named after, with the caller's parameters."""
from ..lib import *

PROP = dict(
    id='C33',
    title='C and wasm image operations run the operation they name, with its checks',
    statement='Every image operation of the C API and of the WebAssembly API runs exactly the library operation it is named after on the caller\'s image, passes each caller parameter to the parameter '
              'it stands for (same name, otherwise same position), and runs it through the checked entry point (OperationsTrait::execute), whose error is reported to the caller.',
    quantifier=dict(over=['inputs', 'configurations'], text='every operation exported by zune-capi and zune-wasm, every parameter value'),
    why_tests_cant='The bindings are not tested; a swapped parameter or operation compiles and shows only in the pixels.',
    anchors=dict(files=['crates/zune-capi/src/improc.rs', 'crates/zune-wasm/src/lib.rs'],
                 mechanism=[dict(name='exec_imgproc and the zil_imgproc_* functions', where='crates/zune-capi/src/improc.rs'), dict(name='WasmImage::execute_ops and its callers', where='crates/zune-wasm/src/lib.rs')]))
TECHNIQUE = 'value-flow analysis over MIR: operation type and constructor arguments traced from the exported function to the execute call'
EXPLAIN = """
Every exported function that reaches an operation executor is evaluated abstractly; the operation value handed to the executor is traced back to its constructor, whose type is compared with the
function's name and whose arguments are traced back to the function's parameters.  The executors must call OperationsTrait::execute on the caller's image and propagate its error.
"""
ASSUME = ['operations are identified by the name of their type']
ALIAS = dict(convertcolorspace='colorspaceconv', convertcolor='colorspaceconv', grayscale='colorspaceconv', meanfilter='spatialops', spatial='spatialops', fliphorizontal='flip', flipvertical='flip', premultiply='premultiplyalpha', unpremultiply='premultiplyalpha')


def nm(s):
    return s.lower().replace('_', '')


def run(cx):
    F = cx.F
    n = 0
    for f in sorted(F.fns.values(), key=lambda f: f.name):
        if f.crate not in ('zil_c', 'zune_wasm') or f.kind == 'Closure':
            continue
        ex = [t for b, t, c in f.calls() if c is not None and c['name'].split('::')[-1] in ('exec_imgproc', 'execute_ops')]
        if not ex:
            continue
        n += 1
        op(cx, f)
    cx.ob('inventory', n >= 35, '%d exported operations' % n)
    for f in F.fns.values():
        if f.crate in ('zil_c', 'zune_wasm') and f.kind != 'Closure' and f.name.split('::')[-1] in ('exec_imgproc', 'execute_ops'):
            executor(cx, f)


def op(cx, f):
    F = cx.F
    cx.analysed(f)
    ctors, execs = [], []

    def oc(fr, b, t, c, args, st):
        if c is None:
            return
        n = rname(c)
        if c['name'].split('::')[-1] in ('exec_imgproc', 'execute_ops'):
            execs.append((args, t, st, fr))
        elif n.startswith(('zune_imageprocs::', 'zune_image::core_filters')) or n.startswith('<zune_imageprocs'):
            ctors.append((n, c, args, (fr.id, b)))
    e, v, s, fr = apply(F, f, [mk('arg', f.id, i + 1) for i in range(f.argc)], inline=lambda fr, c, fn: fn.crate in ('zil_c', 'zune_wasm') and fn.name.split('::')[-1] not in ('exec_imgproc', 'execute_ops', 'to_colorspace', 'to_depth', 'to_format', 'into', 'from'), on_call=oc)
    fn = f.name.split('::')[-1]
    w = f.where()
    if fn.startswith('zil_imgproc_'):
        fn = fn[len('zil_imgproc_'):]
    cx.ob('%s:once' % f.name, len({(id(x[1])) for x in execs}) == 1, '%d executions' % len(execs), w)
    if not execs:
        return
    args, t, st, fr = execs[-1]
    if f.crate == 'zil_c':
        opv, imgv = args[1], args[0]
    else:
        opv, imgv = e.content(st, args[1]), args[0]
    cx.ob('%s:image' % f.name, imgv is mk('arg', f.id, 1) or has(imgv, mk('arg', f.id, 1)), 'runs on the caller\'s image: %s' % show(imgv)[:60], w)
    ctor = None
    while opv.tag == 'proj':
        opv = uncast(opv.a[0])
    if opv.tag == 'sym':
        for x in ctors:
            if x[3] == (opv.a[1], opv.a[2]):
                ctor = x
    ty = None
    if ctor:
        ty = strip_generics(ctor[0]).split('::')[-2]
    elif opv.tag == 'agg' and opv.a[0] == 'adt':
        ty = opv.a[1].split('::')[-1]
    elif f.crate == 'zil_c':
        ty = strip_generics(t['at'][1]).split('::')[-1]
    if ty is None:
        cx.undec('%s:operation' % f.name, 'operation value not traced: %s' % show(opv)[:80], w)
        return
    ok = nm(ty) in nm(fn) or ALIAS.get(nm(fn)) == nm(ty) or nm(fn) in nm(ty)
    cx.ob('%s:operation' % f.name, ok, 'runs %s' % ty, w)
    if nm(fn) == 'grayscale':
        cx.ob('%s:to' % f.name, bool(ctor) and plain(ctor[2][0]) == 'Luma', 'converts to Luma', w)
    if nm(ty) == 'flip' and ctor:
        d = plain(ctor[2][0])
        cx.ob('%s:direction' % f.name, isinstance(d, str) and (nm(d) in nm(fn) or not any(x in nm(fn) for x in ('horizontal', 'vertical', 'axis'))), 'direction %s' % d, w)
    if nm(ty) == 'premultiplyalpha' and ctor:
        d = plain(ctor[2][0])
        cx.ob('%s:to' % f.name, d == ('NonPreMultiplied' if 'un' in nm(fn) else 'PreMultiplied'), 'converts to %s' % d, w)
    if nm(fn) == 'meanfilter' and ctor:
        cx.ob('%s:kind' % f.name, any(plain(a) == 'Mean' for a in ctor[2]), 'mean', w)
    # parameters
    inv = {l: n for n, l in f.names.items()}
    ps = [(i, inv.get(i, '_%d' % i)) for i in range(1, f.argc + 1) if inv.get(i) not in ('self', 'status', 'image', 'image1')]
    if not ps:
        return
    if ctor is None:
        cx.ob('%s:parameters' % f.name, False, 'parameters do not reach the operation', w)
        return
    cf = F.fns.get(ctor[1].get('id')) or F.fn(ctor[0])
    cn = []
    if cf is not None:
        ci = {l: n for n, l in cf.names.items()}
        cn = [ci.get(i, '_') for i in range(1, cf.argc + 1)]
    cargs = [a for a in ctor[2]]
    for k, (i, name) in enumerate(ps):
        a = mk('arg', f.id, i)
        j = cn.index(name) if name in cn else k
        ok = j < len(cargs) and (cargs[j] is a or has(cargs[j], a))
        if ok and a is not cargs[j]:
            x = uncast(cargs[j])
            ok = x is a or x.tag in ('ref', 'sym', 'phi', 'init', 'proj', 'call', 'exp', 'agg', 'at')
        if not ok and j < len(cargs):
            x = expand(e, F, f, cargs[j], a)
            ok = x
        cx.ob('%s:parameter:%s' % (f.name, name), ok, 'parameter %s is given to %s as %s' % (name, strip_generics(ctor[0]), show(cargs[j])[:80] if j < len(cargs) else 'nothing'), w)


def expand(e, F, f, v, a, d=0):
    """v is the result of a conversion of parameter a (call with a as its only input)"""
    v = uncast(v)
    if v.tag != 'sym' or d > 3:
        return False
    for b, t, c in f.calls():
        if v.a[2] == b and c is not None:
            for o in t['a']:
                fl = flow(f, o)
                if a.a[1] in fl:
                    return True
    return False


def flow(f, o, seen=None):
    """locals an operand is computed from by moves, copies, borrows, casts and conversions"""
    seen = set() if seen is None else seen
    st = [o]
    out = set()
    while st:
        x = st.pop()
        l = None
        if isinstance(x, list) and x and x[0] in ('c', 'm') and len(x) > 1:
            l = x[1] if isinstance(x[1], int) else x[1][0]
        elif isinstance(x, int):
            l = x
        if l is None or l in out:
            continue
        out.add(l)
        for blk in f.blocks:
            for s in blk['s']:
                if s[0] == '=' and (s[1] == l):
                    r = s[2]
                    for y in r[1:]:
                        if isinstance(y, int):
                            st.append(y)
                        elif isinstance(y, list):
                            st.append(y)
                            for z in y:
                                if isinstance(z, list):
                                    st.append(z)
            t = blk['t']
            if t['k'] == 'call' and t['d'] == l:
                st.extend(t['a'])
    return out


def has(v, x, d=0, seen=None):
    seen = seen if seen is not None else set()
    if v is x:
        return True
    if v in seen or d > 25:
        return False
    seen.add(v)
    st = list(v.a)
    while st:
        y = st.pop()
        if isinstance(y, V):
            if has(y, x, d + 1, seen):
                return True
        elif isinstance(y, tuple):
            st.extend(y)
    return False


def executor(cx, f):
    F = cx.F
    cx.analysed(f)
    calls = []

    def oc(fr, b, t, c, args, st):
        if c is not None and 'OperationsTrait' in rname(c) and c['name'].split('::')[-1] != 'name':
            calls.append((c['name'].split('::')[-1], args, (fr.id, b)))
    e, v, s, fr = apply(F, f, [mk('arg', f.id, i + 1) for i in range(f.argc)], inline=lambda fr, c, fn: False, on_call=oc)
    w = f.where()
    cx.ob('%s:checked' % f.name, len({c[2] for c in calls}) == 1 and calls[0][0] == 'execute', 'runs OperationsTrait::%s' % ', '.join(sorted({c[0] for c in calls})), w)
    for n, args, site in calls[:1]:
        im = args[1]
        cx.ob('%s:image' % f.name, has(im, mk('arg', f.id, 1)), 'on the caller\'s image', w)
        opp = mk('arg', f.id, 2)
        cx.ob('%s:operation' % f.name, has(args[0], opp) or e.content(s, args[0]) is opp, 'the caller\'s operation', w)
    if f.crate == 'zune_wasm':
        res = calls[0][2]
        st = s.copy()
        ok = True
        for s2, x in split(e, s, v, 'Ok'):
            r = [g for g in s2.facts if g[0] == 'is' and g[1].tag == 'sym' and (g[1].a[1], g[1].a[2]) == res]
            if x.tag == 'sym':
                continue
            if not any(g[2] == 'Ok' for g in r):
                ok = False
        cx.ob('%s:error' % f.name, ok, 'success is reported only when the operation succeeded', w)
