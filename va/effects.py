"""What an image operation does to each channel of an abstract image."""
from .imgs import *
from .models import payload, kindof

SCALAR = re.compile(r'^(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|f32|f64|bool|char|\(\)|!)$')
ALIAS = 'zune_image::channel::Channel::'


def scalar(F, t, ref=True):
    t = t.strip()
    if SCALAR.match(t):
        return True
    if t.startswith('(') and t.endswith(')'):
        return all(scalar(F, x, False) for x in t[1:-1].split(',') if x.strip())
    if ref and t.startswith('&') and not t.startswith('&mut'):
        t = re.sub(r"^&('\w+ )?", '', t)
        if '[' in t:
            return False
        return scalar(F, t, False)
    if t in F.adts:
        return all(scalar(F, x['t'], False) for v in F.adts[t]['v'] for x in v['f']) if t not in (IMAGE, FRAME, CHANNEL, META) else False
    return False


def iskernel(fn):
    """a function on plain samples: takes mutable slices and no image, frame or channel"""
    i = fn.ins()
    return any(re.match(r"^&('\w+ )?mut (\[|alloc::vec::Vec<)", x) for x in i) and not any('zune_image::' in x and re.search(r'zune_image::(image|channel|frame)::', x) for x in i)


class OpRun:
    """abstract effect of execute_impl of one operation"""

    def __init__(s, F, f, csn, bdn, frames_=2, budget=1500000, depth=40, selfv=None, meta={}, more={}):
        s.F, s.f = F, f
        n = COMPONENTS[csn]
        s.names = [['img.f%d.c%d' % (i, j) for j in range(n)] for i in range(frames_)]
        s.n = n
        s.sc = {}
        s.kfn = {}

        def purefn(fn):
            if fn.id not in s.sc:
                s.sc[fn.id] = fn.kind != 'Closure' and bool(fn.ins()) and fn.out() != '()' and all(scalar(F, x) for x in fn.ins()) and scalar(F, fn.out(), False)
            return s.sc[fn.id]
        s.purefn = purefn
        names = {}
        for fn in F.fns.values():
            if fn.crate == 'zune_imageprocs':
                names.setdefault(fn.name, fn)
        s.inl = set()

        def inline(fr, c, fn):
            if fn.kind != 'Closure' and iskernel(fn):
                return False
            if fn.crate in ('zune_image', 'zune_core'):
                return True
            if fn.crate != 'zune_imageprocs':
                return False
            if fn.kind == 'Closure':
                return True
            sig = ' '.join(fn.ins() + [fn.out()])
            return bool(re.search(r'zune_image::(image|channel|frame)::', sig)) or fn.out().startswith('core::result::Result')
        s.inline = inline

        def pure(n):
            fn = names.get(n)
            if fn is not None:
                return purefn(fn)
            return bool(re.match(r'^(core|std)::(f32|f64|num)::', n))
        e = Engine(F, inline=inline, model=lists.chain(s.model, lists.model), max_steps=budget, max_depth=depth, pure=pure)
        e.unroll = 10
        e.max_rec = 6
        s.e = e
        st = State()
        img = image(F, 'img', cs(F, csn), bd(F, bdn), (n,) * frames_, **meta)
        st.mem.update(more)
        s.start = img
        st.mem[(('img', 0),)] = img
        m = fld(img, 'metadata')
        whole = mk('op', 'Mul', mk('op', 'Mul', fld(m, 'width'), fld(m, 'height')), C(SIZE[bdn]))
        if SIZE[bdn] == 1:
            whole = mk('op', 'Mul', fld(m, 'width'), fld(m, 'height'))
        s.whole = whole
        st.facts = frozenset(('eq', fld(c, 'length'), whole) for fr_ in frames(img) for c in channels(fr_))
        a0 = mk('arg', f.id, 1)
        if selfv is not None:
            st.mem[(('self', 0),)] = selfv
            a0 = mk('ref', (('self', 0),), False)
        fr, s2 = e.run(f, args=[a0, mk('ref', (('img', 0),), True)], state=st)
        s.fr, s.end = fr, s2

    def ends(s):
        if s.end is None:
            return
        for s3, v in split(s.e, s.end, retval(s.e, s.fr, s.end), 'Ok'):
            if consistent(s.e, s3):
                yield s3

    # -- data flow of samples: the `ptr` field stands for the contents
    def slot(s, e, st, p):
        return p + (('f', s.ptrix(), 'ptr'),)

    def ptrix(s):
        return [x['n'] for x in s.F.adts[CHANNEL]['v'][0]['f']].index('ptr')

    def model(s, e, fr, b, t, c, args, st):
        n = c['name']
        op = n.split('::')[-1]
        F = s.F
        if n.startswith(ALIAS):
            if op in ('reinterpret_as_mut', 'alias_mut') and args[0].tag == 'ref':
                p = args[0].a[0]
                sl = s.slot(e, st, p)
                e.write(st, sl, mk('written', e.readfull(st, sl), (fr.fn.id, b)))
                return mk('sym', 'mslice', fr.id, b, mk('ref', p, True))
            if op in ('reinterpret_as', 'alias') and args[0].tag in ('ref', 'cref'):
                return mk('sym', 'rslice', fr.id, b, s.data(e, st, args[0]), s.viewlen(e, st, args[0], fr, c))
            if op == 'fill' and args[0].tag == 'ref':
                p = args[0].a[0]
                sl = s.slot(e, st, p)
                v = args[1] if len(args) > 1 else mk('sym', 'value', fr.id, b)
                e.write(st, sl, mk('kernel', 'fill', mk('written', mk('sym', 'blank', fr.fn.id, b), (fr.fn.id, b)), (), (mk('c', 'str', 'slice'), v), 0))
                return mk('sym', 'filled', fr.id, b)
            if op in ('new_with_capacity_and_type', 'new_with_length_and_type', 'new_with_bit_type', 'new_with_length', 'new_with_capacity', 'new') or op == 'from_elm':
                ln = args[0] if args else C(0)
                if 'length' not in op and op not in ('new_with_bit_type',):
                    ln = mk('sym', 'channel length', fr.id, b) if op == 'from_elm' else C(0)
                over = dict(ptr=mk('sym', 'blank', fr.fn.id, b), length=ln, capacity=ln)
                return struct(F, CHANNEL, 'new%s.%s' % (fr.id, b), **over)
        if n in ('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned') and len(args) == 1:
            v = e.content(st, args[0])
            if v.tag == 'agg':
                return v
        fn = e.target(st, c, args, fr)
        if fn is not None and s.inline(fr, c, fn):
            return None
        outs, ins = [], []
        for a in args:
            k = len(outs)
            found(e, st, a, 'mslice', outs)
            k = len(outs) > k
            found(e, st, a, 'rslice', ins)
        if not outs and not ins:
            return None
        std = fn is None and n.split('::')[0] in ('core', 'alloc', 'std')
        if std and not any(x in t['dt'] for x in ('Iter', 'iter::', 'chunks', 'Chunks', '&')) and op not in MUTATE:
            return None
        if std and op not in MUTATE:
            r = lists.model(e, fr, b, t, c, args, st)
            if r is not None:
                return r
        # a kernel: functions outside the inlined part that receive mutable samples
        if outs and (not std or op in MUTATE or ins or len(outs) > 1):
            cur = {o: e.readfull(st, s.slot(e, st, o.a[3].a[0])) for o in outs}
            vals = tuple(s.datas(e, st, args))
            sc = tuple(scal(e, st, a) for a in args)
            pos = {}
            for k, a in enumerate(args):
                l = []
                found(e, st, a, 'mslice', l)
                for o in l:
                    pos.setdefault(o, k)
            if fn is not None:
                s.kfn[rname(c)] = fn
            for o in outs:
                v = mk('kernel', rname(c), cur[o], vals, sc, pos.get(o, -1)) if not std or op in MUTATE else mix(cur[o], [x.a[3] for x in ins] + [cur[x] for x in outs if x is not o])
                e.write(st, s.slot(e, st, o.a[3].a[0]), v)
        if std and op in ADAPTERS:
            return mk('sym', 'itr', fr.id, b, tuple(outs) + tuple(ins))
        return None

    def viewlen(s, e, st, a, fr, c):
        """number of elements of the typed view of a channel"""
        v = e.content(st, a)
        l = fld(v, 'length') if v.tag == 'agg' else None
        from .models import SIZES
        t = fr.ty(c['args'][-1]) if c.get('args') else None
        return mk('op', 'Div', l, C(SIZES[t])) if l is not None and t in SIZES else mk('sym', 'unknownlen')

    def data(s, e, st, a):
        v = e.content(st, a)
        d = fld(v, 'ptr') if v.tag == 'agg' else None
        return d if d is not None else mk('sym', 'unknowndata', v.n)

    def datas(s, e, st, args):
        """what each argument carries: the samples of a slice, or a scalar"""
        for a in args:
            r, m = [], []
            found(e, st, a, 'rslice', r)
            found(e, st, a, 'mslice', m)
            xs = [x.a[3] for x in r] + [e.readfull(st, s.slot(e, st, x.a[3].a[0])) for x in m]
            yield mk('samples', tuple(xs)) if xs else mk('c', 'str', '-')


MUTATE = ('copy_from_slice', 'clone_from_slice', 'fill', 'reverse', 'swap', 'copy_within', 'rotate_left', 'rotate_right', 'sort', 'sort_unstable', 'swap_with_slice', 'fill_with', 'copy_nonoverlapping')
ADAPTERS = ('iter', 'iter_mut', 'into_iter', 'zip', 'enumerate', 'rev', 'skip', 'take', 'step_by', 'chunks', 'chunks_exact', 'chunks_mut', 'chunks_exact_mut', 'windows', 'copied', 'cloned', 'split_at', 'split_at_mut', 'index', 'index_mut', 'by_ref',
            'rchunks', 'rchunks_mut', 'rchunks_exact', 'rchunks_exact_mut', 'peekable', 'chain', 'as_chunks', 'deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'borrow', 'unwrap', 'map')


def mix(base, srcs):
    """samples written by a loop that also walks over other samples"""
    b, old = (base.a[0], list(base.a[1])) if base.tag == 'mix' else (base, [])
    new = list(old)
    for x in srcs:
        l = [x] if x.tag != 'mix' else [x.a[0]] + list(x.a[1])
        for y in l:
            if y is not b and y not in new and not (y.tag == 'written' and y.a[0].tag == 'sym' and y.a[0].a[0] == 'blank'):
                new.append(y)
    return base if new == old else mk('mix', b, tuple(sorted(new, key=lambda v: v.n)))


def found(e, st, v, what, out, d=0):
    """sub-values sym(what, ...) of a value, also behind references to locals"""
    if v.tag == 'sym' and v.a[0] == what:
        if v not in out:
            out.append(v)
        return
    if d > 10 or v.tag in ('written', 'kernel', 'samples', 'mix'):
        return
    if v.tag == 'ref' and v.a[0][0] != '*' and v.a[0][0] != (('img', 0)):
        w = st.mem.get(v.a[0])
        if w is not None:
            found(e, st, w, what, out, d + 1)
        return
    for x in v.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, V):
                found(e, st, y, what, out, d + 1)


def scal(e, st, a):
    """scalar arguments of a kernel ('slice' for the rest)"""
    if find(a, 'rslice') is not None or find(a, 'mslice') is not None:
        return mk('c', 'str', 'slice')
    return a


def find(v, what, d=0):
    """sub-value sym(what, ...)"""
    if v.tag == 'sym' and v.a[0] == what:
        return v
    if d > 8:
        return None
    for x in v.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, V) and y.tag not in ('written', 'kernel', 'mix'):
                r = find(y, what, d + 1)
                if r is not None:
                    return r
    return None


def isroot(v):
    return v.tag == 'sym' and len(v.a) == 3 and v.a[2] == 'ptr' and re.match(r'^(img|src)\.f\d+\.c\d+$', str(v.a[0])) is not None


def roots(v, out=None, d=0):
    """samples of the original image a data value depends on"""
    if out is None:
        out = set()
    if isroot(v):
        out.add(v.a[0])
        return out
    if d > 60:
        return out
    for x in v.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, V):
                roots(y, out, d + 1)
    return out


def kernels(v, out=None, d=0, seen=None):
    """all kernel applications inside a data value"""
    if out is None:
        out, seen = [], set()
    if v.n in seen or d > 80:
        return out
    seen.add(v.n)
    if v.tag == 'kernel':
        out.append(v)
    for x in v.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, V):
                kernels(y, out, d + 1, seen)
    return out


def baseroot(v):
    """the original channel a data value is a modified copy of; None for fresh samples"""
    while True:
        if v.tag == 'sym':
            return v.a[0] if isroot(v) else None
        if v.tag == 'written':
            v = v.a[0]
        elif v.tag == 'kernel':
            v = v.a[1]
        elif v.tag == 'mix':
            b = baseroot(v.a[0])
            if b is None:
                l = {baseroot(x) for x in v.a[1]} - {None}
                b = l.pop() if len(l) == 1 else None
            return b
        else:
            return None


def opaque_value(v, depth):
    """constant the samples were filled with: the largest value of the depth?  None when not filled"""
    while v.tag == 'written':
        v = v.a[0]
    if v.tag != 'kernel' or not (v.a[0] == 'fill' or v.a[0].endswith('::fill')) or roots(v):
        return None
    x = uncast(v.a[3][-1])
    if x.tag != 'c':
        return None
    return x
