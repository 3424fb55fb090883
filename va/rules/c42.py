"""C42: vector loads and stores, unchecked indexing and raw slices stay inside the slices they come from."""
import collections
from ..lib import *
from ..engine import *
from ..facts import callee
from ..bounds import Mem, proves

PROP = dict(
    id='C42',
    title='Vector and unchecked memory accesses stay inside the slices they are given',
    statement='For every input, the x86 kernels and the other unsafe code of the decoders, of zune-image and of zune-imageprocs access only memory inside the slice or array the pointer was taken from: every vector load or store covers at most the elements that are left in the slice, '
              'every unchecked index or range is within its slice, and every slice made from a raw pointer is no longer than the slice it views. A function that is not marked unsafe guarantees this for any arguments its callers can give.',
    quantifier=dict(over=['inputs', 'configurations'], text='every slice length, width, height and stride; every caller inside the crates'),
    why_tests_cant='An access some bytes past the end of a slice usually reads or overwrites neighbouring heap memory without any visible effect; the tests run without memory checking and with few sizes.',
    anchors=dict(files=['crates/zune-jpeg/src/idct/avx2.rs', 'crates/zune-jpeg/src/upsampler/avx2.rs', 'crates/zune-jpeg/src/color_convert/avx.rs', 'crates/zune-png/src/filters/sse4.rs', 'crates/zune-png/src/utils.rs', 'crates/zune-image/src/deinterleave', 'crates/zune-image/src/core_filters/colorspace/grayscale', 'crates/zune-imageprocs/src/transpose/sse41.rs'],
                 mechanism=[dict(name='vector kernels', where='functions calling core::arch loads and stores')]))
TECHNIQUE = 'abstract interpretation of MIR with pointer provenance; each access is an inequality over slice lengths, proved from path facts by linear (and simple polynomial) arithmetic'
EXPLAIN = """
Every call of a core::arch intrinsic that takes a pointer, every get_unchecked, raw pointer read, write or copy and every from_raw_parts of the crates (except the C API and Channel, which C18 and C28 cover) is an obligation.  The pointer is followed to
the slice it comes from; items of chunks_exact, windows, zip, ranges and split_at carry their lengths, assertions and comparisons become path facts.  The inequality 'offset + bytes <= length' must follow.  Where it does not follow inside the function, the
function is walked again inside each of its callers (calls through function pointers included), up to a public function, where it must hold.
"""
ASSUME = ['products and sums of lengths do not wrap', 'only the code compiled for x86_64 is analysed (the NEON kernels are not)', 'calls through a function pointer can reach the functions of the same signature in the crate']

SKIP = re.compile(r'prefetch')


def raw(f):
    for b, t, c in f.calls():
        if c is None:
            continue
        n = c['name']
        op = n.split('::')[-1]
        if 'core_arch' in n and any(x.startswith('*') for x in t['at']) and not SKIP.search(op):
            yield b, t, c
        elif op.startswith('get_unchecked') or op.startswith('from_raw_parts') or re.match(r'^core::(ptr|intrinsics)::(read|write|copy)', n):
            yield b, t, c
        elif re.match(r'^core::ptr::(mut_ptr|const_ptr)::.*::(read|write|copy|replace|swap)', n):
            yield b, t, c


def plain(ty):
    return re.sub(r"'\w+ ?", '', ty)


class Ctx:
    """the obligations of the functions in `inner`, seen from f"""

    def __init__(s, cx, f, inner, reqs, raws, args=None):
        s.cx, s.f, s.inner, s.reqs = cx, f, inner, reqs
        s.out = {}       # (site fn, block, n) -> [(ok, kind, msg, where, goal)]
        s.raws = raws
        s.seq = 0
        s.M = Mem(cx.F, s.use)
        e = Engine(cx.F, inline=s.inline, model=s.model, on_call=s.on_call, max_steps=400000)
        s.e = e
        e.run(f, args=args)

    def inline(s, fr, c, fn):
        if fn.id in s.inner:
            return True
        return fn.id not in s.raws and fn.crate in (s.f.crate, 'zune_core') and len(fn.blocks) < 40 and fn.kind != 'Closure' and not loopy(fn)

    def model(s, e, fr, b, t, c, args, st):
        s.seq = 0
        return s.M(e, fr, b, t, c, args, st)

    def on_call(s, fr, b, t, c, args, st):
        if c is not None:
            fid = c.get('res') or c['fn']
            if fid in s.reqs and fid not in s.inner:
                s.require(fr, b, t, fid, args, st)
            return
        for fid in s.reqs:
            g = s.cx.F.fns[fid]
            if g.crate == fr.fn.crate and [plain(x) for x in g.ins()] == [plain(x) for x in t['at']]:
                s.require(fr, b, t, fid, args, st)

    def require(s, fr, b, t, fid, args, st):
        g = s.cx.F.fns[fid]
        for kind, goal in s.reqs[fid]:
            q = goal[:1] + tuple(subst(s.e, st, x, fid, args, g) for x in goal[1:])
            k = (fr.fn.id, b, 'call', kind, repr(goal)[:200], fr.id)
            if any(x is None for x in q):
                s.out[k] = [(False, kind, 'needs %s' % (text(goal),), fr.fn.where(t.get('l')), None)]
                continue
            res = []
            for facts, (x, y) in paths(s.e, st, (q[1], q[2])):
                ok = proves(facts, (q[0], x, y))
                res.append((ok, kind, '%s: %s' % (g.name.split('::')[-1], text((q[0], x, y))), fr.fn.where(t.get('l')), (q[0], x, y)))
            s.out[k] = res

    def use(s, fr, t, kind, alts):
        b = next(i for i, x in enumerate(fr.fn.blocks) if x['t'] is t)
        k = (fr.fn.id, b, kind, fr.id, s.seq)
        s.seq += 1
        res = []
        for facts, g in alts:
            if g[0] == 'unknown':
                res.append((False, kind, 'the pointer %s is not traced to a slice' % show(g[1])[:80], fr.fn.where(t.get('l')), None))
                continue
            ok = proves(facts, g)
            res.append((ok, kind, text(g), fr.fn.where(t.get('l')), g))
        s.out[k] = res


def text(g):
    def p(v):
        return re.sub(r'arg\((?:s::|:)?[^()]*, (\d+)\)', r'arg\1', show(v))[:110]
    return '%s <= %s' % (p(g[1]), p(g[2])) if g[0] in ('le', 'lt') else '%s = %s' % (p(g[1]), p(g[2]))


def loopy(fn):
    return bool(fn.loops())


def subst(e, st, v, fid, args, g):
    """value over the parameters of fid in terms of the arguments; None when something else occurs"""
    if intc(v):
        return v
    if v.tag == 'arg' and v.a[0] == fid:
        return args[v.a[1] - 1]
    if v.tag == 'len':
        x = v.a[0]
        if x.tag == 'arg' and x.a[0] == fid:
            return e.len_of(st, args[x.a[1] - 1], g.ins()[x.a[1] - 1])
        return None
    if v.tag == 'op':
        x, y = subst(e, st, v.a[1], fid, args, g), subst(e, st, v.a[2], fid, args, g)
        return None if x is None or y is None else mk('op', v.a[0], x, y)
    if v.tag == 'cast':
        x = subst(e, st, v.a[1], fid, args, g)
        return None if x is None else mk('cast', v.a[0], x, *v.a[2:])
    return None


def run(cx):
    F = cx.F
    fns = [f for f in F.fns.values() if f.crate not in ('zil_c', 'zune_python') and '::channel::' not in f.name and any(True for _ in raw(f))]
    raws = {f.id for f in fns}
    cx.ob('inventory', len(fns) >= 15, '%d functions with unchecked accesses' % len(fns))
    callers = collections.defaultdict(set)
    indirect = collections.defaultdict(set)
    sigs = collections.defaultdict(set)
    for g in F.fns.values():
        for b, t, c in g.calls():
            if c is not None:
                callers[c.get('res') or c['fn']].add(g.id)
            else:
                indirect[(g.crate, tuple(plain(x) for x in t['at']))].add(g.id)
    taken = set()
    for g in F.fns.values():
        taken |= set(mentions(g, F.fns))
    todo = [(f, frozenset([f.id]), (f,)) for f in sorted(fns, key=lambda f: f.name)]
    reqs = {}
    done = set()
    level = 0
    while todo and level < 6:
        nxt = []
        for f, inner, chain in todo:
            if (f.id, inner) in done:
                continue
            done.add((f.id, inner))
            cx.analysed(f)
            try:
                r = Ctx(cx, f, inner, {k: v for k, v in reqs.items() if k not in inner}, raws)
            except Budget as x:
                cx.undec('%s' % f.name, 'budget %s' % x, f.where())
                continue
            bad = collections.OrderedDict()
            for k in sorted(r.out, key=repr):
                for i, (ok, kind, msg, where, goal) in enumerate(r.out[k]):
                    if ok:
                        cx.ob('%s:%s@%s' % (short(f), kind, short(F.fns[k[0]]) if k[0] != f.id else ''), True, msg, where)
                    else:
                        bad[(k, i)] = (kind, msg, where, goal)
            if bad and split(cx, f, inner, reqs, raws, bad):
                continue
            if not bad:
                continue
            up = {g for g in callers[f.id]}
            ind = indirect[(f.crate, tuple(plain(x) for x in f.ins()))] if f.id in taken else set()
            free = not f.d.get('unsafe') and f.reach and f.kind != 'Closure'
            if free or level == 5 or f.kind == 'Closure':
                for kind, msg, where, goal in bad.values():
                    cx.ob('%s:%s' % (short(f), kind), False, '%s is not known%s' % (msg, ' for the arguments of this public function' if free else ''), where)
                continue
            if f.d.get('unsafe') and f.reach and not up and not ind:
                for kind, msg, where, goal in bad.values():
                    cx.ob('%s:%s' % (short(f), kind), True, 'left to the callers of this unsafe function: %s' % msg, where)
                continue
            if not up and not ind:
                if f.id in taken:
                    cx.undec(short(f), 'the calls of this function were not found', f.where())
                else:
                    cx.ob('%s:uncalled' % short(f), True, 'never called: %s' % next(iter(bad.values()))[1], f.where())
                continue
            if ind:
                rq = []
                for kind, msg, where, goal in bad.values():
                    rq.append((kind, goal if goal is not None else ('le', mk('sym', 'unknown'), C(0))))
                reqs[f.id] = rq
            for g in sorted(up | ind):
                gf = F.fns[g]
                if g in inner:
                    continue
                nxt.append((gf, inner | {g} if g in up else frozenset([g]), chain + (gf,)))
        todo = nxt
        level += 1


def split(cx, f, inner, reqs, raws, bad):
    """the function once per colour space, for a parameter of that type"""
    F = cx.F
    for i, ty in enumerate(f.ins()):
        if ty.endswith('colorspace::ColorSpace') and not ty.startswith('&'):
            good = each(cx, f, inner, reqs, raws, i, ty)
            if good is not None:
                for kind, msg, where, v in good:
                    cx.ob('%s:%s for %s' % (short(f), kind, v), True, msg, where)
                return True
    return False


def each(cx, f, inner, reqs, raws, i, ty):
    good = []
    for v, n in variants(cx.F, ty):
        val = enumval(cx.F, ty, v, [mk('sym', 'payload%d' % k) for k in range(n)])
        try:
            r = Ctx(cx, f, inner, {k: q for k, q in reqs.items() if k not in inner}, raws, [None] * i + [val])
        except Budget:
            return None
        for k in r.out:
            for ok, kind, msg, where, goal in r.out[k]:
                if not ok:
                    return None
                good.append((kind, msg, where, v))
    return good


def short(f):
    return f.name.replace('zune_', '', 1)


def mentions(f, ids):
    """functions whose address is taken"""
    out = []

    def go(x):
        if isinstance(x, dict):
            if 'fn' in x and x['fn'] in ids:
                out.append(x['fn'])
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    for b in f.blocks:
        go(b['s'])
        t = dict(b['t'])
        if t['k'] == 'call':
            go(t['a'])
    return out
