"""C28: the memory block behind an image channel."""
from ..imgs import *
from ..lin import implies, Lin
from ..models import payload

PROP = dict(
    id='C28',
    title='Channel memory: accesses stay in the block, which is freed as allocated',
    statement='For every sequence of operations on an image Channel: length never exceeds capacity and capacity never exceeds the allocated block; every slice handed out and every copy into the channel lies inside the block; '
              'the block is reallocated and freed with the layout it was allocated with, no zero sized or failed allocation is used; a channel is viewed as elements of a type only when it was created for that type and its length is a multiple of the size; '
              'and a clone has the same length and type.',
    quantifier=dict(over=['histories', 'inputs'], text='every sequence of Channel calls with any lengths, capacities and element types'),
    why_tests_cant='Tests use channels of a few fixed capacities; growth past one reallocation, tiny capacities and unusual element types are not reached, and out-of-bounds heap accesses usually go unnoticed.',
    anchors=dict(files=['crates/zune-image/src/channel.rs'], mechanism=[dict(name='Channel: alloc, realloc, dealloc, push, extend, reinterpret_as', where='channel.rs')]))
TECHNIQUE = 'inductive invariant over the Channel struct by abstract interpretation of MIR with linear arithmetic on path facts (Fourier-Motzkin)'
EXPLAIN = """
The representation invariant of Channel (length <= capacity <= size of the block behind ptr; recorded layout = layout of the block) is assumed for every Channel parameter of every public or externally called function of
the module and for every trait implementation, and proved for every Channel they leave behind or return, whatever the generic element type. Which of 'layout field describes the block' and 'capacity is the block size' holds
is inferred by dropping the candidates some function does not preserve. At every memory primitive (realloc, dealloc, from_raw_parts, pointer copy, pointer write) the path facts must imply that the range lies inside
the block, or that the given layout is that of the block. Functions returning a typed view must have established type_id == TypeId::of::<T>() and length % size_of::<T>() == 0 on each Ok path.
"""
ASSUME = ['std::alloc contracts: the block returned by alloc/realloc has exactly the requested size', 'arithmetic on lengths does not wrap (blocks are at most isize::MAX bytes)', 'the contract of the unsafe public Channel::realloc and set_len is checked for any argument']
MAXS = (1 << 63) - 1
LAYOUT = 'core::alloc::layout::Layout'


def size_term(t):
    from ..models import SIZES
    return C(SIZES[t]) if t in SIZES else mk('call', 'core::mem::size_of', (mk('ty', t),))


def pointee(ty):
    m = re.match(r'^\*(?:mut|const) (.*)$', ty)
    return m.group(1) if m else None


def base_off(p):
    off = C(0)
    p = uncast(p)
    while p.tag == 'padd':
        off = p.a[1] if intc(off) and cv(off) == 0 else mk('op', 'Add', off, p.a[1])
        p = uncast(p.a[0])
    return p, off


def find(v, tag, d=0):
    if v.tag == tag:
        return v
    if d > 6:
        return None
    for x in v.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, V):
                r = find(y, tag, d + 1)
                if r is not None:
                    return r
    return None


class Run:
    def __init__(s, cx, f, inv, self_args):
        s.cx, s.f, s.inv = cx, f, inv
        s.obl = []          # (kind, where, ok, msg)
        s.lay = {}
        s.blocks = {}       # heap value -> size
        F = cx.F
        s.F = F
        s.adt = F.adts[CHANNEL]['v'][0]
        s.names = [x['n'] for x in s.adt['f']]
        s.types = {x['n']: x['t'] for x in s.adt['f']}
        s.layf = next((n for n in s.names if 'Layout' in s.types[n]), None)
        st = State()
        args = []
        s.cells = []
        for i, ty in enumerate(f.ins()):
            if re.match(r"^&(mut )?zune_image::channel::Channel$", ty):
                p = (('chan%d' % i, 0),)
                v, fs = s.fresh('c%d' % i)
                st.mem[p] = v
                st.facts = st.facts | fs
                args.append(mk('ref', p, 'mut' in ty))
                s.cells.append((p, 'mut' in ty, v))
            elif ty == CHANNEL:
                v, fs = s.fresh('c%d' % i)
                st.facts = st.facts | fs
                args.append(v)
            else:
                args.append(mk('arg', f.id, i + 1))
        mod = f.name
        e = Engine(F, inline=lambda fr, c, fn: fn.crate == 'zune_image' and '::channel::' in fn.name, model=s.model, max_steps=200000)
        e.on_call = s.on_call
        s.e = e
        fr, st2 = e.run(f, args=args, state=st)
        s.fr, s.end = fr, st2

    def fresh(s, name):
        lay = mk('sym', name, 'layout')
        ptr = mk('heap', name)
        size = mk('sym', name, 'blocksize')
        s.blocks[ptr] = size
        over = dict(ptr=ptr, length=mk('sym', name, 'length'), capacity=mk('sym', name, 'capacity'))
        if s.layf:
            over[s.layf] = lay
        s.lay[lay] = mk('sym', name, 'layoutsize')
        v = struct(s.F, CHANNEL, name, **over)
        fs = {('le', over['length'], over['capacity']), ('le', over['capacity'], size), ('le', size, C(MAXS)), ('F', mk('isnull', ptr))}
        if 'layout' in s.inv and s.layf:
            fs |= {('eq', s.lay[lay], size)}
        if 'capacity' in s.inv:
            fs |= {('eq', over['capacity'], size)}
        return v, fs

    # ---- layouts and blocks
    def laysize(s, v, facts):
        """(size of a layout value, facts about it)"""
        v = uncast(v)
        if v in s.lay:
            return s.lay[v], set()
        r = find(v, 'layres')
        if r is not None:
            return r.a[0], {('le', r.a[0], C(MAXS))}
        return None, set()

    def proves(s, facts, goal):
        extra = set()
        for f in facts:
            if f[0] == 'is' and f[2] == 'Ok':
                r = find(f[1], 'layres')
                if r is not None:
                    extra.add(('le', r.a[0], C(MAXS)))
        for g in (goal[1], goal[2]):
            r = find(g, 'layres')
            if r is not None:
                extra.add(('le', r.a[0], C(MAXS)))
        return implies(facts, goal, Lin(rewrite=s.rewrite), extra)

    def rewrite(s, v):
        if v.tag == 'laysize':
            z, _ = s.laysize(v.a[0], None)
            return uncast(z) if z is not None else v
        return v

    def note(s, kind, fr, t, ok, msg):
        s.obl.append((kind, fr.fn.where(t.get('l')), ok, msg))

    def inside(s, e, st, fr, t, what, p, n):
        """[p, p+n) lies in its block"""
        for facts, (p, n) in paths(e, st, (p, n)):
            b, off = base_off(p)
            s.inside1(e, facts, fr, t, what, b, off, n)

    def inside1(s, e, facts, fr, t, what, b, off, n):
        b, o2 = base_off(b)
        end = mk('op', 'Add', mk('op', 'Add', off, o2), n)
        if b.tag == 'heap':
            size = s.blocks[b]
            ok = s.proves(facts, ('le', end, size))
            s.note(what, fr, t, ok, 'bytes up to %s of a block of %s%s' % (show(end)[:80], show(size)[:60], '' if ok else ': not shown to be inside'))
            nn = ('F', mk('isnull', b)) in facts
            s.note(what + ':nonnull', fr, t, nn, 'allocation %s' % ('checked' if nn else 'may have failed'))
        elif b.tag == 'slp':
            size = mk('op', 'Mul', b.a[0].a[0], size_term(b.a[1]))
            ok = s.proves(facts, ('le', end, size))
            s.note(what, fr, t, ok, 'bytes up to %s of a slice of %s%s' % (show(end)[:80], show(size)[:60], '' if ok else ': not shown to be inside'))
        else:
            s.cx.undec('%s:%s' % (s.f.name, what), 'pointer %s is not traced to a block' % show(b)[:80], fr.fn.where(t.get('l')))

    def model(s, e, fr, b, t, c, args, st):
        n = c['name']
        op = n.split('::')[-1]
        at = t['at']
        if n.startswith(LAYOUT):
            if op == 'from_size_align':
                return mk('layres', args[0])
            if op == 'from_size_align_unchecked':
                r = mk('layres', args[0])
                return payload(e, st, r, 'Ok')
            if op == 'array':
                return mk('layres', mk('op', 'Mul', args[0], size_term(fr.ty(c['args'][0]))))
            if op == 'size':
                v = e.content(st, args[0])
                return mk('laysize', v)
            return None
        if n.startswith('alloc::alloc::') or n.startswith('std::alloc::') or n.startswith('core::alloc::'):
            if op in ('alloc', 'alloc_zeroed'):
                size = s.need_layout(e, st, fr, t, args[0], 'allocation')
                h = mk('heap', fr.id, b)
                s.blocks[h] = size
                return h
            if op == 'realloc':
                s.same_layout(e, st, fr, t, args[0], args[1], 'realloc')
                s.positive(e, st, fr, t, args[2], 'realloc')
                h = mk('heap', fr.id, b)
                s.blocks[h] = args[2]
                for facts, (p, z) in paths(e, st, (args[2], C(0))):
                    ok = s.proves(facts, ('le', p, C(MAXS)))
                    s.note('realloc:max', fr, t, ok, 'new size %s' % ('is a valid allocation size' if ok else 'may exceed isize::MAX'))
                return h
            if op == 'dealloc':
                s.same_layout(e, st, fr, t, args[0], args[1], 'dealloc')
                return mk('agg', 'tuple', '', '', (), ())
            return None
        m = re.match(r'^core::ptr::(mut_ptr|const_ptr)::<impl \*(?:mut|const) T>::(\w+)$', n)
        if m:
            op = m.group(2)
            es = size_term(fr.ty(pointee(at[0]) or '?'))
            if op in ('add', 'wrapping_add', 'offset', 'wrapping_offset'):
                o = args[1]
                if not (intc(es) and cv(es) == 1):
                    o = mk('op', 'Mul', o, es)
                return mk('padd', args[0], uncast(o) if op.endswith('offset') else o)
            if op in ('byte_add',):
                return mk('padd', args[0], args[1])
            if op in ('cast', 'cast_mut', 'cast_const'):
                return args[0]
            if op == 'is_null':
                return mk('isnull', uncast(args[0]))
            if op in ('copy_from', 'copy_from_nonoverlapping', 'copy_to', 'copy_to_nonoverlapping'):
                nb = args[2] if intc(es) and cv(es) == 1 else mk('op', 'Mul', args[2], es)
                s.inside(e, st, fr, t, 'copy', args[0], nb)
                s.inside(e, st, fr, t, 'copy', args[1], nb)
                return mk('agg', 'tuple', '', '', (), ())
            if op in ('write', 'read', 'write_unaligned', 'read_unaligned', 'replace'):
                s.inside(e, st, fr, t, op, args[0], es)
                return None
            if op == 'write_bytes':
                s.inside(e, st, fr, t, op, args[0], mk('op', 'Mul', args[2], es))
                return mk('agg', 'tuple', '', '', (), ())
            return None
        m = re.match(r'^core::(?:ptr|intrinsics)::(copy|copy_nonoverlapping|write|read|write_unaligned|read_unaligned|write_bytes)$', n)
        if m:
            es = size_term(fr.ty(c['args'][0]))
            op = m.group(1)
            if op.startswith('copy'):
                nb = args[2] if intc(es) and cv(es) == 1 else mk('op', 'Mul', args[2], es)
                s.inside(e, st, fr, t, 'copy', args[0], nb)
                s.inside(e, st, fr, t, 'copy', args[1], nb)
                return mk('agg', 'tuple', '', '', (), ())
            s.inside(e, st, fr, t, op, args[0], mk('op', 'Mul', args[2], es) if op == 'write_bytes' else es)
            return None
        if re.match(r'^core::slice::(raw::)?from_raw_parts(_mut)?$', n):
            es = size_term(fr.ty(c['args'][0]))
            nb = args[1] if intc(es) and cv(es) == 1 else mk('op', 'Mul', args[1], es)
            s.inside(e, st, fr, t, 'slice', args[0], nb)
            return mk('view', uncast(args[0]), args[1])
        if re.match(r'^(core::slice::<impl \[T\]>::align_to(_mut)?|bytemuck::(pod_align_to|pod_align_to_mut))$', n) and len(c['args']) >= 2 and args[0].tag == 'view':
            z, w = size_term(fr.ty(c['args'][0])), size_term(fr.ty(c['args'][1]))
            v = args[0]
            a, m, z3 = (mk('sym', 'align', fr.id, b, i) for i in range(3))
            la, lm, lc = (mk('op', 'Mul', x, y) if not (intc(y) and cv(y) == 1) else x for x, y in ((a, z), (m, w), (z3, z)))
            whole = mk('op', 'Mul', v.a[1], z) if not (intc(z) and cv(z) == 1) else v.a[1]
            st.facts = st.facts | {('eq', mk('op', 'Add', mk('op', 'Add', la, lm), lc), whole)}
            p2 = mk('padd', v.a[0], la)
            return mk('agg', 'tuple', '', '', (mk('view', v.a[0], a), mk('view', p2, m), mk('view', mk('padd', p2, lm), z3)), ())
        if n in ('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr'):
            m = re.match(r'^&(?:mut )?\[(.*?)(?:; \d+)?\]$', at[0].replace("'_ ", ''))
            v = args[0]
            if v.tag == 'view':
                return v.a[0]
            ln = e.len_of(st, v, at[0])
            return mk('slp', mk('lenof', ln), fr.ty(m.group(1)) if m else '?')
        if n.startswith('core::num::<impl usize>::saturating_mul') or n.startswith('core::num::<impl usize>::saturating_add'):
            return None
        return None

    def need_layout(s, e, st, fr, t, lay, what):
        out = None
        for facts, (l,) in paths(e, st, (lay,)):
            size, fs = s.laysize(l, facts)
            if size is None:
                s.note(what, fr, t, False, 'layout %s is not traced to its size' % show(l)[:60])
                continue
            ok = s.proves(facts | fs, ('le', C(1), size))
            s.note(what + ':positive', fr, t, ok, 'size %s %s' % (show(size)[:60], 'is positive' if ok else 'may be zero'))
            out = size
        return out if out is not None else mk('sym', 'blocksize?', fr.id)

    def positive(s, e, st, fr, t, size, what):
        for facts, (z,) in paths(e, st, (size,)):
            ok = s.proves(facts, ('le', C(1), z))
            s.note(what + ':positive', fr, t, ok, 'size %s %s' % (show(z)[:60], 'is positive' if ok else 'may be zero'))

    def same_layout(s, e, st, fr, t, p, lay, what):
        for facts, (p, l) in paths(e, st, (p, lay)):
            b, off = base_off(p)
            size, fs = s.laysize(l, facts)
            ok = b.tag == 'heap' and size is not None and s.proves(facts | fs, ('eq', size, s.blocks[b])) and s.proves(facts, ('eq', off, C(0)))
            s.note(what + ':layout', fr, t, ok, 'the layout given is %s' % ('that of the block' if ok else 'not shown to be that of the block'))

    def on_call(s, fr, b, t, c, args, st):
        return None

    # ---- exits
    def leftover(s):
        """channels after the call: (facts, dict of fields, origin)"""
        if s.end is None:
            return
        e, st = s.e, s.end
        out = s.f.out()
        todo = [(p, v0) for p, mut, v0 in s.cells if mut] if not s.f.name.endswith('::drop') else []
        for p, v0 in todo:
            v = e.readfull(st, p)
            yield from s.fields(st, v, v0)
        if re.search(r'zune_image::channel::Channel(?!\w)', out) and '&' not in out:
            for s2, v in ((st, retval(e, s.fr, st)),):
                yield from s.fields(st, e.resolve(st, v), None)

    def fields(s, st, v, v0):
        e = s.e
        for facts, (v,) in paths(e, st, (v,)):
            if v.tag == 'agg' and v.a[1] != CHANNEL and v.a[3]:
                v = v.a[3][0]
            vals = []
            for n in s.names:
                x = fld(v, n) if v.tag == 'agg' and v.a[1] == CHANNEL else None
                vals.append(x if x is not None else mk('sym', 'unknown', n))
            for f2, vs in paths(e, State(st.mem, facts), vals):
                yield f2, dict(zip(s.names, vs)), v0


def run(cx):
    F = cx.F
    a = F.adts.get(CHANNEL)
    fns = [f for f in F.fns.values() if f.crate == 'zune_image' and ('zune_image::channel::' in f.name.split(' as ')[0]) and f.kind != 'Closure' and 'ChannelErrors as' not in f.name]
    if a is None or not fns:
        cx.ob('anchor:Channel', False, 'Channel not found')
        return
    names = {x['n'] for x in a['v'][0]['f']}
    if not {'ptr', 'length', 'capacity'} <= names:
        cx.undec('representation', 'Channel no longer has ptr, length and capacity', '')
        return
    ids = {f.id for f in fns}
    ext = set()
    for g in F.fns.values():
        if g.id in ids or (g.kind == 'Closure' and 'zune_image::channel::' in g.name):
            continue
        for b, t, c in g.calls():
            if c is not None and rid(c) in ids:
                ext.add(rid(c))
    entries = [f for f in fns if f.d['vis'] == 'true' or ' as ' in f.name or f.id in ext]
    entries = [f for f in entries if any(re.search(r'zune_image::channel::Channel(?!\w)', x) for x in f.ins() + [f.out()])]
    cx.ob('inventory', len(entries) >= 15, '%d entry functions of the Channel module' % len(entries))
    inv = {'layout', 'capacity'}
    while True:
        runs, drop = {}, set()
        for f in sorted(entries, key=lambda f: f.name):
            r = Run(cx, f, inv, None)
            runs[f] = r
            for facts, ch, v0 in r.leftover():
                b, off = base_off(ch['ptr'])
                if b.tag != 'heap':
                    drop |= inv
                    continue
                if 'capacity' in inv and not r.proves(facts, ('eq', ch['capacity'], r.blocks[b])):
                    drop.add('capacity')
                if 'layout' in inv:
                    z, fs = r.laysize(ch[r.layf], facts) if r.layf else (None, set())
                    if z is None or not r.proves(facts | fs, ('eq', z, r.blocks[b])):
                        drop.add('layout')
        if not (drop & inv):
            break
        inv -= drop
        cx.undecided.clear()
    cx.extra['invariant'] = ['length <= capacity', 'capacity <= block size'] + sorted({'layout': 'layout field describes the block', 'capacity': 'capacity == block size'}[x] for x in inv)
    for f, r in runs.items():
        cx.analysed(f)
        for i in r.e.inlined:
            cx.analysed(F.fns[i])
        nm = f.name.replace('zune_image::channel::', '')
        for kind, where, ok, msg in r.obl:
            cx.ob('%s:%s' % (nm, kind), ok, msg, where)
        ends = list(r.leftover())
        for facts, ch, v0 in ends:
            b, off = base_off(ch['ptr'])
            if b.tag != 'heap':
                cx.ob('%s:ptr' % nm, False, 'the pointer left behind (%s) is not an allocated block' % show(ch['ptr'])[:60], f.where())
                continue
            ok = r.proves(facts, ('le', ch['length'], ch['capacity']))
            cx.ob('%s:length' % nm, ok, 'length %s capacity %s%s' % (show(ch['length'])[:60], show(ch['capacity'])[:60], '' if ok else ': length <= capacity is not shown'), f.where())
            ok = r.proves(facts, ('le', ch['capacity'], r.blocks[b])) and intc(off)
            cx.ob('%s:capacity' % nm, ok, 'capacity %s block %s%s' % (show(ch['capacity'])[:60], show(r.blocks[b])[:60], '' if ok else ': capacity <= block size is not shown'), f.where())
            nn = ('F', mk('isnull', b)) in facts
            cx.ob('%s:nonnull' % nm, nn, 'allocation %s' % ('checked' if nn else 'may have failed'), f.where())
            if v0 is not None:
                same = ch['type_id'] is fld(v0, 'type_id') if 'type_id' in ch else True
                cx.ob('%s:type' % nm, same, 'the element type of the channel is %s' % ('kept' if same else 'changed'), f.where())
        if f.name.endswith('Clone>::clone') and f.ins():
            v0 = r.cells[0][2]
            for facts, ch, _ in ends:
                ok = r.proves(facts, ('eq', ch['length'], fld(v0, 'length')))
                cx.ob('%s:same-length' % nm, ok, 'clone length %s' % show(ch['length'])[:60], f.where())
                ok = ch['type_id'] is fld(v0, 'type_id')
                cx.ob('%s:same-type' % nm, ok, 'clone type %s' % show(ch['type_id'])[:60], f.where())
        m = re.match(r'^core::result::Result<&(?:mut )?\[(\w+)\], ', f.out())
        if m and f.d['vis'] == 'true' and not f.d['unsafe']:
            T = m.group(1)
            v0 = r.cells[0][2]
            n = 0
            for s2, v in split(r.e, r.end, retval(r.e, r.fr, r.end), 'Ok') if r.end is not None else ():
                n += 1
                ty, tid = fld(v0, 'type_id'), mk('typeid', T)
                okt = any(g[0] == 'eq' and {g[1], g[2]} == {ty, tid} for g in s2.facts) or typeeq(s2.facts, ty, tid)
                cx.ob('%s:view-type' % nm, okt, 'a view as %s is given %s' % (T, 'only for channels of that type' if okt else 'without comparing the type'), f.where())
                rem = any(zero_rem(g, fld(v0, 'length')) for g in s2.facts)
                cx.ob('%s:view-length' % nm, rem, 'the length is %s' % ('known to be a multiple of the element size' if rem else 'not tested against the element size'), f.where())
            cx.ob('%s:view' % nm, n > 0, '%d success exits' % n, f.where())


def zero_rem(g, n):
    """the fact says that n is a multiple of something"""
    if g[0] not in ('eq', 'le', 'lt') or not all(isinstance(x, V) for x in g[1:3]):
        return False
    rem = lambda x: uncast(x).tag == 'op' and uncast(x).a[0] == 'Rem' and uncast(uncast(x).a[1]) is n
    mul = lambda x: x.tag == 'op' and x.a[0] == 'Mul' and any(y.tag == 'op' and y.a[0] == 'Div' and y.a[1] is n for y in x.a[1:3])
    a, b = g[1], g[2]
    if g[0] == 'eq':
        return rem(a) and intc(b) and cv(b) == 0 or rem(b) and intc(a) and cv(a) == 0 or mul(a) and b is n or mul(b) and a is n
    return rem(a) and intc(b) and cv(b) == (0 if g[0] == 'le' else 1)


def typeeq(facts, a, b):
    for g in facts:
        if g[0] == 'T' and g[1].tag == 'op' and g[1].a[0] == 'Eq' and {g[1].a[1], g[1].a[2]} == {a, b}:
            return True
        if g[0] == 'F' and g[1].tag == 'op' and g[1].a[0] == 'Ne' and {g[1].a[1], g[1].a[2]} == {a, b}:
            return True
    return False
