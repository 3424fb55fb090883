"""C02: a too small output buffer is reported as an error before it is touched."""
from ..lib import *
from .c03 import engine, start

PROP = dict(
    id='C02',
    title='Too small output buffers are rejected with an error, untouched',
    statement='Decoding into a caller-provided buffer (decode_into of the BMP, farbfeld, GIF, HDR, JPEG, PNG and QOI decoders) that is shorter than the size the decoder itself reports returns an error before any element of the buffer is accessed: '
              'no panic, no success and no partially written output.',
    quantifier=dict(over=['inputs', 'configurations'], text='every image, every option set and every buffer length smaller than the reported output size'),
    why_tests_cant='Tests pass buffers of exactly the reported size; too small ones for each format and option combination are not tried.',
    anchors=dict(files=['crates/zune-bmp/src/decoder.rs', 'crates/zune-farbfeld/src/decoder.rs', 'crates/zune-gif/src/decoder.rs', 'crates/zune-hdr/src/decoder.rs', 'crates/zune-jpeg/src/decoder.rs', 'crates/zune-png/src/decoder.rs', 'crates/zune-qoi/src/decoder.rs'],
                 mechanism=[dict(name='length test against output_buffer_size before decoding', where='decode_into of each decoder')]))
TECHNIQUE = 'abstract interpretation of MIR: dominance of every access to the output parameter by the comparison of its length with the reported size'
EXPLAIN = """
decode_into of each decoder is run abstractly with an unknown decoder and an unknown buffer.  At every construct that accesses the buffer (index, slice, iterator, call that
receives it mutably, direct store) the path facts must contain size <= buffer length, where size is the value the decoder's own size query returns in the state at that point; a direct slice
or index of the buffer must have a bound known to be at most its length; every successful exit must lie behind that comparison.
"""
ASSUME = ['std/core models of va/models.py', 'PNG: the size query is output_buffer_size, or inner_buffer_size for the undivided 16-bit samples (which is at least as large)']
WANT = ['zune_bmp', 'zune_farbfeld', 'zune_gif', 'zune_hdr', 'zune_jpeg', 'zune_png', 'zune_qoi']
NEUTRAL = re.compile(r'::(len|is_empty|as_ptr|as_ref|fmt)$')
MARK = mk('c02mark')


def mentions(v, out, d=0):
    if v is out:
        return True
    if v.tag == 'ref':
        p = v.a[0]
        return len(p) >= 2 and p[0] == '*' and p[1] is out
    if v.tag == 'agg' and d < 4:
        return any(mentions(x, out, d + 1) for x in v.a[3] if isinstance(x, V))
    if v.tag == 'phi' and d < 4:
        return any(mentions(x, out, d + 1) for x in v.a[1])
    return False


def run(cx):
    F = cx.F
    types = decoder_types(F)
    for crate in WANT:
        ty = types.get(crate)
        f = F.fn(ty + '::decode_into') if ty else None
        if f is None:
            cx.ob('anchor:' + crate, False, 'no decode_into')
            continue
        sizes = [g for g in F.fns.values() if g.name.startswith(ty + '::') and g.kind != 'Closure' and g.argc == 1 and g.ins()[0].startswith('&') and not g.ins()[0].startswith('&mut') and g.out() == 'core::option::Option<usize>']
        headers = {g.id for g in F.fns.values() if g.name.startswith(ty + '::decode_headers')}
        selfv, out = mk('arg', 'decoder', 0), mk('arg', 'output', 1)
        pend = [False]
        e = Engine(F, inline=lambda fr, c, fn: fn.crate in (crate, 'zune_core') and fn.id not in headers and '::bytestream::' not in fn.name and (pend[0] or len(fn.blocks) <= 40 or fn.name.startswith(ty + '::decode_into')), max_depth=6, max_steps=300000)
        cx.ob('%s:size-query' % crate, bool(sizes), ', '.join(g.name.split('::')[-1] for g in sizes))
        bad, uses, busy = [], [0], [False]

        def sizevals(st):
            busy[0] = True
            r = []
            for g in sizes:
                fr, s2 = e.run(g, args=[selfv], state=st)
                if s2 is not None:
                    for s3, v in split(e, s2, retval(e, fr, s2), 'Some'):
                        w = e.project(s3, v, (('d', 1, 'Some'), ('f', 0, '0')))
                        r.append(uncast(w))
            busy[0] = False
            return r

        def norm(v, d=0):
            v = uncast(v)
            if v.tag in ('phi', 'lphi'):
                return ('phi', frozenset(norm(x, d + 1) for x in v.a[1] if x.tag != 'bot')) if v.tag == 'phi' and d < 12 else v
            if v.tag == 'op':
                l, r = norm(v.a[1], d + 1), norm(v.a[2], d + 1)
                return ('op', v.a[0], frozenset([l, r]) if v.a[0] in ('Mul', 'Add') and l != r else (l, r))
            return v
        seen = set()

        def islen(v):
            v = uncast(v)
            return v.tag == 'len' and v.a[0] is out or (v.tag == 'un' and v.a[1] is out) or v is e.len_of(State(), out)

        def checked(st):
            if ('T', MARK) in st.facts:
                return True
            sv = None
            for g in st.facts:
                if g[0] in ('le', 'lt') and isinstance(g[2], V) and islen(g[2]) or g[0] == 'eq' and isinstance(g[2], V) and (islen(g[1]) or islen(g[2])):
                    if sv is None:
                        sv = sizevals(st)
                    if g[0] == 'eq' and islen(g[1]):
                        x = g[2]
                    else:
                        x = g[1]
                    if uncast(x) in seen or any(norm(x) == norm(w) for w in sv):
                        return True
            return False

        def le_len(st, v):
            v = uncast(v)
            if islen(v):
                return True
            if v.tag == 'op' and v.a[0] == 'Min' and (islen(v.a[1]) or islen(v.a[2]) or le_len(st, v.a[1]) or le_len(st, v.a[2])):
                return True
            return any(g[0] in ('le', 'lt') and isinstance(g[2], V) and islen(g[2]) and uncast(g[1]) is v for g in st.facts) or (v.tag == 'c' and v.a[0] == 0)

        def access(st, what, where):
            uses[0] += 1
            if checked(st):
                st.facts = st.facts | {('T', MARK)}
                return True
            bad.append('%s at %s without size <= buffer length' % (what, where))
            return False

        def oc(fr, b, t, c, args, st):
            pend[0] = False
            if busy[0] or c is None:
                return
            if t.get('t') is None and any(g[0] == 'lt' and islen(g[1]) and (uncast(g[2]) in seen) for g in st.facts):
                bad.append('panic at %s when the buffer is too small' % fr.fn.where(t.get('l')))
            hit = [i for i, a in enumerate(args) if mentions(a, out)]
            if not hit:
                return
            n = rname(c)
            if NEUTRAL.search(n) or n.endswith('PtrMetadata'):
                return
            if re.search(r'slice::.*::get(_mut)?$', n):
                uses[0] += 1        # bounded by itself: what it leaves undone is caught by the rule on success exits
                return
            fn = e.target(st, c, args)
            mutable = any(t['at'][i].startswith('&mut') or not t['at'][i].startswith('&') for i in hit)
            where = fr.fn.where(t.get('l'))
            if fn is not None and fn.crate in (crate, 'zune_core'):
                if not checked(st) and fr.depth < 5 and fn.id not in headers:
                    pend[0] = True
                    return
                access(st, 'call of %s' % n.split('::')[-1], where)
                return
            access(st, n.split('::')[-1], where)
            if 'Index' in c['name'] and len(args) > 1:
                r = e.resolve(st, args[1])
                if r.tag == 'agg' and r.a[1] and 'Range' in r.a[1]:
                    k = r.a[1].split('::')[-1].split('<')[0]
                    hi = {'Range': 1, 'RangeTo': 0}.get(k)
                    if hi is not None and not le_len(st, r.a[3][hi]):
                        bad.append('slice of the buffer up to %s at %s: bound not known to be within the buffer' % (show(r.a[3][hi])[:60], where))
        e.on_call = oc
        enter = e.enter

        def enter2(fr, b, t, c, fn, args, st):
            r = enter(fr, b, t, c, fn, args, st)
            if fn in sizes and r not in (None, 'never') and args and args[0] is selfv:
                for s3, v in split(e, r[0], r[1], 'Some'):
                    seen.add(uncast(e.project(s3, v, (('d', 1, 'Some'), ('f', 0, '0')))))
            return r
        e.enter = enter2

        def ostmt(fr, b, i, x, v, st):
            if busy[0]:
                return
            if x[0] == '=' and not isinstance(x[1], int):
                p = e.addr(st, fr, x[1])
                if len(p) > 2 and p[0] == '*' and p[1] is out:
                    access(st, 'store', fr.fn.where(x[3]))
        e.on_stmt = ostmt
        try:
            fr, st = e.run(f, args=[selfv, out])
        except Budget as b:
            cx.ob('%s:analysis' % crate, False, 'budget %s' % b, f.where())
            continue
        for i in e.inlined | {f.id}:
            cx.analysed(F.fns[i])
        cx.ob('%s:access' % crate, not bad and uses[0] > 0, bad[0] if bad else '%d accesses, all behind the size test' % uses[0], f.where())
        oks = [s for s, _ in ok_states(e, fr, st) if consistent(e, s)] if st is not None else []
        un = [s for s in oks if not checked(s)]
        cx.ob('%s:success' % crate, oks and not un, '%d success exits behind the size test' % len(oks) if not un else 'success without comparing the buffer length with the size', f.where())
