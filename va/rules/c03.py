"""C03: header queries answer nothing before, and always after, successful header decoding."""
from ..lib import *

PROP = dict(
    id='C03',
    title='Decoder queries: no answer before header decoding, an answer after it',
    statement='For a freshly created decoder, every query that may have no answer (dimensions, colorspace, bit depth, output size, metadata) answers "none", whatever the input and options. '
              ''
              'After a successful header decode, dimensions, colorspace and bit depth are always answered.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'], text='every decoder, every input and option set, before and after header decoding'),
    why_tests_cant='Tests query decoders only in the happy order on valid files; a query in another state, or after an unusual but accepted header, is not exercised.',
    anchors=dict(files=['crates/zune-bmp/src/decoder.rs', 'crates/zune-farbfeld/src/decoder.rs', 'crates/zune-gif/src/decoder.rs', 'crates/zune-hdr/src/decoder.rs', 'crates/zune-jpeg/src/decoder.rs', 'crates/zune-png/src/decoder.rs', 'crates/zune-ppm/src/decoder.rs', 'crates/zune-psd/src/decoder.rs', 'crates/zune-qoi/src/decoder.rs'],
                 mechanism=[dict(name='decoded_headers / seen_headers flags tested by every query', where='query methods of each decoder'), dict(name='the flag is set as the last step of decode_headers', where='decode_headers of each decoder')]))
TECHNIQUE = 'typestate by abstract interpretation of MIR: queries evaluated in the abstract state left by construction and by each successful exit of header decoding'
EXPLAIN = """
The abstract decoder value produced by the constructor is the start state.  Every public query (&self -> Option<..>) is evaluated abstractly in it and must be None.
Header decoding is then run abstractly from that state; in every success exit the dimension, colorspace and
depth queries must be Some.  One obligation per (decoder, query, state).
"""
ASSUME = ['std/core models of va/models.py', 'x86_64, default features, debug assertions off', 'a decoder is driven through its public methods only']

AFTER = ('(usize, usize)', 'ColorSpace', 'BitDepth')


def queries(F, ty):
    out = []
    for f in F.fns.values():
        if f.name.startswith(ty + '::') and f.kind != 'Closure' and f.argc == 1 and f.reach and f.ins()[0].startswith('&') and not f.ins()[0].startswith('&mut') and f.out().startswith('core::option::Option<'):
            out.append(f)
    return sorted(out, key=lambda f: f.name)


def inner(f):
    return f.out()[len('core::option::Option<'):-1]


def engine(F, crate):
    e = Engine(F, inline=lambda fr, c, fn: fn.crate == crate or (fn.crate == 'zune_core' and '::options::' in fn.name), max_depth=8, max_steps=600000)
    e.max_rec = 2
    return e


def start(e, F, ty, selfv):
    """state holding a freshly constructed decoder behind selfv"""
    ctor = F.fn(ty + '::new_with_options')
    if ctor is None:
        return None, None
    fr, st = e.run(ctor)
    v = retval(e, fr, st)
    st0 = State(dict(st.mem), st.facts)
    e.write(st0, ('*', selfv), v)
    return ctor, st0


def ask(e, f, selfv, st):
    fr, s2 = e.run(f, args=[selfv], state=st)
    if s2 is None:
        return None, None, None
    v = e.resolve(s2, retval(e, fr, s2))
    none = next((x for x in split(e, s2, v, 'None') if consistent(e, x[0])), None)
    some = next(iter(split(e, s2, v, 'Some')), None)
    return none, some, v


def run(cx):
    F = cx.F
    types = decoder_types(F)
    for crate in NATIVE:
        ty = types.get(crate)
        if not ty:
            cx.ob('anchor:' + crate, False, 'no decoder type')
            continue
        e = engine(F, crate)
        selfv = mk('arg', 'decoder', 0)
        ctor, st0 = start(e, F, ty, selfv)
        if ctor is None:
            cx.ob('anchor:%s:ctor' % crate, False, 'constructor missing')
            continue
        qs = queries(F, ty)
        cx.ob('%s:inventory' % crate, len(qs) >= 1, '%d optional queries' % len(qs))
        for q in qs:
            n, s, v = ask(e, q, selfv, st0)
            cx.analysed(q)
            cx.ob('%s:fresh' % q.name, s is None and n is not None, 'before header decoding: %s' % (show(v)[:150] if v is not None else 'diverges'), q.where())
        h = F.fn(ty + '::decode_headers')
        try:
            fr, st = e.run(h, args=[selfv], state=st0)
        except Budget as b:
            cx.ob('%s:analysis' % crate, False, 'budget %s' % b, h.where())
            continue
        for i in e.inlined | {h.id}:
            cx.analysed(F.fns[i])
        r = retval(e, fr, st)
        oks = [x for x, _ in split(e, st, r, 'Ok')]
        errs = [x for x, _ in split(e, st, r, 'Err')]
        cx.ob('%s:exits' % crate, oks and errs, '%d success and %d error exits' % (len(oks), len(errs)), h.where())
        for q in qs:
            t = inner(q)
            fmt = t.split('::')[-1] in AFTER or t in AFTER
            if fmt:
                bad = None
                for x in oks:
                    n, s, v = ask(e, q, selfv, x)
                    if n is not None or s is None:
                        bad = v
                        break
                cx.ob('%s:decoded' % q.name, bad is None and oks, 'answered in all %d success exits' % len(oks) if bad is None else 'may be unanswered after success: %s' % show(bad)[:150], q.where())
