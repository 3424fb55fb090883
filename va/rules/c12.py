"""C12: switching off unsafe code paths keeps decoders away from CPU intrinsics."""
from ..tfeat import *
from .c11 import solve

PROP = dict(
    id='C12',
    title='Disallowing unsafe code paths disables all CPU intrinsics in decoders',
    statement='When decoder options disallow unsafe code paths, every per-extension option query answers no and no decoder enters CPU-intrinsic code; when allowed, a query answers yes only if that very extension was detected on the running CPU and its own switch is on.',
    quantifier=dict(over=['configurations', 'inputs'], text='every combination of option flags, every decoder and image'),
    why_tests_cant='Outputs are the same with and without intrinsics, so tests on one machine cannot see which code ran.',
    anchors=dict(files=['crates/zune-core/src/options/decoder.rs', 'crates/zune-jpeg/src/idct.rs', 'crates/zune-jpeg/src/color_convert.rs', 'crates/zune-jpeg/src/upsampler.rs', 'crates/zune-png/src/decoder.rs', 'crates/zune-png/src/utils.rs'],
                 mechanism=[dict(name='DecoderOptions::use_sse2 … use_avx2 and their callers', where='crates/zune-core/src/options/decoder.rs')]))
TECHNIQUE = 'guard-dominance dataflow over MIR; option getters evaluated abstractly under flag=false / flag=true'
EXPLAIN = """
Each use_<extension> query is evaluated abstractly with the unsafe switch false (must be constant false) and with all switches true (a yes must carry the fact that the
extension of that name was detected).  Every mention of intrinsic code in decoder crates must, on every path (obligations climb to callers), carry the fact that the
unsafe switch is on.
"""
ASSUME = ['x86_64 build; the aarch64 query must be constant false here']

NAMES = {'use_sse2': 'sse2', 'use_sse3': 'sse3', 'use_sse41': 'sse4.1', 'use_avx': 'avx', 'use_avx2': 'avx2', 'use_neon': None}


def run(cx):
    F = cx.F
    D = 'zune_core::options::decoder::DecoderOptions::'
    field = limit_field(F, 'use_unsafe')
    cx.ob('anchor:flag', bool(field), 'the unsafe switch is stored in option field %s' % field)
    gu = F.fn(D + 'use_unsafe')
    for n, feat in NAMES.items():
        f = F.fn(D + n)
        if f is None:
            cx.ob('query:' + n, False, 'query missing')
            continue
        cx.analysed(f)
        selfv = mk('arg', 'opts', 0)
        e = Engine(F, inline=lambda fr, c, fn: fn.crate == 'zune_core')
        fr, st = e.run(gu, args=[selfv])
        flag = retval(e, fr, st)
        for val in (False, True):
            e = Engine(F, inline=lambda fr, c, fn: fn.crate == 'zune_core')
            st0 = State()
            e.assume_bool(st0, flag, val)
            fr, st = e.run(f, args=[selfv], state=st0)
            r = e.resolve(st, retval(e, fr, st))
            if not val:
                cx.ob('query:%s:off' % n, intc(r) and cv(r) is False, 'unsafe disallowed: evaluates to %s' % show(r), f.where())
            elif feat is None:
                cx.ob('query:%s:on' % n, intc(r) and cv(r) is False, 'foreign architecture: evaluates to %s' % show(r), f.where())
            else:
                st2 = st.copy()
                can = e.assume_bool(st2, r, True)
                kf = holds(st2, detect_feature)
                own = [x for x in holds(st2, last_field) if x.replace('_', '').endswith(n.replace('_', ''))]
                cx.ob('query:%s:on' % n, can and (feat in kf or (feat == 'sse2')) and own, 'yes implies detected %s and %d own switch' % (sorted(kf), len(own)), f.where())
    crates = set(NATIVE)
    n = 0

    def extra(st, e):
        return field in holds(st, last_field, e)
    for site, t, nm, b, need, bad, roots in solve(cx, F, extra=extra, only=lambda f: f.crate in crates, want='option'):
        n += 1
        nm = F.fns[t].name if t in F.fns else nm
        cx.ob('%s -> %s' % (site.name, nm), bad is None, 'guarded by the unsafe switch on all %d analysed roots' % roots if bad is None else 'reached without the unsafe switch through %s' % bad[0].name, site.where())
    cx.ob('inventory', n >= 5, '%d entries into intrinsic code' % n)
