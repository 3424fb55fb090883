"""C13: colorspace and depth tables agree with each other."""
from ..lib import *

PROP = dict(
    id='C13',
    title='Colorspace and bit depth facts are mutually consistent',
    statement='For every colorspace: the number of components is the one its name stands for, it has alpha exactly when an alpha position is reported, that position is the place of the alpha sample in its name, '
              'and it is grayscale exactly for luma and luma with alpha; the list of all colorspaces holds each known colorspace once. '
              'For every bit depth: converting to its sample type and back is the identity, its size in bytes is that of its sample type, its size in bits is eight times that and its maximum value is that of the sample type (1 for floats). '
              'Splitting a frame into color and alpha yields, for every colorspace with alpha, the alpha channel at its reported position and all the other channels in order, and nothing for the others.',
    quantifier=dict(over=['configurations', 'inputs'], text='every colorspace (including multi-band ones of any size), every depth, every frame'),
    why_tests_cant='Tests use RGB, RGBA and Luma images; the less common colorspaces and depths are never asked for these facts.',
    anchors=dict(files=['crates/zune-core/src/colorspace.rs', 'crates/zune-core/src/bit_depth.rs', 'crates/zune-image/src/frame.rs'],
                 mechanism=[dict(name='ColorSpace and BitDepth query tables', where='crates/zune-core/src'), dict(name='separate_color_and_alpha_{ref,mut}', where='crates/zune-image/src/frame.rs')]))
TECHNIQUE = 'constant propagation over MIR: every query evaluated abstractly on every enum variant, compared with the defining table'
EXPLAIN = """
Each query method is evaluated on the MIR for every variant of the enum (one obligation per variant and query) and compared with what the variant's name defines.  The frame
splitters are evaluated per colorspace on an unknown frame; the slices they return are reduced to index ranges of the channel vector and compared with the alpha position.
"""
ASSUME = ['a colorspace name lists its components in order (A = alpha)', 'core slice splitting functions behave as documented']
CS = 'zune_core::colorspace::ColorSpace'
BD = 'zune_core::bit_depth::BitDepth'
BT = 'zune_core::bit_depth::BitType'
NC = dict(RGB=3, RGBA=4, YCbCr=3, Luma=1, LumaA=2, YCCK=4, CMYK=4, BGR=3, BGRA=4, Unknown=0, ARGB=4, HSL=3, HSV=3)
ALPHA = dict(RGBA=3, LumaA=1, BGRA=3, ARGB=0)
SIZE = dict(Eight=1, Sixteen=2, Float32=4)
MAXV = dict(Eight=255, Sixteen=65535, Float32=1, Unknown=0)
TYPE = dict(Eight='U8', Sixteen='U16', Float32='F32')


def need(cx, name):
    f = cx.F.fn(name)
    if f is None:
        cx.ob('anchor:' + name, False, 'function missing')
    else:
        cx.analysed(f)
    return f


def run(cx):
    F = cx.F
    fs = {m: need(cx, CS + '::' + m) for m in ('num_components', 'has_alpha', 'alpha_position', 'is_grayscale')}
    vs = variants(F, CS)
    cx.ob('colorspaces', {n for n, _ in vs} >= set(NC), '%d colorspaces' % len(vs))
    for n, k in vs:
        payload = mk('arg', 'bands', 9)
        cs = enumval(F, CS, n, [payload] * k)
        got = {}
        for m, f in fs.items():
            if f is None:
                continue
            e, v, s, fr = apply(F, f, [cs], byref=(0,))
            got[m] = (v, plain(v))
        if n in NC:
            exp = dict(num_components=NC[n], has_alpha=n in ALPHA, alpha_position=('Some', ALPHA[n]) if n in ALPHA else 'None', is_grayscale=n in ('Luma', 'LumaA'))
            for m in exp:
                cx.ob('%s:%s' % (n, m), got[m][1] == exp[m], 'defined as %s, evaluates to %s' % (exp[m], got[m][1]), fs[m].where())
        elif k:
            v = uncast(got['num_components'][0])
            while v.tag == 'nz':
                v = v.a[0]
            cx.ob('%s:num_components' % n, v is payload, 'components of a multi-band image: %s' % show(v), fs['num_components'].where())
            cx.ob('%s:has_alpha' % n, got['has_alpha'][1] is False or got['has_alpha'][1] == 0, 'has_alpha = %s' % got['has_alpha'][1], fs['has_alpha'].where())
            cx.ob('%s:alpha_position' % n, got['alpha_position'][1] == 'None', 'alpha_position = %s' % (got['alpha_position'][1],), fs['alpha_position'].where())
        else:
            # a colorspace added later: the facts must at least agree with each other
            pos = got['alpha_position'][1]
            nc = got['num_components'][1]
            ok = bool(got['has_alpha'][1]) == (pos != 'None') and (pos == 'None' or (isinstance(nc, int) and pos[1] < nc))
            cx.ob('%s:consistent' % n, ok, 'components %s, has_alpha %s, alpha position %s' % (nc, got['has_alpha'][1], pos), fs['alpha_position'].where())
    # the list
    c = F.const_by_name('zune_core::colorspace::ALL_COLORSPACES') if callable(F.const_by_name) else F.const_by_name.get('zune_core::colorspace::ALL_COLORSPACES')
    e = Engine(F)
    names = None
    if c is not None:
        v = e.jconst(c['v'] if isinstance(c, dict) and 'v' in c else c, '')
        names = list(plain(v))
    want = sorted(n for n, k in vs if not k and n != 'Unknown')
    cx.ob('ALL_COLORSPACES', names is not None and sorted(names) == want, 'lists %s' % (names,), 'crates/zune-core/src/colorspace.rs')
    # depth
    fs = {m: need(cx, BD + '::' + m) for m in ('bit_type', 'size_of', 'bit_size', 'max_value')}
    td = need(cx, BT + '::to_depth')
    for n, _ in variants(F, BD):
        d = enumval(F, BD, n)
        ev = lambda f: (lambda r: r[1])(apply(F, f, [d], byref=(0,) if f.ins()[0].startswith('&') else ()))
        if n in TYPE:
            bt = ev(fs['bit_type'])
            cx.ob('%s:bit_type' % n, plain(bt) == TYPE[n], 'sample type %s' % (plain(bt),), fs['bit_type'].where())
            if bt is not None:
                r = apply(F, td, [bt], byref=(0,) if td.ins()[0].startswith('&') else ())[1]
                cx.ob('%s:roundtrip' % n, plain(r) == n, 'depth of its sample type: %s' % (plain(r),), td.where())
            cx.ob('%s:size_of' % n, plain(ev(fs['size_of'])) == SIZE[n], 'size %s' % (plain(ev(fs['size_of'])),), fs['size_of'].where())
            cx.ob('%s:bit_size' % n, plain(ev(fs['bit_size'])) == 8 * SIZE[n], 'bits %s' % (plain(ev(fs['bit_size'])),), fs['bit_size'].where())
        if n in MAXV:
            cx.ob('%s:max_value' % n, plain(ev(fs['max_value'])) == MAXV[n], 'max %s' % (plain(ev(fs['max_value'])),), fs['max_value'].where())
    split_rule(cx, vs)


def split_rule(cx, vs):
    F = cx.F
    for m in ('separate_color_and_alpha_ref', 'separate_color_and_alpha_mut'):
        f = need(cx, 'zune_image::frame::Frame::' + m)
        if f is None:
            continue
        for n, k in vs:
            calls = {}

            def oc(fr, b, t, c, args, st):
                if c is not None:
                    calls[(fr.id, b)] = (c['name'], args)
            cs = enumval(F, CS, n, [mk('arg', 'bands', 9)] * k)
            e, v, s, fr = apply(F, f, [mk('arg', 'frame', 1), cs], on_call=oc)
            somes = list(split(e, s, v, 'Some')) if v is not None else []
            if n not in ALPHA:
                cx.ob('%s:%s' % (m, n), v is not None and not somes, 'no split for a colorspace without alpha', f.where())
                continue
            N = NC[n]

            def span(x):
                """index set of the channel vector denoted by a slice or element reference, None if unknown"""
                x = uncast(x)
                if x.tag == 'ref' and x.a[0][0] == '*' and len(x.a[0]) > 2:
                    p = x.a[0]
                    base = span(p[1])
                    for q in p[2:]:
                        if base is None:
                            return None
                        if q[0] in ('i', 'ci'):
                            i = q[1]
                            i = cv(i) if isinstance(i, V) and intc(i) else i
                            if not isinstance(i, int) or (q[0] == 'ci' and q[2]):
                                if q[0] == 'ci' and isinstance(i, int):
                                    base = [base[-i]]
                                    continue
                                return None
                            base = [base[i]] if i < len(base) else None
                        elif q[0] == 's':
                            hi = len(base) - q[2] if q[3] else q[2]
                            base = base[q[1]:hi]
                    return base
                if x.tag in ('proj',):
                    y, q = x.a[0], x.a[1]
                    path = [q]
                    while y.tag == 'proj':
                        path.append(y.a[1])
                        y = y.a[0]
                    path.reverse()
                    if y.tag == 'sym':
                        nm, args = calls.get((y.a[1], y.a[2]), ('', []))
                        fi = [q[1] for q in path if q[0] == 'f' and str(q[1]).isdigit()]
                        src = span(args[0]) if args else None
                        if src is None:
                            return None
                        op = nm.split('::')[-1].replace('_mut', '').replace('_unchecked', '').replace('_checked', '')
                        part = int(fi[-1]) if fi else None
                        if op == 'split_at' and intc(args[1]):
                            k = cv(args[1])
                            return src[:k] if part == 0 else src[k:]
                        if op == 'split_first':
                            return src[:1] if part == 0 else src[1:]
                        if op == 'split_last':
                            return src[-1:] if part == 0 else src[:-1]
                    return None if 'channels' not in show(x) else list(range(N))
                if x.tag == 'sym':
                    nm, args = calls.get((x.a[1], x.a[2]), ('', []))
                    src = span(args[0]) if args else None
                    if src is None:
                        return None
                    if nm.endswith(('::index', '::index_mut')) and len(args) > 1:
                        r = args[1]
                        if intc(r):
                            return src[cv(r):cv(r) + 1]
                        if r.tag == 'agg' and r.a[1]:
                            kd = r.a[1].split('::')[-1]
                            q = [cv(y) if intc(y) else None for y in r.a[3]]
                            if None in q:
                                return None
                            return src[q[0]:q[1]] if kd.startswith('Range') and len(q) == 2 else src[q[0]:] if kd == 'RangeFrom' else src[:q[0]] if kd == 'RangeTo' else None
                    if nm.endswith(('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut')):
                        return src
                    return None
                if x.tag == 'sub':
                    src = span(x.a[0])
                    if src is None or not intc(x.a[1]) or not intc(x.a[2]):
                        return None
                    return src[cv(x.a[2]):cv(x.a[2]) + cv(x.a[1])]
                return list(range(N)) if x.tag in ('sptr', 'slice_of') and 'channels' in show(x) or x.tag == 'ref' else None
            bad = unk = None
            for s2, x in somes:
                t = e.project(s2, x, (('d', 1, 'Some'), ('f', 0, '0')))
                col, al = e.project(s2, t, (('f', 0, '0'),)), e.project(s2, t, (('f', 1, '1'),))
                col0, al0 = e.resolve(s2, col), e.resolve(s2, al)
                col, al = span(col0), span(al0)
                p = ALPHA[n]
                if al is None or col is None:
                    unk = '%s / %s' % (show(col0)[:80], show(al0)[:80])
                elif al != [p] or col != [i for i in range(N) if i != p]:
                    bad = 'color channels %s, alpha channel %s' % (col, al)
            if unk and bad is None:
                cx.undec('%s:%s' % (m, n), unk, f.where())
                continue
            cx.ob('%s:%s' % (m, n), somes and bad is None, bad or 'alpha is channel %d, the rest is color' % ALPHA[n], f.where())
