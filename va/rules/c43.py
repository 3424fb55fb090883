"""C43: linear kernels compute their linear map, in every variant."""
import math
from ..index import *
from ..idxsim import Sim, choices, Undecided, Broken, ev
from ..core import NoAnswer

PROP = dict(
    id='C43',
    title='Grayscale, YCbCr, upsampling and IDCT kernels compute their linear map',
    statement='Rounding and clamping aside, each of these kernels yields the same linear combination of its inputs for every sample, at every length it accepts, whichever variant (plain, SSE or AVX2) the processor selects: '
              'RGB to grayscale (8-bit, 16-bit, float) is 0.2989 R + 0.587 G + 0.114 B of the same pixel; JPEG YCbCr conversion of a block of 16 pixels is R = Y + 1.402 (Cr-128), G = Y - 0.344136 (Cb-128) - 0.714136 (Cr-128), B = Y + 1.772 (Cb-128), '
              'stored as R,G,B or B,G,R as the colour space requested says, with 255 as the alpha of RGBA and BGRA; JPEG chroma upsampling by two is 3/4 of the nearer plus 1/4 of the farther sample (the first and last of a row copied) horizontally, '
              '3/4 of the row itself plus 1/4 of the row above (upper output row) or below (lower output row) vertically, and both one after the other for 2x2; the generic upsampler repeats samples; the JPEG inverse DCT is the 8x8 inverse DCT of the dequantized block plus 128, where shortcuts that ignore AC coefficients are taken only when the coefficients they ignore '
              'are zero: the 4x4 variant for blocks whose last coefficient comes no later than the 10th in zigzag order, the 1x1 variant for those with a DC coefficient only.',
    quantifier=dict(over=['inputs', 'configurations'], text='every sample value, every row length, every processor feature'),
    why_tests_cant='Tests feed constant or random blocks to the variant the test machine selects and compare variants with each other; a wrong weight in all of them, in an edge or remainder, or in a variant not selected passes.',
    anchors=dict(files=['crates/zune-image/src/core_filters/colorspace/grayscale/*.rs', 'crates/zune-jpeg/src/color_convert/*.rs', 'crates/zune-jpeg/src/upsampler/*.rs', 'crates/zune-jpeg/src/idct/*.rs', 'crates/zune-jpeg/src/mcu.rs'],
                 mechanism=[dict(name='rgb_to_grayscale_u8/u16/f32', where='crates/zune-image/src/core_filters/colorspace/grayscale.rs'), dict(name='choose_ycbcr_to_rgb_convert_func', where='crates/zune-jpeg/src/color_convert.rs'),
                            dict(name='choose_*_samp_function', where='crates/zune-jpeg/src/upsampler.rs'), dict(name='choose_idct_func, choose_idct_4x4_func, choose_idct_1x1_func', where='crates/zune-jpeg/src/idct.rs')]))
TECHNIQUE = 'abstract interpretation of MIR in the domain of affine forms over input samples: lane models of the vector instructions, index maps of the loops, comparison of every coefficient with the definition of the transform'
EXPLAIN = """
Each kernel is entered through the function that selects it (every function the selector can return is analysed, feature tests are unknown and both outcomes followed).  The body is walked once with symbolic lengths as for C29, but a value is an affine form over
input samples: additions, products with constants, shifts (division by a power of two), clamps and narrowing (identity), and the vector instructions on registers of known lanes.  The summary is evaluated for row lengths around every multiple of the vector widths, which gives for every output element
the affine form of the inputs it is computed from; each coefficient and the constant are compared with the definition, within the fixed-point error (1/1000 per coefficient, one unit in the constant).  A test that a set of elements is zero is kept as an assumption: below it these elements count as zero, on the other side nothing is assumed.
For the reduced inverse DCTs the conditions that dominate their call in the block decoder bound the count of coefficients.
"""
ASSUME = ['real arithmetic: rounding, saturation and overflow of intermediates are not modelled (bit-exact agreement of variants is N02)', 'y, cb and cr samples handed to the colour conversion are in 0..=255 (inverse DCT and upsampling clamp or average such values)', 'row lengths up to 70 are evaluated; the loops are uniform in the length', 'the destination offset of the conversion kernels is 0, as in all their calls']

TOL = 1e-3


def lin(v):
    """(coefficients, constant) of a token"""
    if v is None or v[0] == '?':
        return None
    if v[0] == 'lin':
        return {k: float(c) for k, c in v[1]}, float(v[2])
    if v[0] == 'const':
        return {}, float(v[1])
    if v[0] == 'init':
        return None
    return {v: 1.0}, 0.0


def show(c, k):
    t = ' '.join('%+.4f*%s[%s]' % (c[x], x[0], x[1]) for x in sorted(c, key=repr) if abs(c[x]) > 1e-9)
    return (t + ' %+.3f' % k)[:160]


def differ(v, want, const, zero=()):
    """None, 'unknown' or what is wrong; const: (low, high)"""
    if v and v[0] == 'init':
        return 'never written'
    z = lin(v)
    if z is None:
        return 'unknown'
    c, k = z
    for x in set(c) | set(want):
        if x in zero:
            continue
        if abs(c.get(x, 0) - want.get(x, 0)) > TOL:
            return 'is %s where %s is due' % (show(c, k), show(want, sum(const) / 2))
    if not const[0] - 1e-6 <= k <= const[1] + 1e-6:
        return 'has constant %.3f, expected %.3f to %.3f' % (k, const[0], const[1])
    return None


def select(F, fn, args):
    """functions a selector can return"""
    r = Run(F)
    r.approx = True
    r.call(fn, args)
    out, bad = {}, 0
    for v in getattr(r.last, 'returned', []):
        while isinstance(v, Var) and v.v in ('Some', 'Ok') and v.xs:
            v = v.xs[0]
        if isinstance(v, Clo):
            out[key(v)] = v
        elif not (isinstance(v, Var) and v.v == 'None'):
            bad += 1
    return list(out.values()), bad


def walk(F, clo, args):
    fn = F.fns.get(clo.id)
    if fn is None:
        raise Undecided('no body')
    r = Run(F)
    r.approx = True
    r.bytesof = {'y', 'cb', 'cr'}
    r.closure(clo, args, None)
    if r.opaque:
        raise Undecided('untracked write: %s line %s' % r.opaque[0])
    if r.tainted:
        raise Undecided('write at an unknown place')
    if not r.events:
        raise Undecided('no writes found')
    return fn, r


def assumed(ch, env):
    """elements a choice assumes to be zero"""
    z = set()
    for k, pol in ch.items():
        if k[0] == 'zero' and pol:
            z |= {(b, ev(P(dict(i)), env)) for b, i in k[1]}
    return z


def compare(run, env, bases, out, want, const, zero=frozenset(), after=None):
    for ch in choices(run):
        sim = Sim(run, env, bases, ch)
        sim.go()
        z = assumed(ch, env) | set(zero)
        for i, v in enumerate(sim.buf(out)):
            m = differ(v, want(i), const(i) if callable(const) else const, z)
            if m == 'unknown':
                raise Undecided('value of element %d' % i)
            if m and after and lin(v) and any(k[0] != 'zero' for k in ch) and all(abs(c - want(i).get(x, 0)) <= TOL for x, c in lin(v)[0].items()) and len(lin(v)[0]) < len(want(i)):
                raise Undecided('element %d ignores inputs under a condition that is not understood' % i)
            if m:
                return 'element %d of %s %s' % (i, ', '.join('%s = %s' % q for q in env.items()) or 'the block', m)
        if after:
            m = after(sim, z)
            if m:
                return m
    return None


def verdict(cx, key, name, f, where):
    try:
        m = f()
    except Undecided as e:
        return cx.undec(key, '%s: %s' % (name, e), where)
    except Broken as e:
        return cx.ob(key, False, '%s: %s' % (name, e), where)
    except (Stop, RecursionError) as e:
        return cx.undec(key, '%s: %s' % (name, e), where)
    cx.ob(key, m is None, '%s: %s' % (name, m) if m else name, where)


def short(F, clo):
    f = F.fns.get(clo.id)
    n = (f.name if f else str(clo.id)).split('::')
    return '::'.join(n[-3:] if 'closure' in n[-1] else n[-2:])


def gray(cx, F, lengths):
    L = S('L')
    W = dict(r=.2989, g=.587, b=.114)
    for d, top in (('u8', 255), ('u16', 65535), ('f32', None)):
        fs = [f for f in F.fns.values() if f.name.endswith('colorspace::grayscale::rgb_to_grayscale_' + d)]
        if not fs:
            cx.undec('gray/' + d, 'rgb_to_grayscale_%s not found' % d, '')
            continue
        fn = fs[0]
        cx.analysed(fn)

        def f():
            _, run = walk(F, Clo(fn.id, []), [Slice(x, N(0), L) for x in 'rgbo'] + [N(top) if top else Flt(1.0)])
            for n in lengths:
                b = {x: (n, lambda i, x=x: (x, i)) for x in 'rgb'}
                b['o'] = (n, lambda i: ('init', 'o'))
                m = compare(run, dict(L=n), b, 'o', lambda i: {(x, i): w for x, w in W.items()}, (0, 1) if top else (0, 0))
                if m:
                    return m
        verdict(cx, 'gray/' + d, 'RGB to grayscale, %s' % d, f, fn.name)


def ycc(cx, F):
    fs = [f for f in F.fns.values() if f.name.endswith('color_convert::choose_ycbcr_to_rgb_convert_func')]
    if not fs:
        return cx.undec('ycbcr', 'selector of the conversion not found', '')
    fn = fs[0]
    cx.analysed(fn)
    cs = 'zune_core::colorspace::ColorSpace'
    K = dict(R=({'y': 1, 'cr': 1.402}, -1.402 * 128), G=({'y': 1, 'cb': -.344136, 'cr': -.714136}, (.344136 + .714136) * 128), B=({'y': 1, 'cb': 1.772}, -1.772 * 128), A=({}, 255))
    for space, order in (('RGB', 'RGB'), ('RGBA', 'RGBA'), ('BGR', 'BGR'), ('BGRA', 'BGRA')):
        cl, bad = select(F, fn, [Var(cs, space, []), TOP])
        if bad or not cl:
            cx.undec('ycbcr/' + space, 'conversion for %s unknown' % space, fn.name)
        n = len(order)
        for c in cl:
            def f():
                g, run = walk(F, c, [Slice(x, N(0), N(16)) for x in ('y', 'cb', 'cr')] + [Slice('o', N(0), N(16 * n)), N(0)])
                cx.analysed(g)
                b = {x: (16, lambda i, x=x: (x, i)) for x in ('y', 'cb', 'cr')}
                b['o'] = (16 * n, lambda i: ('init', 'o'))
                want = lambda i: {(x, i // n): w for x, w in K[order[i % n]][0].items()}

                def const(i):
                    k = K[order[i % n]][1]
                    return (k, k) if order[i % n] == 'A' else (k - .1, k + 1)
                return compare(run, {}, b, 'o', want, const)
            verdict(cx, 'ycbcr/%s/%s' % (space, short(F, c)), 'YCbCr to %s by %s' % (space, short(F, c)), f, short(F, c))


def horizontal(row, n):
    """affine forms of a row of n forms, upsampled by two"""
    out = []
    for i in range(n):
        for d in (-1, 1):
            j = i + d
            a = dict(row[i])
            if 0 <= j < n:
                a = {k: c * .75 for k, c in a.items()}
                for k, c in row[j].items():
                    a[k] = a.get(k, 0) + c * .25
            out.append(a)
    return out


def upsample(cx, F, lengths):
    L = S('L')

    def forms(kind, n):
        one = lambda x: [{(x, i): 1.0} for i in range(n)]
        mix = lambda y: [{('in', i): .75, (y, i): .25} for i in range(n)]
        if kind == 'h':
            return horizontal(one('in'), n)
        if kind == 'v':
            return mix('near') + mix('far')
        if kind == 'hv':
            return horizontal(mix('near'), n) + horizontal(mix('far'), n)
        return [{('in', i // 3): 1.0} for i in range(3 * n)]
    for kind, name, k, what in (('h', 'choose_horizontal_samp_function', 2, 'horizontal upsampling'), ('v', 'choose_v_samp_function', 2, 'vertical upsampling'), ('hv', 'choose_hv_samp_function', 4, '2x2 upsampling'), ('g', 'generic_sampler', 3, 'generic upsampling')):
        fs = [f for f in F.fns.values() if f.name.endswith('upsampler::' + name)]
        if not fs:
            cx.undec('upsample/' + kind, 'selector %s not found' % name, '')
            continue
        cx.analysed(fs[0])
        cl, bad = select(F, fs[0], [TOP] * fs[0].argc)
        if bad or not cl:
            cx.undec('upsample/' + kind, '%s returns an unknown function' % name, fs[0].name)
        for c in cl:
            def f():
                # edge rows pass empty neighbours to the horizontal kernels
                g, run = walk(F, c, [Slice('in', N(0), L), Slice('near', N(0), L), Slice('far', N(0), L), Slice('s', N(0), L * N(2)), Slice('o', N(0), L * N(k))])
                cx.analysed(g)
                for n in lengths:
                    b = {x: (n, lambda i, x=x: (x, i)) for x in ('in', 'near', 'far')}
                    b['s'] = (2 * n, lambda i: ('s', i))
                    b['o'] = (k * n, lambda i: ('init', 'o'))
                    w = forms(kind, n)
                    m = compare(run, dict(L=n), b, 'o', lambda i: w[i], (0, 1.1))
                    if m:
                        return m
            verdict(cx, 'upsample/%s/%s' % (kind, short(F, c)), '%s by %s' % (what, short(F, c)), f, short(F, c))


def dct():
    """coefficients of the inverse DCT: [y][x] -> {(v, u): c}"""
    a = lambda u: math.sqrt(.5) if u == 0 else 1.0
    return {(y, x): {(v, u): a(u) * a(v) / 4 * math.cos((2 * x + 1) * u * math.pi / 16) * math.cos((2 * y + 1) * v * math.pi / 16) for v in range(8) for u in range(8)} for y in range(8) for x in range(8)}


ZIGZAG = sorted(((v, u) for v in range(8) for u in range(8)), key=lambda q: (q[0] + q[1], q[0] if (q[0] + q[1]) % 2 else q[1]))


def idct(cx, F):
    M = dct()
    st = 11
    for what, name, kept in (('8x8', 'choose_idct_func', 64), ('4x4', 'choose_idct_4x4_func', 10), ('1x1', 'choose_idct_1x1_func', 1)):
        fs = [f for f in F.fns.values() if f.name.endswith('idct::' + name)]
        if not fs:
            cx.undec('idct/' + what, 'selector %s not found' % name, '')
            continue
        cx.analysed(fs[0])
        cl, bad = select(F, fs[0], [TOP] * fs[0].argc)
        if bad or not cl:
            cx.undec('idct/' + what, '%s returns an unknown function' % name, fs[0].name)
        live = {v * 8 + u for v, u in ZIGZAG[:kept]}
        zero = {('in', i) for i in range(64) if i not in live}
        for c in cl:
            def f():
                g, run = walk(F, c, [Slice('in', N(0), N(64)), Slice('o', N(0), N(8) * S('st')), S('st')])
                cx.analysed(g)
                b = {'in': (64, lambda i: ('in', i)), 'o': (8 * st, lambda i: ('pad', i))}

                def want(i):
                    y, x = divmod(i, st)
                    return {('in', v * 8 + u): k for (v, u), k in M[(y, x)].items()} if x < 8 else {('pad', i): 1.0}

                def after(sim, z):
                    # what the caller does not clear again must still be zero
                    if kept == 64:
                        return None
                    for i in range(32, 64):
                        v = sim.buf('in')[i]
                        q = lin(v)
                        if q is None:
                            raise Undecided('value left in the block')
                        if any(abs(k) > 1e-9 for x, k in q[0].items() if x not in z) or abs(q[1]) > 1e-9:
                            return 'leaves a value in coefficient %d, which the caller expects zero' % i
                    return None
                return compare(run, dict(st=st), b, 'o', want, lambda i: (127.9, 129.1) if i % st < 8 else (0, 0), zero, after)
            verdict(cx, 'idct/%s/%s' % (what, short(F, c)), '%s inverse DCT by %s' % (what, short(F, c)), f, short(F, c))


FIELDS = {'idct_4x4_func': 10, 'idct_1x1_func': 1}


def reduced(cx, F):
    """calls of the reduced transforms are dominated by a bound of the coefficient count"""
    found = {}
    for fn in F.fns.values():
        if not fn.name.startswith('zune_jpeg::') or '::tests::' in fn.name:
            continue
        ptr = {}
        for b in fn.rpo():
            for st in fn.blocks[b]['s']:
                if st[0] == '=' and isinstance(st[1], int) and st[2][0] == 'use' and st[2][1][0] != 'k' and isinstance(st[2][1][1], list):
                    e = st[2][1][1][1]
                    if e and isinstance(e[-1], (list, tuple)) and e[-1][0] == 'f' and len(e[-1]) > 2 and e[-1][2] in FIELDS:
                        ptr[st[1]] = e[-1][2]
        if not ptr:
            continue
        cx.analysed(fn)
        for b in fn.rpo():
            t = fn.blocks[b]['t']
            if t['k'] != 'call' or t['f'][0] == 'k':
                continue
            l = t['f'][1]
            k = ptr.get(l) if isinstance(l, int) else None
            if k is None and isinstance(l, list) and isinstance(l[1][-1], (list, tuple)) and l[1][-1][0] == 'f' and l[1][-1][2] in FIELDS:
                k = l[1][-1][2]
            if k is None:
                continue
            n, why = upper(fn, b, F)
            found[k] = 1
            what = '%s called at line %s' % (k, t.get('l'))
            if n is None:
                cx.undec('idct/call/' + k, what + ' under an unknown condition (%s)' % why, fn.name)
            else:
                cx.ob('idct/call/' + k, n <= FIELDS[k], what + ' for blocks of up to %d coefficients, it handles %d' % (n, FIELDS[k]), fn.name)
    for k in FIELDS:
        if k not in found:
            cx.undec('idct/call/' + k, 'no call through %s found' % k, '')


def upper(fn, b, F):
    """least upper bound among the conditions on the coefficient count that dominate block b"""
    idom = fn.idom()
    best = None
    x = b
    cmps = {}
    for q in fn.rpo():
        for st in fn.blocks[q]['s']:
            if st[0] == '=' and isinstance(st[1], int) and st[2][0] == 'bin' and st[2][1] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq'):
                cmps.setdefault(st[1], []).append(st[2])
    defs = {}
    for q in fn.rpo():
        for st in fn.blocks[q]['s']:
            if st[0] == '=' and isinstance(st[1], int):
                defs.setdefault(st[1], []).append(st[2])
        t = fn.blocks[q]['t']
        if t['k'] == 'call' and isinstance(t.get('d'), int):
            defs.setdefault(t['d'], []).append(('call', t))

    def count(o, n=0):
        """does the operand come from the result of decoding a block?"""
        if o[0] == 'k' or n > 8:
            return False
        l = o[1] if isinstance(o[1], int) else o[1][0]
        for rv in defs.get(l, []):
            if rv[0] == 'call':
                f = rv[1]['f'][1].get('v') if rv[1]['f'][0] == 'k' else None
                if isinstance(f, dict) and f.get('name', '').split('::')[-1] == 'decode_mcu_block':
                    return True
                if isinstance(f, dict) and f.get('name', '').split('::')[-1] in ('branch', 'unwrap', 'from') and rv[1]['a']:
                    if count(rv[1]['a'][0], n + 1):
                        return True
            elif rv[0] == 'use' and count(rv[1], n + 1):
                return True
            elif rv[0] == 'cast' and count(rv[2], n + 1):
                return True
        return False
    why = 'no test dominates it'
    while True:
        n = idom.get(x)
        if n is None or n == x:
            return best, why
        t = fn.blocks[n]['t']
        if t['k'] == 'switch' and t['d'][0] != 'k' and isinstance(t['d'][1], int):
            d = t['d'][1]
            rv = cmps.get(d, [None])[0] if len(cmps.get(d, [])) == 1 else None
            tgt = [v for v, y in t['c'] if dominated(fn, idom, b, y, n)]
            other = t.get('o') is not None and dominated(fn, idom, b, t['o'], n)
            if rv is not None and (tgt or other):
                truth = tgt != [0] if tgt else True
                op, p, q = rv[1], rv[2], rv[3]
                if p[0] == 'k' and q[0] != 'k':
                    op, p, q = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le', 'Eq': 'Eq'}[op], q, p
                if q[0] == 'k' and isinstance(q[1].get('v'), int) and count(p):
                    v = q[1]['v']
                    u = {('Le', True): v, ('Lt', True): v - 1, ('Gt', False): v, ('Ge', False): v - 1, ('Eq', True): v}.get((op, truth))
                    if u is not None:
                        best = u if best is None else min(best, u)
            elif rv is None and tgt and tgt != [0] and count(t['d']):
                u = max(tgt)
                best = u if best is None else min(best, u)
        x = n


def dominated(fn, idom, b, y, src):
    if fn.preds()[y] != [src] and set(fn.preds()[y]) != {src}:
        return False
    x = b
    while True:
        if x == y:
            return True
        n = idom.get(x)
        if n is None or n == x:
            return False
        x = n


def run(cx):
    F = cx.facts('default')
    thorough = cx.tier == 'thorough'
    gray(cx, F, list(range(1, 70)) if thorough else [1, 2, 3, 7, 8, 9, 15, 16, 17, 23, 31, 32, 33, 47, 48])
    ycc(cx, F)
    upsample(cx, F, list(range(3, 71)) if thorough else [3, 4, 15, 16, 17, 18, 19, 31, 33, 34, 35, 50])
    idct(cx, F)
    reduced(cx, F)
