"""Every image operation run abstractly on abstract images: what happens to each channel."""
import gc
from fractions import Fraction
from multiprocessing import Pool
from .effects import *

CC = 'zune_image::core_filters::colorspace::ColorspaceConv'
DEPTH = 'zune_image::core_filters::depth::Depth'
ALPHA = 'zune_image::metadata::AlphaState'
# operations whose result for a channel is a function of that channel alone, applied to color channels only
COLOR = {'BilateralFilter', 'Brighten', 'Contrast', 'Convolve', 'Exposure', 'Gamma', 'ImageTransfer', 'Invert', 'Median', 'Scharr', 'Sobel', 'SpatialOps', 'StretchContrast', 'Threshold', 'Unsharpen'}
# ... and to every channel, alpha included
EVERY = {'BoxBlur', 'GaussianBlur', 'Crop', 'Flip', 'Mirror', 'Rotate', 'Transpose', 'AffineTransform', 'AutoOrient', 'Depth', 'VerticalFlip'}
# combine channels of one frame: (color may use, alpha may use)
CROSS = {'ColorMatrix': ('frame', 'frame'), 'ColorTransform': ('frame', 'own'), 'HsvAdjust': ('color', 'keep'), 'PremultiplyAlpha': ('own+alpha', 'keep'), 'Resize': ('own+alpha', 'own')}
# second image
TWO = {'Blend': ('own', 'keep'), 'Composite': ('own+alpha', 'own')}
GEOMETRY = {'Crop', 'Rotate', 'Transpose', 'AffineTransform', 'AutoOrient', 'Resize'}
# works on interleaved copies of the samples, outside what channel data flow can follow
SKIP = {'ColorTransform'}
FX = {}


def short(t):
    return re.sub(r'<.*', '', t).split('::')[-1]


def configs(F, spaces, depths=tuple(SIZE)):
    """(operation, colorspace, depth, variant)"""
    out = []
    for t, ms in sorted(ops(F).items()):
        if t == CC or short(t) in SKIP or 'execute_impl' not in ms:
            continue
        sc = listed(F, ms.get('supported_colorspaces', default_method(F, OPS, 'supported_colorspaces'))) or list(COMPONENTS)
        ty = listed(F, ms.get('supported_types')) if ms.get('supported_types') else None
        for c in spaces:
            if c not in sc:
                continue
            for d in depths:
                if ty is not None and TYPE[d] not in ty:
                    continue
                for v in (['Eight', 'Sixteen', 'Float32'] if t == DEPTH else ['-']):
                    for al in (['NonPreMultiplied', 'PreMultiplied'] if c.endswith('A') or c == 'ARGB' else ['NonPreMultiplied']) if short(t) in ('Resize', 'PremultiplyAlpha') else ['-']:
                        out.append((t, c, d, v, al))
    return out


def operate(F, t, c, d, v, al, nf):
    f = ops(F)[t]['execute_impl']
    selfv, meta, more = None, {}, {}
    if t == DEPTH:
        selfv = struct(F, t, 'self', depth=bd(F, v))
    if al != '-':
        meta['alpha'] = enumval(F, ALPHA, al)
    k = t if t in F.adts else re.sub(r'<.*', '', t)
    if k in F.adts and selfv is None:
        over = {}
        for x in F.adts[k]['v'][0]['f']:
            if re.match(r"^&('\w+ )?zune_image::image::Image$", x['t']):
                n = COMPONENTS[c]
                more[(('src', 0),)] = image(F, 'src', cs(F, c), bd(F, d), (n,) * nf)
                over[x['n']] = mk('ref', (('src', 0),), False)
        if over:
            selfv = struct(F, k, 'self', **over)
    return OpRun(F, f, c, d, frames_=nf, selfv=selfv, meta=meta, more=more)


# -- symbolic lengths
def rat(v):
    """value as (rational coefficient, multiset of symbolic factors)"""
    v = uncast(v)
    if v.tag == 'op' and v.a[0] in ('Mul', 'MulUnchecked'):
        a, b = rat(v.a[1]), rat(v.a[2])
        return a[0] * b[0], tuple(sorted(a[1] + b[1]))
    if v.tag == 'op' and v.a[0] == 'Div' and intc(v.a[2]) and cv(v.a[2]):
        a = rat(v.a[1])
        return a[0] / cv(v.a[2]), a[1]
    if intc(v):
        return Fraction(cv(v)), ()
    if v.tag == 'len':
        l = []
        collect(v, 'rslice', l)
        n = {x.a[4] for x in l}
        if len(n) == 1 and list(n)[0].tag == 'op':
            return rat(list(n)[0])
    return Fraction(1), (v.n,)


def collect(v, what, out, d=0):
    if v.tag == 'sym' and v.a[0] == what:
        out.append(v)
        return
    if d > 12:
        return
    for x in v.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, V):
                collect(y, what, out, d + 1)


def subst(r, eqs, k=0):
    """replace channel lengths by what the facts say they are"""
    c, fs = r
    for i, n in enumerate(fs):
        if n in eqs and k < 8:
            c2, f2 = eqs[n]
            return subst((c * c2, tuple(sorted(fs[:i] + f2 + fs[i + 1:]))), eqs, k + 1)
    return r


def opaqueval(v, d=0):
    """depends on a result the analysis does not interpret"""
    if v.tag in ('init', 'sym', 'arg', 'c'):
        return v.tag == 'sym' and v.a[0] in ('itr', 'unknownlen') or v.tag == 'sym' and len(v.a) > 1 and '::' in str(v.a[0])
    if v.tag in ('pure', 'call', 'havoc', 'lphi', 'opaque', 'len'):
        return True
    if d > 10:
        return True
    return any(opaqueval(y, d + 1) for x in v.a for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, V))


def consistent_result(r, st, t, cspace, variant):
    """obligations about sizes at one successful end -> (bad, undecided, number of decided (channel, path) pairs)"""
    bad, und, dec = [], [], 0
    img = deepsel(r.e.readfull(st, (('img', 0),)), st.facts)[0]
    m = fld(img, 'metadata') if img.tag == 'agg' else None
    fs = frames(img) if m is not None else None
    if fs is None or any(channels(x) is None for x in fs):
        return [], ['result image is not known'], 0
    dims(r, st, m, t, cspace, variant, bad, und)
    for i, x in enumerate(fs):
        chs = channels(x)
        for j, ch in enumerate(chs):
            n = 0
            for facts, (w, h, d, c, l) in paths(r.e, st, [fld(m, 'width'), fld(m, 'height'), fld(m, 'depth'), fld(m, 'colorspace'), fld(ch, 'length') or mk('sym', 'unknownlen')]):
                n += 1
                if n > 300:
                    und.append('too many paths')
                    break
                if c.tag != 'agg' or d.tag != 'agg' or d.a[2] not in SIZE:
                    und.append('depth or colorspace of the result is unknown')
                    continue
                if len(chs) != COMPONENTS.get(c.a[2]):
                    bad.append('frame %d ends with %d channels in %s' % (i, len(chs), c.a[2]))
                eqs = {}
                for q in facts:
                    if q[0] == 'eq':
                        for a, b in ((q[1], q[2]), (q[2], q[1])):
                            if isinstance(a, V) and isinstance(b, V) and a.tag == 'sym' and len(a.a) == 3 and a.a[2] == 'length':
                                eqs.setdefault(a.n, rat(b))
                want = subst(rat(mk('op', 'Mul', mk('op', 'Mul', w, h), C(SIZE[d.a[2]]))), eqs)
                if subst(rat(l), eqs) != want:
                    if not possible(r.e, facts):
                        continue
                    (und if opaqueval(l) != opaqueval(w) or l.tag == 'sym' and l.a[0] == 'unknownlen' else bad).append('channel %d of frame %d has %s bytes, image is %s x %s x %s' % (j, i, show(l)[:200], show(w)[:80], show(h)[:80], d.a[2]))
                else:
                    dec += 1
    return bad, und, dec


def possible(e, facts, budget=None):
    """can these facts hold together? (the outcome of the whole run against the outcome of each of its parts)"""
    budget = [400] if budget is None else budget
    budget[0] -= 1
    st = State({}, facts)
    for _ in range(24):
        if not consistent(e, st):
            return False
        n = len(st.facts)
        prune(e, st)
        if len(st.facts) == n:
            break
    if budget[0] <= 0:
        return True
    # no contradiction at first sight: try each way the remaining joins can have been reached
    best = None
    for f in st.facts:
        if f[0] in ('is', 'isnt', 'T', 'F') and isinstance(f[1], V):
            v = sel(f[1], st.facts)
            if v.tag == 'phi' and (best is None or v.n < best.n):
                best = v
    if best is None:
        return True
    for i, x in enumerate(best.a[1]):
        if x.tag != 'bot' and ('x', best.a[0], i) not in st.facts and possible(e, edge(e, best, i, st.facts), budget):
            return True
    return False


def userfields(v, out=None, d=0):
    """all fields of the operation (self) a value is computed from"""
    out = set() if out is None else out
    if v.tag == 'sym' and len(v.a) == 3 and v.a[0] == 'self':
        out.add(v.a[2])
        return out
    if v.tag == 'init' or v.tag == 'ref':
        for x in v.a[0]:
            if isinstance(x, tuple) and len(x) > 2 and x[0] == 'f':
                out.add(x[2])
                return out
        if v.tag == 'ref':
            return out
    if d > 12:
        return out
    for x in v.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, V):
                userfields(y, out, d + 1)
    return out


def isdim(v, what):
    v = uncast(v)
    return v.tag == 'sym' and len(v.a) == 3 and v.a[0] == 'img' and v.a[2] == what


def dims(r, st, m, t, cspace, variant, bad, und):
    """what the image reports about itself after the operation"""
    op = short(t)
    for facts, (w, h, d, c) in paths(r.e, st, [fld(m, 'width'), fld(m, 'height'), fld(m, 'depth'), fld(m, 'colorspace')]):
        if c.tag != 'agg' or d.tag != 'agg':
            und.append('depth or colorspace of the result is unknown')
            continue
        if c.a[2] != cspace:
            bad.append('a %s image becomes %s' % (cspace, c.a[2]))
        if d.a[2] != variant:
            bad.append('the result has depth %s, not %s' % (d.a[2], variant))
        same = isdim(w, 'width') and isdim(h, 'height')
        flip = isdim(w, 'height') and isdim(h, 'width')
        says = 'the result is reported as %s x %s' % (show(w)[:90], show(h)[:90])
        if op not in GEOMETRY:
            if not same:
                bad.append(says)
        elif op == 'Transpose':
            if not flip:
                bad.append(says)
        elif op in ('Crop', 'Resize'):
            a, b = userfields(w), userfields(h)
            if not a or not b or a == b or any('height' in x for x in a) or any('width' in x for x in b):
                bad.append(says)
        elif not same and not flip:
            # computed by a function of the old dimensions: its two results, in order
            p, q = uncast(w), uncast(h)
            if p is q or isdim(w, 'width') != isdim(h, 'height') or isdim(w, 'height') != isdim(h, 'width'):
                bad.append(says)


# -- data flow
def shape(v, ren, d=0, memo=None):
    """data value with channels renamed and program points dropped"""
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    memo[v] = '...'
    if isroot(v):
        r = ren(v.a[0])
    elif v.tag == 'sym':
        r = 'blank' if v.a[0] == 'blank' else '?' + str(v.a[0])
    elif v.tag == 'written':
        r = shape(v.a[0], ren, d + 1, memo)
    elif v.tag == 'kernel':
        r = '%s(%s|%s)' % (v.a[0].split('::')[-1], shape(v.a[1], ren, d + 1, memo), ','.join(shape(x, ren, d + 1, memo) for x in v.a[2]))
    elif v.tag == 'samples':
        r = '+'.join(shape(x, ren, d + 1, memo) for x in v.a[0])
    elif v.tag == 'mix':
        r = 'mix(%s|%s)' % (shape(v.a[0], ren, d + 1, memo), '+'.join(sorted(shape(x, ren, d + 1, memo) for x in v.a[1])))
    elif v.tag == 'c':
        r = '-'
    else:
        r = '?' + v.tag
    memo[v] = r
    return r


def own(v):
    """the unmodified channel this is, or None"""
    return v.a[0] if isroot(v) else None


def flow(r, st, t, cspace, nf):
    """-> (violations, undecided, {(frame, channel): shape} per path)"""
    bad, und, per = [], [], []
    img = deepsel(r.e.readfull(st, (('img', 0),)), st.facts)[0]
    m = fld(img, 'metadata') if img.tag == 'agg' else None
    fs = frames(img) if m is not None else None
    if fs is None or any(channels(x) is None or any(fld(c, 'ptr') is None for c in channels(x)) for x in fs):
        return [], ['result image is not known'], []
    if len(fs) != nf:
        bad.append('%d frames became %d' % (nf, len(fs)))
    n = COMPONENTS[cspace]
    for i, x in enumerate(fs):
        for j, c in enumerate(channels(x)):
            l = {}
            for k, (_, vs) in enumerate(paths(r.e, st, [fld(c, 'ptr')])):
                if k > 300:
                    und.append('too many paths')
                    break
                l[vs[0]] = 1
            per += [{(i, j): v} for v in l]
    return bad, und, per


def scope(op, cspace):
    """channel indexes an operation may change"""
    n = COMPONENTS[cspace]
    alpha = (0 if cspace == 'ARGB' else n - 1) if cspace.endswith('A') or cspace == 'ARGB' else None
    return [j for j in range(n) if j != alpha], alpha


def judge(op, cspace, nf, pers):
    """pers: [{(frame, channel): data}] of all successful ends and paths -> (bad, undecided)"""
    bad, und = set(), set()
    colors, alpha = scope(op, cspace)
    seen = {}
    for tab in pers:
        for (i, j), v in tab.items():
            me = 'img.f%d.c%d' % (i, j)
            frame = {'img.f%d.c%d' % (i, k) for k in colors + ([alpha] if alpha is not None else [])}
            al = {'img.f%d.c%d' % (i, alpha)} if alpha is not None else set()
            w = 'channel %d of frame %d ' % (j, i)
            if unknown(v):
                und.add(w + 'is unknown')
                continue
            rs = roots(v)
            isalpha = j == alpha
            same = own(v) == me
            if op in COLOR:
                allow, keep = {me}, isalpha
            elif op in EVERY:
                allow, keep = {me}, False
            elif op in CROSS or op in TWO:
                x = (CROSS.get(op) or TWO.get(op))[1 if isalpha else 0]
                keep = x == 'keep'
                allow = {'own': {me}, 'own+alpha': {me} | al, 'color': frame - al, 'frame': frame, 'keep': {me}}[x]
                if op in TWO:
                    allow = allow | {q.replace('img.', 'src.') for q in allow}
            else:
                allow, keep = frame, False
            if keep and not same:
                bad.add(w + '(alpha) does not keep its samples')
                continue
            if not rs <= allow:
                bad.add(w + 'depends on ' + ', '.join(sorted(rs - allow)))
            if not keep and not rs and not isalpha:
                bad.add(w + 'does not depend on any sample of the image')
            b = baseroot(v)
            if b is not None and b != me and b not in allow:
                bad.add(w + 'is overwritten by ' + b)

            def ren(q):
                if q == me:
                    return 'own'
                if q in al:
                    return 'alpha'
                if q.startswith('src.'):
                    p = q.replace('src.', 'img.')
                    return 'src own' if p == me else 'src alpha' if p in al else 'src other'
                return 'other'
            seen.setdefault((i, j), set()).add('same' if same else shape(v, ren))
    # every frame, and every channel of the same kind, is treated the same way
    for i in range(nf):
        for j in range(COMPONENTS[cspace]):
            if (i, j) not in seen:
                continue
            s0 = seen.get((0, j))
            if s0 is not None and seen[i, j] != s0:
                bad.add('frame %d is treated differently from frame 0 (channel %d: %s)' % (i, j, diff(seen[i, j], s0)))
            if op in COLOR or op in EVERY or op in TWO:
                ref = (i, colors[0])
                if j in colors and ref in seen and seen[i, j] != seen[ref]:
                    bad.add('channel %d of frame %d is treated differently from channel %d (%s)' % (j, i, colors[0], diff(seen[i, j], seen[ref])))
                if j == alpha and op in EVERY and ref in seen and seen[i, j] != seen[ref]:
                    bad.add('alpha of frame %d is treated differently from color (%s)' % (i, diff(seen[i, j], seen[ref])))
            if j in colors and seen[i, j] == {'same'} and op in COLOR | EVERY | set(CROSS) | set(TWO):
                bad.add('channel %d of frame %d is never changed' % (j, i))
    return bad, und


def diff(a, b):
    x = sorted(a - b) or ['-']
    y = sorted(b - a) or ['-']
    return '%s instead of %s' % (x[0][:80], y[0][:80])


def unknown(v, d=0, seen=None):
    seen = set() if seen is None else seen
    if v.n in seen or d > 60:
        return False
    seen.add(v.n)
    if v.tag in ('init', 'havoc', 'phi', 'lphi', 'opaque', 'proj') or v.tag == 'sym' and v.a[0] == 'unknowndata':
        return True
    if v.tag == 'kernel':
        return unknown(v.a[1], d + 1, seen) or any(unknown(x, d + 1, seen) for x in v.a[2])
    if v.tag in ('samples', 'mix'):
        return any(unknown(y, d + 1, seen) for x in v.a for y in (x if isinstance(x, tuple) else (x,)))
    if v.tag == 'written':
        return unknown(v.a[0], d + 1, seen)
    return False


def params(r, pers):
    """{(kernel, parameter name): values} passed to the arithmetic, as ('dim', ...) / ('user', fields)"""
    out, seen = {}, set()
    for tab in pers:
        for v in tab.values():
            for kn in kernels(v):
                fn = r.kfn.get(kn.a[0])
                if fn is None or kn.n in seen:
                    continue
                seen.add(kn.n)
                names = {l - 1: nm for nm, l in fn.names.items() if 0 < l <= fn.argc}
                for i, x in enumerate(kn.a[3]):
                    nm = names.get(i)
                    if nm is None or x.tag == 'c' and x.a[-1] == 'slice':
                        continue
                    x = uncast(x)
                    what = 'img.' + x.a[2] if x.tag == 'sym' and len(x.a) == 3 and x.a[0] in ('img',) else x.a[0] + '.' + x.a[2] if x.tag == 'sym' and len(x.a) == 3 and x.a[0] == 'src' else None
                    out.setdefault((kn.a[0].split('::')[-1], nm.lstrip('_')), set()).add((what, tuple(sorted(userfields(x))), show(x)[:120]))
    return sorted((k, sorted(v, key=str)) for k, v in out.items())


def job(cfg):
    conf, what, (t, c, d, v, al), nf = cfg
    F = FX[conf]
    bad, und, n, dec = set(), set(), 0, 0
    r = operate(F, t, c, d, v, al, nf)
    pers = []
    for st in r.ends():
        n += 1
        if what == 'size':
            b, u, k = consistent_result(r, st, t, c, v if v != '-' else d)
            bad |= set(b)
            und |= set(u)
            dec += k
        else:
            b, u, p = flow(r, st, t, c, nf)
            bad |= set(b)
            und |= set(u)
            pers += p
    if what == 'flow':
        op = short(t)
        if op == 'Depth' and v == d:
            for tab in pers:
                for (i, j), x in tab.items():
                    if own(x) != 'img.f%d.c%d' % (i, j):
                        bad.add('channel %d of frame %d changed although the depth is kept' % (j, i))
        elif op == 'PremultiplyAlpha':
            al2 = [tab for tab in pers if not all(own(x) for x in tab.values())]
            if al2:
                b, u = judge(op, c, nf, al2)
                bad |= b
                und |= u
        else:
            b, u = judge(op, c, nf, pers)
            bad |= b
            und |= u
    return cfg, n, sorted(bad), sorted(und), sorted(k.split('::')[-1] for k in r.kfn), dec if what == 'size' else params(r, pers)


def sweep(cx, what, spaces, nf=2, confs=('default', 'nothreads')):
    l = []
    for conf in confs:
        FX[conf] = cx.facts(conf)
        # without its default features the crate has no exif support either
        l += [(conf, what, k, nf) for k in configs(FX[conf], spaces) if conf == 'default' or short(k[0]) != 'AutoOrient']
    l.sort(key=lambda k: (short(k[2][0]) not in ('Resize', 'AutoOrient', 'Composite'), k))
    gc.collect()
    gc.freeze()
    with Pool(8, maxtasksperchild=1) as pool:
        return sorted(pool.imap_unordered(job, l, 1))
