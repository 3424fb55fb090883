"""C15: encoders only ever get images of a kind they accept; anything else is an error."""
from ..imgs import *
from ..iofail import fail_at, PANIC

PROP = dict(
    id='C15',
    title='Encoders receive only image kinds they accept; others are converted or refused',
    statement='Encoding an image through the image library hands the encoder either the image itself, when the encoder lists its colorspace and bit depth as supported, or a copy whose colorspace and bit depth '
              'were converted to listed ones; in both cases every frame has one channel per component and every channel holds width x height samples of the declared depth, otherwise encoding fails. For every colorspace and '
              'bit depth the default each encoder converts to is one it lists. The encoders of the PNG, JPEG-XL, PPM, QOI, farbfeld and HDR crates return an error, without panicking, for a colorspace, bit depth '
              '(not QOI and HDR, whose samples are typed) or amount of data that does not fit; and every kind the library lists for them gets through.',
    quantifier=dict(over=['inputs', 'configurations'], text='every encoder, every colorspace and bit depth, every amount of data'),
    why_tests_cant='Tests encode RGB and a few other kinds; unusual colorspace/depth combinations of each encoder are not tried.',
    anchors=dict(files=['crates/zune-image/src/traits.rs', 'crates/zune-image/src/codecs', 'crates/zune-png/src/encoder.rs', 'crates/zune-png/src/headers/writers.rs', 'crates/zune-ppm/src/encoder.rs', 'crates/zune-qoi/src/encoder.rs',
                        'crates/zune-farbfeld/src/encoder.rs', 'crates/zune-hdr/src/encoder.rs', 'crates/zune-jpegxl/src/encoder.rs'],
                 mechanism=[dict(name='EncoderTrait::encode and the checks of each encoder', where='traits.rs, encoder.rs of each codec')]))
TECHNIQUE = 'abstract interpretation of MIR on abstract images and option sets (every colorspace and depth enumerated), call-site query for bypasses'
EXPLAIN = """
EncoderTrait::encode is evaluated for an unknown encoder with given supported lists on abstract two-frame images: for every combination of colorspace listed / not listed and depth listed / not listed the image at each
reachable call of encode_inner must have a listed colorspace and depth and path facts fixing every channel length; the colorspace and depth conversions are modelled as replacing the image by an unknown one of the requested
kind. Wrong channel counts must end in Err, conversion failures too. Each encoder's default_colorspace / default_depth is evaluated for every argument and compared with its lists. Each codec's encode is evaluated for every
colorspace x depth: unsupported ones have no Ok end and reach no panic routine; supported ones have an Ok end, at which the facts equate the data length with the product of the dimensions, components (and sample size).
encode_inner may be called by encode only.
"""
ASSUME = ['ColorspaceConv and Depth, when successful, leave the colorspace / depth they were asked for (their own correctness is not decided here)', 'an image is modelled with two frames']
R = 'core::result::Result'
CONV = 'zune_image::core_filters::colorspace::ColorspaceConv'
DEPTH = 'zune_image::core_filters::depth::Depth'

CODECS = {  # encoder type -> (adapter, depth matters)
    'zune_png::encoder::PngEncoder': ('PngEncoder', True),
    'zune_jpegxl::encoder::JxlSimpleEncoder': ('JxlEncoder', True),
    'zune_ppm::encoder::PPMEncoder': ('PPMEncoder', True),
    'zune_qoi::encoder::QoiEncoder': ('QoiEncoder', False),
    'zune_farbfeld::encoder::FarbFeldEncoder': ('FarbFeldEncoder', True),
    'zune_hdr::encoder::HdrEncoder': ('HdrEncoder', False),
}


def run(cx):
    F = cx.F
    gate(cx, F)
    encs = encoders(F)
    dcs = default_method(F, ENC, 'default_colorspace')
    cx.ob('inventory:encoders', len(encs) >= 7, '%d encoders' % len(encs))
    for ty, m in sorted(encs.items()):
        k = ty.split('::')[-1]
        sc, sd = listed(F, m.get('supported_colorspaces')), listed(F, m.get('supported_bit_depth'))
        if sc is None or sd is None:
            cx.undec('lists:' + k, 'the supported lists are not constant')
            continue
        for meth, adt, good in (('default_colorspace', CS, sc), ('default_depth', BD, sd)):
            f = m.get(meth) or (dcs if meth == 'default_colorspace' else None)
            if f is None:
                cx.ob('%s:%s' % (k, meth), False, 'not found')
                continue
            cx.analysed(f)
            for v, n in variants(F, adt):
                if adt == BD and v not in SIZE:
                    continue
                e = Engine(F, inline=lambda fr, c, fn: True)
                arg = cs(F, v) if adt == CS else bd(F, v)
                fr, st = e.run(f, args=[mk('arg', f.id, 1), arg])
                vals = set()
                if st is not None:
                    for x, fs in alternatives(e, st, e.resolve(st, retval(e, fr, st))):
                        vals.add(e.variant(st, x))
                ok = bool(vals) and vals <= set(good)
                cx.ob('%s:%s:%s' % (k, meth, v), ok, 'converts to %s, which is %s' % (sorted(map(str, vals)), 'listed' if ok else 'not listed as supported'), f.where())
    # codecs
    adapters = {ty.split('::')[-1]: m for ty, m in encs.items()}
    for ty, (ad, depth) in sorted(CODECS.items()):
        f = next((g for g in F.fns.values() if re.match(re.escape(ty) + r"(::<[^>]*>|<[^>]*>)?::encode$", g.name)), None)
        m = adapters.get(ad)
        k = ty.split('::')[-1]
        if f is None or m is None:
            cx.ob('anchor:' + k, False, 'encoder not found')
            continue
        cx.analysed(f)
        sc, sd = listed(F, m.get('supported_colorspaces')), listed(F, m.get('supported_bit_depth'))
        if sc is None or sd is None:
            cx.undec('lists:' + k, 'the supported lists are not constant')
            continue
        for c, n in variants(F, CS):
            for d, _ in variants(F, BD):
                if d not in SIZE:
                    continue
                if not depth and d != sd[0]:
                    continue
                codec(cx, F, f, k, c, d, c in sc and d in sd, depth)
    # bypass
    ids = {m['encode_inner'].id for m in encs.values() if 'encode_inner' in m}
    enc = default_method(F, ENC, 'encode')
    n = 0
    for f in sorted(F.fns.values(), key=lambda f: f.name):
        for b, t, c in f.calls():
            if c is not None and (c['name'] == ENC + '::encode_inner' or rid(c) in ids):
                n += 1
                if f.id != enc.id:
                    cx.ob('bypass:%s:%d' % (f.name, n), False, 'encode_inner is called without the checks of encode', f.where(t.get('l')))
    for ty, m in sorted(encs.items()):
        cx.ob('override:' + ty.split('::')[-1], 'encode' not in m, 'encode is %s' % ('inherited' if 'encode' not in m else 'overridden'), next(iter(m.values())).where())


def codec(cx, F, f, k, c, d, supported, depth):
    panics = []
    overflow = []
    crate = f.crate

    nc = COMPONENTS.get(c, 1)
    want = canon(mk('op', 'Mul', mk('op', 'Mul', mk('opt', 'width'), mk('opt', 'height')), C(nc * (SIZE[d] if depth else 1))))

    def fits(facts):
        for g in facts:
            if g[0] == 'eq' and isinstance(g[2], V):
                for x, y in ((g[1], g[2]), (g[2], g[1])):
                    if x.tag == 'len' and canon(norm(sel(y, facts))) == want:
                        return True
        return False

    def oc(fr, b, t, cc, args, st):
        if cc is not None and PANIC.search(cc['name']) and 'bounds' not in cc['name']:
            s2 = st.copy()
            prune(e, s2)
            if consistent(e, s2):
                panics.append(fr.fn.where(t.get('l')))
        if cc is not None and cc['name'].split('::')[-1] in ('unwrap', 'expect') and args:
            for a, fs in alternatives(e, st, args[0], st.facts):
                if a.tag == 'checked' and not fits(st.facts):
                    overflow.append(fr.fn.where(t.get('l')))

    def model(e, fr, b, t, cc, args, st):
        n = cc['name']
        if n == OPT + '::colorspace' or n == OPT + '::get_colorspace':
            return cs(F, c)
        if n == OPT + '::depth':
            return bd(F, d)
        if n in (OPT + '::width', OPT + '::height'):
            return mk('opt', n.split('::')[-1])
        return lists.model(e, fr, b, t, cc, args, st)

    def inline(fr, cc, fn):
        return fn.crate == crate and fn.id in cone or fn.crate == 'zune_core' and ('colorspace' in fn.name or 'bit_depth' in fn.name)
    cone = deciding(F, f)
    e = Engine(F, inline=inline, model=model, max_steps=400000)
    e.on_call = oc
    fr, st = e.run(f)
    key = '%s:%s:%s' % (k, c, d)
    ends = []
    if st is not None:
        for s2, v in split(e, st, retval(e, fr, st), 'Ok'):
            prune(e, s2)
            if consistent(e, s2):
                ends.append(s2)
    if panics and not supported:
        cx.ob(key, False, 'a panic can be reached: %s' % panics[0], f.where())
        return
    if not supported:
        cx.ob(key, not ends, 'not supported: %s' % ('refused' if not ends else 'success can be returned'), f.where())
        return
    cx.ob(key, bool(ends), 'supported: %s' % ('encoded' if ends else 'always refused'), f.where())
    bad = any(not fits(s2.facts) for s2 in ends)
    cx.ob(key + ':overflow', not overflow, 'the expected amount of data is computed %s' % ('without a panic on overflow' if not overflow else 'with a panic on overflow at ' + overflow[0]), f.where())
    cx.ob(key + ':length', not bad, 'at success the data length is %s the dimensions' % ('known to match' if not bad else 'not compared with'), f.where())


def norm(v):
    """products hidden behind checked multiplications"""
    v = uncast(v)
    if v.tag == 'op' and v.a[0] in ('Mul', 'Satmul'):
        return mk('op', 'Mul', norm(v.a[1]), norm(v.a[2]))
    return v


OPT = 'zune_core::options::encoder::EncoderOptions'
_cone = {}


def deciding(F, f):
    """functions below f in its crate from which the colorspace, depth or dimensions of the options are asked, and small ones"""
    if f.id not in _cone:
        want = set()
        for i in F.reachable([f.id]):
            g = F.fns[i]
            if g.crate != f.crate:
                continue
            if any(c is not None and c['name'].startswith(OPT + '::') for b, t, c in g.calls()) or len(g.blocks) < 12:
                want.add(i)
        # everything on the way
        cg = F.callgraph()
        ch = True
        while ch:
            ch = False
            for i in F.reachable([f.id]):
                if i not in want and F.fns[i].crate == f.crate and any(j in want and len(F.fns[j].blocks) >= 12 for j in cg.get(i, ())):
                    want.add(i)
                    ch = True
        _cone[f.id] = want
    return _cone[f.id]


def gate(cx, F):
    enc = default_method(F, ENC, 'encode')
    if enc is None:
        cx.ob('anchor:encode', False, 'EncoderTrait::encode not found')
        return
    cx.analysed(enc)
    w = enc.where()

    def ev(c, d, sup_c, sup_d, chans=None, failing=None, premul=False):
        hits = []

        def model(e, fr, b, t, cc, args, st):
            n = cc['name']
            if n == ENC + '::supported_colorspaces':
                return mk('cref', lists.arr([cs(F, x) for x in sup_c]))
            if n == ENC + '::supported_bit_depth':
                return mk('cref', lists.arr([bd(F, x) for x in sup_d]))
            if n == ENC + '::default_colorspace':
                return cs(F, sup_c[0])
            if n == ENC + '::default_depth':
                return bd(F, sup_d[0])
            if n == ENC + '::encode_inner':
                hits.append((e, st.copy(), e.content(st, args[1])))
                return mk('sym', 'inner')
            if n in (OPS + '::execute', OPS + '::execute_impl'):
                me = e.content(st, args[0])
                img = args[1]
                old = e.content(st, img)
                m = fld(old, 'metadata')
                if m is None or not (me.tag == 'agg' and me.a[0] == 'adt'):
                    return None
                cs_, bd_ = fld(m, 'colorspace'), fld(m, 'depth')
                op = me.a[1]
                if op == CONV:
                    cs_ = next((x for x in me.a[3] if x.tag == 'agg' and x.a[1] == CS), mk('sym', 'cs'))
                elif op == DEPTH:
                    bd_ = next((x for x in me.a[3] if x.tag == 'agg' and x.a[1] == BD), mk('sym', 'bd'))
                else:
                    return None
                if failing == op:
                    return enumval(F, R, 'Err', [mk('sym', 'ioerror')])
                k = COMPONENTS.get(cs_.a[2] if cs_.tag == 'agg' else '', 3)
                if img.tag == 'ref':
                    e.write(st, img.a[0], image(F, 'conv%d' % len(st.mem), cs_, bd_, chans[1] if chans else (k, k)))
                return enumval(F, R, 'Ok', [lists.UNIT])
            return lists.model(e, fr, b, t, cc, args, st)
        e = Engine(F, inline=lambda fr, cc, fn: fn.crate in ('zune_image', 'zune_core') and 'Debug' not in fn.name, model=model, max_steps=300000)
        e.unroll = 10
        st = State()
        k = COMPONENTS.get(c, 3)
        alpha = enumval(F, 'zune_image::metadata::AlphaState', 'PreMultiplied' if premul else 'NonPreMultiplied')
        st.mem[(('img', 0),)] = image(F, 'img', cs(F, c), bd(F, d), chans[0] if chans else (k, k), alpha=alpha)
        fr, s2 = e.run(enc, args=[mk('arg', enc.id, 1), mk('ref', (('img', 0),), False), mk('arg', enc.id, 3)], state=st)
        ends = []
        if s2 is not None:
            for s3, v in split(e, s2, retval(e, fr, s2), 'Ok'):
                if consistent(e, s3):
                    ends.append((e, s3, v))
        return hits, ends
    css = [n for n, k in variants(F, CS)]
    known = [c for c in css if c in COMPONENTS]
    for c in css:
        for d in SIZE:
            for cl in (True, False):
                for dl in (True, False):
                    for premul in (False, True):
                        others = [x for x in known if x != c]
                        sc = ([others[0], c, others[1]] if cl else [others[0], others[3]])
                        od = [x for x in SIZE if x != d]
                        sd = [od[0], d] if dl else [od[0]]
                        if cl and c not in COMPONENTS:
                            continue
                        hits, ends = ev(c, d, sc, sd, premul=premul)
                        bad = None
                        for e, st, img in hits:
                            m = fld(img, 'metadata')
                            if m is None or frames(img) is None:
                                bad = 'an unknown image'
                                continue
                            ic, idp = e.variant(st, fld(m, 'colorspace')), e.variant(st, fld(m, 'depth'))
                            if ic not in sc or idp not in sd:
                                bad = 'a %s image of depth %s' % (ic, idp)
                            elif (cl and ic != c) or (dl and idp != d):
                                bad = 'an image converted needlessly to %s %s' % (ic, idp)
                            elif sized(st.facts, img, SIZE[idp]) is not None:
                                bad = 'an image whose channel %s was not checked' % (sized(st.facts, img, SIZE[idp]),)
                        if c not in COMPONENTS:
                            ok = bad is None
                        else:
                            ok = bad is None and hits and ends
                        cx.ob('gate:%s:%s:%s:%s:%s' % (c, d, 'listed' if cl else 'unlisted', 'listed' if dl else 'unlisted', 'premultiplied' if premul else 'straight'), ok,
                              'the encoder receives %s' % (bad or ('a listed kind, checked' if hits else 'nothing')), w)
    for wrong in ((4, 3), (3, 4), (2, 3), (3, 2)):
        hits, ends = ev('RGB', 'Eight', ['RGB'], ['Eight'], chans=(wrong, wrong))
        cx.ob('count:%s,%s' % wrong, not hits and not ends, 'frames of %s channels are %s' % (wrong, 'refused' if not hits and not ends else 'accepted'), w)
        hits, ends = ev('RGBA', 'Eight', ['RGB'], ['Eight'], chans=((4, 4), wrong))
        cx.ob('count-converted:%s,%s' % wrong, not hits and not ends, 'converted frames of %s channels are %s' % (wrong, 'refused' if not hits and not ends else 'accepted'), w)
    for op, (c, d) in ((CONV, ('RGBA', 'Eight')), (DEPTH, ('RGB', 'Sixteen'))):
        hits, ends = ev(c, d, ['RGB'], ['Eight'], failing=op)
        cx.ob('failed:' + op.split('::')[-1], not hits and not ends, 'a failed conversion is %s' % ('returned' if not ends and not hits else 'ignored'), w)
    for b, t, c in enc.calls():
        if c is not None and c['name'] == ENC + '::encode_inner':
            v, dd = fail_at(F, enc, b)
            cx.ob('inner:%s' % b, v in ('reported', 'never'), 'an error of the encoder is %s' % v, enc.where(t.get('l')))
