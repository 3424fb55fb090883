"""C16: option builders store what they are given and nothing else."""
from ..lib import *
from ..engine import binop

PROP = dict(
    id='C16',
    title='Every option setter is read back by its getter and changes nothing else',
    statement='For decoder and encoder options, a value given to a builder method is exactly what the getter of the same name returns (quality is clamped to 0..=100), and every other getter keeps its previous result; strict mode is the one switch defined to also turn on/off checksum verification. '
              'Fresh options report the documented defaults. '
              'Options handed to an encoder are completed with the size, depth and colorspace of the image being encoded while quality, effort, thread count and flags stay as the user set them.',
    quantifier=dict(over=['configurations', 'histories'], text='every sequence of builder calls with every argument value, read back through every getter'),
    why_tests_cant='The tests set one or two options on a handful of images; a setter that writes a neighbouring flag or drops an earlier setting shows only for a combination no test uses.',
    anchors=dict(files=['crates/zune-core/src/options/decoder.rs', 'crates/zune-core/src/options/encoder.rs', 'crates/zune-image/src/codecs.rs'],
                 mechanism=[dict(name='builder methods of DecoderOptions / EncoderOptions', where='crates/zune-core/src/options'), dict(name='create_options_for_encoder', where='crates/zune-image/src/codecs.rs')]))
TECHNIQUE = 'abstract interpretation of MIR (value numbering): getter∘setter composed symbolically over all pairs'
EXPLAIN = """
Every public method of the two option types is classified by its signature as setter (self by value + one value -> Self) or getter (&self -> value).
For every setter x getter pair the composition is evaluated abstractly on an arbitrary options value and an arbitrary argument: the matching getter must
yield the argument itself, every other getter the same value number as on the unmodified options.  Setters with range clamping are evaluated on all 256 constants.
Defaults are evaluated as constants and compared with the documented values.
"""
ASSUME = ['getter/setter pairing is by public name (set_X / X, P_set_X / P_get_X / P_X)']

ALLOWED = {  # setter -> other getters it is documented to influence
    'strict_mode': {'png_confirm_crc', 'inflate_confirm_adler'},
    'png_confirm_crc': {'strict_mode'}, 'inflate_confirm_adler': {'strict_mode'},
    'use_unsafe': {'use_sse2', 'use_sse3', 'use_sse41', 'use_avx', 'use_avx2', 'use_neon'},
}
DEFAULTS = {
    'decoder': {'max_width': 16384, 'max_height': 16384, 'jpeg_max_scans': 100, 'inflate_limit': 1 << 30, 'png_confirm_crc': False, 'inflate_confirm_adler': False, 'use_unsafe': True,
                'png_add_alpha_channel': False, 'png_strip_to_8bit': False, 'png_decode_animated': True, 'jxl_decode_animated': True, 'byte_endian': 'BE', 'jpeg_out_colorspace': 'RGB', 'strict_mode': False},
    'encoder': {'quality': 80, 'effort': 4, 'num_threads': 4, 'colorspace': 'RGB', 'depth': 'Eight', 'strip_metadata': False, 'jpeg_encode_progressive': False, 'jpeg_optimized_huffman_tables': False},
}


def norm(n):
    return re.sub(r'(^|_)(set|get)_', r'\1', n)


def run1(e, f, args, st=None):
    fr, s = e.run(f, args=args, state=st)
    if s is None:
        return None, None
    return e.resolve(s, retval(e, fr, s)), s


def same(e, a, b):
    return a is b


def run(cx):
    F = cx.F
    for kind, ty in (('decoder', 'zune_core::options::decoder::DecoderOptions'), ('encoder', 'zune_core::options::encoder::EncoderOptions')):
        ms = [f for f in F.fns.values() if f.name.startswith(ty + '::') and f.kind != 'Closure' and f.reach]
        setters = {norm(f.name.split('::')[-1]): f for f in ms if len(f.ins()) == 2 and f.ins()[0] == ty and f.out() == ty}
        getters = {norm(f.name.split('::')[-1]): f for f in ms if len(f.ins()) == 1 and f.ins()[0] == '&' + ty}
        cx.ob('%s:inventory' % kind, len(setters) >= 8 and len(getters) >= 8, '%d setters, %d getters' % (len(setters), len(getters)))
        for f in list(setters.values()) + list(getters.values()):
            cx.analysed(f)
        for sn, sf in sorted(setters.items()):
            if sn not in getters:
                cx.ob('%s:%s:getter' % (kind, sn), False, 'setter without a getter of the same name', sf.where())
                continue
            base = mk('init', ('*', mk('arg', 'opts', 0)))
            for gn, gf in sorted(getters.items()):
                e = Engine(F, inline=lambda fr, c, fn: fn.crate == 'zune_core', pure=lambda n: True)
                g0, _ = run1(e, gf, [mk('ref', (('o', 0),), False)], State({(('o', 0),): base}))
                if sn == 'quality' and gn == 'quality':
                    badv = []
                    for x in range(256):
                        o, s = run1(e, sf, [base, C(x)])
                        s2 = s.copy()
                        p = (('o', 0),)
                        s2.mem[p] = o
                        v, _ = run1(e, gf, [mk('ref', p, False)], s2)
                        if not (intc(v) and cv(v) == min(x, 100)):
                            badv.append((x, show(v)))
                    cx.ob('%s:%s' % (kind, sn), not badv, 'all 256 values read back clamped to 0..=100' if not badv else 'value %s reads back as %s' % badv[0], sf.where())
                    continue
                arg = mk('arg', 'val', 1)
                o, s = run1(e, sf, [base, arg])
                s2 = s.copy()
                p = (('o', 0),)
                s2.mem[p] = o
                v, s3 = run1(e, gf, [mk('ref', p, False)], s2)
                if gn == sn:
                    if sn == 'strict_mode':
                        # strict on -> reported; strict off -> not reported
                        ok = True
                        for b in (True, False):
                            o, s = run1(e, sf, [base, C(b)])
                            s2 = s.copy()
                            s2.mem[p] = o
                            v, _ = run1(e, gf, [mk('ref', p, False)], s2)
                            ok &= intc(v) and cv(v) == b
                            for dep in ALLOWED['strict_mode']:
                                w, _ = run1(e, getters[dep], [mk('ref', p, False)], s2)
                                ok &= intc(w) and cv(w) == b
                        cx.ob('%s:%s' % (kind, sn), ok, 'strict mode switches itself and both checksum checks', sf.where())
                        continue
                    cx.ob('%s:%s' % (kind, sn), v is arg, 'reads back %s' % (show(v) if v is not None else None), sf.where())
                elif gn in ALLOWED.get(sn, ()):
                    continue
                else:
                    ok = v is g0 and v is not None
                    cx.ob('%s:%s/%s' % (kind, sn, gn), ok, 'setting %s leaves %s: %s' % (sn, gn, 'unchanged' if ok else '%s -> %s' % (show(g0), show(v))), sf.where())
        # defaults
        df = [f for f in F.fns.values() if f.name == '<%s as core::default::Default>::default' % ty]
        e = Engine(F, inline=lambda fr, c, fn: fn.crate == 'zune_core', pure=lambda n: n.startswith('std_detect'))
        if not df:
            cx.ob('%s:default' % kind, False, 'no Default impl')
            continue
        ctors = [('default', df[0], [])]
        if kind == 'decoder':
            for n in ('new_safe', 'new_fast', 'new_cmd'):
                f = F.fn(ty + '::' + n)
                if f is not None:
                    ctors.append((n, f, []))
        for cn, f, a in ctors:
            o, s = run1(e, f, a)
            s2 = s.copy()
            p = (('o', 0),)
            s2.mem[p] = o
            for gn, want in DEFAULTS[kind].items():
                gf = getters.get(gn)
                if gf is None:
                    cx.ob('%s:%s:%s' % (kind, cn, gn), False, 'getter missing')
                    continue
                v, _ = run1(e, gf, [mk('ref', p, False)], s2)
                got = None
                if v is not None:
                    got = cv(v) if intc(v) else (v.a[2] if v.tag == 'agg' and v.a[0] == 'adt' else show(v))
                cx.ob('%s:%s:%s' % (kind, cn, gn), got == want, 'documented %s, evaluates to %s' % (want, got), gf.where())
        if kind == 'encoder':
            f = F.fn(ty + '::new')
            args = [mk('arg', 'n', i) for i in range(4)]
            o, s = run1(e, f, args)
            s2 = s.copy()
            s2.mem[(('o', 0),)] = o
            for i, gn in enumerate(('width', 'height', 'colorspace', 'depth')):
                v, _ = run1(e, getters[gn], [mk('ref', (('o', 0),), False)], s2)
                cx.ob('encoder:new:%s' % gn, v is args[i], 'reads back %s' % show(v), f.where())
            completion(cx, F, getters)


def completion(cx, F, getters):
    """create_options_for_encoder: image geometry from the image, the rest from the user"""
    fs = F.find(r'codecs::create_options_for_encoder$', 'zune_image')
    if len(fs) != 1:
        cx.ob('encoder:completion', False, 'no unique option-completion function')
        return
    f = fs[0]
    cx.analysed(f)
    pure = lambda n: True
    e = Engine(F, inline=lambda fr, c, fn: fn.crate in ('zune_core', 'zune_image'), pure=pure)
    img = mk('arg', 'img', 1)
    base = mk('init', ('*', mk('arg', 'opts', 0)))
    for label, o in (('given', mk('agg', 'adt', 'core::option::Option', 'Some', (base,), ('0',))), ('absent', mk('agg', 'adt', 'core::option::Option', 'None', (), ()))):
        r, s = run1(e, f, [o, img])
        if r is None:
            cx.ob('encoder:completion:%s' % label, False, 'never returns', f.where())
            continue
        s2 = s.copy()
        s2.mem[(('o', 0),)] = r
        ref = mk('ref', (('o', 0),), False)
        for gn, path in (('width', ('dimensions', 0)), ('height', ('dimensions', 1)), ('depth', ('depth', None)), ('colorspace', ('colorspace', None))):
            v, _ = run1(e, getters[gn], [ref], s2)
            g = F.fn('zune_image::image::Image::' + path[0])
            w, _ = run1(e, g, [img])
            if path[1] is not None:
                w = e.project(None, w, (('f', path[1], str(path[1])),))
            cx.ob('encoder:completion:%s:%s' % (label, gn), v is w, '%s of the encode call is %s, image has %s' % (gn, show(v), show(w)), f.where())
        if label == 'given':
            for gn in sorted(getters):
                if gn in ('width', 'height', 'depth', 'colorspace'):
                    continue
                v, _ = run1(e, getters[gn], [ref], s2)
                w, _ = run1(e, getters[gn], [ref], State({(('o', 0),): base}))
                cx.ob('encoder:completion:keep:%s' % gn, v is w, 'user setting %s becomes %s' % (show(w), show(v)), f.where())
