"""C25: OperationsTrait::execute is the gate of every image operation."""
from ..imgs import *

PROP = dict(
    id='C25',
    title='Operations run only on images they support and must leave them consistent',
    statement='Executing an image operation on an image whose sample type, or whose colorspace (multi-band excepted), the operation does not list as supported returns an error without running it; '
              'so does executing it on an image in which some frame does not have one channel per colorspace component or some channel does not hold width x height samples of the declared depth. '
              'After an operation ran, success is reported only when the resulting image is consistent in the same sense, and an error of the operation is returned. No operation is run past these checks.',
    quantifier=dict(over=['inputs', 'configurations'], text='every operation, every image (colorspace, depth, frames and channels)'),
    why_tests_cant='Tests run operations on well-formed images of supported kinds; the refusals and the check after the operation never matter there.',
    anchors=dict(files=['crates/zune-image/src/traits.rs'], mechanism=[dict(name='OperationsTrait::execute and confirm_invariants', where='traits.rs')]))
TECHNIQUE = 'abstract interpretation of MIR on abstract images (known frame/channel counts, unknown samples) plus a call-site query for bypasses'
EXPLAIN = """
OperationsTrait::execute is evaluated for an unknown operation whose supported lists are given, on abstract images of two frames with unknown samples. For every colorspace and every bit depth:
with the value missing from the list no path may reach execute_impl and all ends are Err; with the value first, in the middle or last in the list execute_impl must be reachable, and at that point the path
facts must state for every channel of every frame that its byte length is width*height*sample size. A frame with a missing or an extra channel (either frame) must end in Err. The operation is modelled as
replacing the whole image by an unknown one: every Ok end must carry the same facts about the new image. Its failure must leave no Ok end. Call-site query: no implementation overrides execute, and
execute_impl is called only by execute or by the execute_impl of an operation whose supported lists are contained in the callee's.
"""
ASSUME = ['an image is modelled with two frames; the traversal of the frame list is the same for any number', 'std iterator/slice models of va/lists.py']


def run(cx):
    F = cx.F
    ex = default_method(F, OPS, 'execute')
    if ex is None:
        cx.ob('anchor:execute', False, 'OperationsTrait::execute not found')
        return
    cx.analysed(ex)
    css = [n for n, k in variants(F, CS)]
    bds = [n for n, k in variants(F, BD) if n in SIZE]
    w = ex.where()
    known = [c for c in css if c in COMPONENTS]
    cx.ob('inventory:colorspaces', set(COMPONENTS) <= set(css) and set(SIZE) <= set(bds), '%d colorspaces, %d depths' % (len(known), len(bds)), w)

    def ev(colorspace, depth, chans, sup_cs, sup_ty, fail=False, after=None):
        """-> (states at execute_impl, Ok end states (engine, state, value))"""
        hits = []

        def model(e, fr, b, t, c, args, st):
            n = c['name']
            if n == OPS + '::supported_colorspaces':
                return mk('cref', lists.arr([cs(F, x) for x in sup_cs]))
            if n == OPS + '::supported_types':
                return mk('cref', lists.arr([enumval(F, BT, x) for x in sup_ty]))
            if n == OPS + '::execute_impl':
                hits.append((e, st.copy(), deepsel(e.readfull(st, (('img', 0),)), st.facts)[0]))
                for k in [k for k in st.mem if k[:1] == (('img', 0),)]:
                    del st.mem[k]
                st.mem[(('img', 0),)] = image(F, 'new', cs(F, (after or (colorspace,))[0]), bd(F, depth), after[1] if after else chans)
                st.mem[(('ran', 0),)] = C(1)
                r = mk('sym', 'implresult')
                return enumval(F, RESULT_, 'Err', [r]) if fail else r
            return lists.model(e, fr, b, t, c, args, st)
        e = Engine(F, inline=lambda fr, c, fn: fn.crate in ('zune_image', 'zune_core'), model=model, max_steps=200000)
        e.unroll = 10
        st = State()
        st.mem[(('img', 0),)] = image(F, 'img', cs(F, colorspace), bd(F, depth), chans)
        st.mem[(('ran', 0),)] = C(0)
        fr, s2 = e.run(ex, args=[mk('arg', ex.id, 1), mk('ref', (('img', 0),), True)], state=st)
        ends = []
        if s2 is not None:
            for s3, v in split(e, s2, retval(e, fr, s2), 'Ok'):
                if consistent(e, s3):
                    ends.append((e, s3))
        return hits, ends
    # 1. colorspace gate
    for c in css:
        multi = c == 'MultiBand'
        n = COMPONENTS.get(c, 3)
        others = [x for x in known if x != c]
        if c in COMPONENTS:
            for pos, l in (('first', [c] + others[:2]), ('middle', others[:1] + [c] + others[1:2]), ('last', others[:3] + [c]), ('only', [c])):
                hits, ends = ev(c, 'Eight', (n, n), l, ['U8'])
                cx.ob('colorspace:%s:%s' % (c, pos), hits and ends, 'listed (%s): the operation %s' % (pos, 'runs' if hits and ends else 'does not run'), w)
        hits, ends = ev(c, 'Eight', (n, n), others, ['U8'])
        if not multi:
            cx.ob('colorspace:%s:absent' % c, not hits and not ends, 'not listed: %s' % ('refused' if not hits and not ends else 'the operation runs or success is returned'), w)
    # 2. depth gate
    for d in bds:
        ty = TYPE[d]
        oth = [TYPE[x] for x in SIZE if x != d]
        for pos, l in (('first', [ty] + oth), ('last', oth + [ty]), ('only', [ty])):
            hits, ends = ev('RGB', d, (3, 3), ['RGB'], l)
            cx.ob('type:%s:%s' % (d, pos), hits and ends, 'listed (%s): the operation %s' % (pos, 'runs' if hits and ends else 'does not run'), w)
        hits, ends = ev('RGB', d, (3, 3), ['RGB'], oth)
        cx.ob('type:%s:absent' % d, not hits and not ends, 'not listed: %s' % ('refused' if not hits and not ends else 'the operation runs or success is returned'), w)
    # 3. invariants before and after
    for c in known:
        n = COMPONENTS[c]
        for d in bds:
            hits, ends = ev(c, d, (n, n), [c], [TYPE[d]])
            bad = None
            for e, st, img in hits:
                r = sized(st.facts, img, SIZE[d]) if frames(img) else 'image'
                bad = bad or r
            cx.ob('before:%s:%s' % (c, d), hits and bad is None, 'at the operation every channel length is known to be right' if bad is None else 'the length of channel %s is not checked before the operation' % (bad,), w)
            bad = None
            for e, st in ends:
                img = deepsel(e.readfull(st, (('img', 0),)), st.facts)[0]
                r = sized(st.facts, img, SIZE[d]) if frames(img) else 'image'
                bad = bad or r
            cx.ob('after:%s:%s' % (c, d), ends and bad is None, 'at success every channel length is known to be right' if bad is None else 'the length of channel %s is not checked after the operation' % (bad,), w)
        for wrong in ((n + 1, n), (n, n + 1), (n - 1, n), (n, n - 1)):
            hits, ends = ev(c, 'Eight', wrong, [c], ['U8'])
            cx.ob('count-before:%s:%s' % (c, wrong), not hits and not ends, 'frames of %s channels are %s' % (wrong, 'refused' if not hits and not ends else 'accepted before the operation'), w)
            hits, ends = ev(c, 'Eight', (n, n), [c], ['U8'], after=(c, wrong))
            cx.ob('count-after:%s:%s' % (c, wrong), not ends, 'frames of %s channels are %s' % (wrong, 'refused' if not ends else 'accepted after the operation'), w)
    # 4. the operation's error
    hits, ends = ev('RGB', 'Eight', (3, 3), ['RGB'], ['U8'], fail=True)
    cx.ob('error', hits and not ends, 'an error of the operation is %s' % ('returned' if not ends else 'dropped'), w)
    # 5. no way around
    impls = ops(F)
    cx.ob('inventory:operations', len(impls) >= 30, '%d operations' % len(impls))
    for ty, ms in sorted(impls.items()):
        cx.ob('override:%s' % ty, 'execute' not in ms, 'execute is %s' % ('inherited' if 'execute' not in ms else 'overridden, the checks are bypassed'), ms.get('execute', next(iter(ms.values()))).where())
    ids = {m['execute_impl'].id: ty for ty, m in impls.items() if 'execute_impl' in m}
    dcs = default_method(F, OPS, 'supported_colorspaces')

    def support(ty):
        m = impls[ty]
        return listed(F, m.get('supported_colorspaces', dcs)), listed(F, m.get('supported_types'))
    k = {}
    for f in sorted(F.fns.values(), key=lambda f: f.name):
        for b, t, c in f.calls():
            if c is None or not (c['name'] == OPS + '::execute_impl' or rid(c) in ids):
                continue
            if f.id == ex.id:
                continue
            k[f.name] = k.get(f.name, 0) + 1
            key = 'bypass:%s:%d' % (f.name, k[f.name])
            me = ids.get(f.id)
            to = ids.get(rid(c))
            if me is None or to is None:
                cx.ob(key, False, 'execute_impl is called without the checks of execute', f.where(t.get('l')))
                continue
            a, z = support(me), support(to)
            ok = all(x is not None and y is not None and set(x) <= set(y) for x, y in zip(a, z))
            cx.ob(key, ok, '%s supports %s %s supports' % (me.split('::')[-1], 'nothing beyond what' if ok else 'images beyond those', to.split('::')[-1]), f.where(t.get('l')))
    cae = default_method(F, OPS, 'clone_and_execute')
    if cae is not None:
        from ..iofail import fail_at
        for b, t, c in cae.calls():
            if c is not None and c['name'] == OPS + '::execute':
                v, d = fail_at(F, cae, b)
                cx.ob('clone_and_execute', v == 'reported', 'an error of execute is %s' % v, cae.where(t.get('l')))


RESULT_ = 'core::result::Result'
