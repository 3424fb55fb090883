"""Shared building blocks of the rules."""
import re
from .facts import callee, rid, rname, strip_generics
from .engine import Engine, State, mk, C, V, intc, cv, show, showp, Budget, uncast

NATIVE = ['zune_bmp', 'zune_farbfeld', 'zune_gif', 'zune_hdr', 'zune_jpeg', 'zune_png', 'zune_ppm', 'zune_psd', 'zune_qoi']


def short(f):
    return strip_generics(f.name)


def decoder_types(F):
    """crate -> decoder ADT name (the public type offering decode_headers)"""
    out = {}
    for f in F.fns.values():
        if f.crate in NATIVE and f.kind != 'Closure':
            m = re.match(r'^(.*Decoder(?:::<[^>]*>)?)::decode_headers$', f.name)
            if m:
                out[f.crate] = m.group(1)
    return out


def dmeth(F, ty, *names):
    for n in names:
        f = F.fn(ty + '::' + n)
        if f is not None:
            return f
    return None


def limit_field(F, getter):
    """name of the DecoderOptions field returned by a getter"""
    f = F.fn('zune_core::options::decoder::DecoderOptions::' + getter)
    if f is None:
        return None
    e = Engine(F)
    fr, st = e.run(f)
    v = e.readfull(st, ((fr.id, 0),))
    if v.tag == 'init':
        return v.a[0][-1][2]
    if v.tag == 'proj':
        return v.a[1][1]
    return None


def last_field(v):
    v = uncast(v)
    if v.tag == 'init' and isinstance(v.a[0][-1], tuple) and v.a[0][-1] and v.a[0][-1][0] == 'f':
        return v.a[0][-1][2]
    if v.tag == 'proj' and v.a[1][0] == 'f':
        return v.a[1][1]
    return None


def sel(v, facts):
    """follow phis all of whose other edges are excluded on this path"""
    while v.tag == 'phi':
        J = v.a[0]
        live = [x for i, x in enumerate(v.a[1]) if x.tag != 'bot' and ('x', J, i) not in facts]
        if not live or any(x is not live[0] for x in live):
            return v
        v = live[0]
    return v


def edge(e, v, i, facts):
    """facts of the path through edge i of phi v"""
    J = v.a[0]
    info = e.join.get(J) or []
    f2 = facts | info[i] if i < len(info) else facts
    f2 = f2 | {('x', J, j) for j in range(len(v.a[1])) if j != i} | {('on', J)}
    # conditions known about other values merged at the same join
    tmp = State({}, f2)
    for g in f2:
        if len(g) > 1 and isinstance(g[1], V) and g[1].tag == 'phi':
            x = sel(g[1], f2)
            if x is g[1] or x.tag == 'bot':
                continue
            if g[0] in ('T', 'F'):
                e.assume_bool(tmp, x, g[0] == 'T')
            elif g[0] in ('is', 'isnt'):
                e.assume_is(tmp, x, g[2], g[0] == 'is')
            elif g[0] in ('eq', 'ne') and isinstance(g[2], V):
                e.assume_eq(tmp, x, g[2], g[0] == 'eq')
            elif g[0] in ('lt', 'le') and isinstance(g[2], V):
                e.assume(tmp, (g[0], x, g[2]))
    return tmp.facts


def deepsel(v, facts, memo=None):
    """select phis also inside arithmetic and data flow; -> (value, an unresolved phi or None)"""
    if v.tag in ('c', 'sym', 'ref', 'init'):
        return v, None
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is None:
        r = memo[v] = _deepsel(v, facts, memo)
    return r


def _deepsel(v0, facts, memo):
    v = sel(v0, facts)
    if v is not v0:
        return deepsel(v, facts, memo)
    if v.tag == 'phi':
        return v, v
    if v.tag in ('op', 'padd', 'un', 'cast', 'written', 'kernel', 'samples', 'mix', 'agg'):
        ph, xs = None, []
        for x in v.a:
            if isinstance(x, V):
                x, p = deepsel(x, facts, memo)
                ph = ph or p
            elif isinstance(x, tuple) and x and isinstance(x[0], V):
                ys = []
                for y in x:
                    if isinstance(y, V):
                        y, p = deepsel(y, facts, memo)
                        ph = ph or p
                    ys.append(y)
                x = tuple(ys)
            xs.append(x)
        return mk(v.tag, *xs), ph
    return v, None


def paths(e, st, vals):
    """resolve the phis in a tuple of values consistently -> (facts, values)"""
    def go(facts, vals):
        ph, out = None, []
        for v in vals:
            v, p = deepsel(v, facts)
            ph = ph or p
            out.append(v)
        if ph is not None:
            for i, x in enumerate(ph.a[1]):
                if x.tag == 'bot' or ('x', ph.a[0], i) in facts:
                    continue
                yield from go(edge(e, ph, i, facts), out)
            return
        if any(v.tag == 'bot' for v in out):
            return
        yield facts, out
    yield from go(st.facts, list(vals))


def bounded(e, st, v, isbound, facts=None, seen=None, ok=lambda v: False):
    """every alternative of v is <= a bound on the path that produced it.
    Returns None when proved, else the offending alternative."""
    if facts is None:
        facts = st.facts
    if seen is None:
        seen = set()
    if v in seen:
        return None
    for f in facts:
        if f[0] in ('le', 'lt') and isbound(f[2]) and (f[1] is v or sel(f[1], facts) is v):
            return None
        if f[0] == 'eq' and ((f[1] is v and isbound(f[2])) or (f[2] is v and isbound(f[1]))):
            return None
    if intc(v) or v.tag == 'bot' or ok(v) or isbound(v):
        return None
    if v.tag == 'op' and v.a[0] == 'Min' and (bounded(e, st, v.a[1], isbound, facts, seen, ok) is None or bounded(e, st, v.a[2], isbound, facts, seen, ok) is None):
        return None
    if v.tag == 'phi':
        J = v.a[0]
        for i, x in enumerate(v.a[1]):
            if x.tag == 'bot' or ('x', J, i) in facts:
                continue
            r = bounded(e, st, x, isbound, edge(e, v, i, facts), seen, ok)
            if r is not None:
                return r
        return None
    if v.tag == 'lphi':
        seen = seen | {v}
        for x, f2 in e.lphi.get(v, []):
            r = bounded(e, st, x, isbound, f2, seen, ok)
            if r is not None:
                return r
        return None
    return v


def retval(e, fr, st):
    return e.readfull(st, ((fr.id, 0),))


def ok_state(e, fr, st):
    """restrict a merged return state to the Ok result; None when impossible"""
    st = st.copy()
    v = e.resolve(st, retval(e, fr, st))
    if not e.assume_is(st, v, 'Ok', True):
        return None
    return st


def prune(e, st):
    """drop join edges whose path facts contradict the facts known now"""
    iv, neq = {}, set()
    for f in st.facts:
        if f[0] == 'is':
            iv.setdefault(f[1], set()).add(f[2])
        elif f[0] == 'isnt':
            neq.add((f[1], f[2]))
    add = set()
    out = {}
    for f in st.facts:
        if f[0] == 'x':
            out.setdefault(f[1], set()).add(f[2])
    from .engine import neg
    for J, infos in e.join.items():
        for i, info in enumerate(infos):
            for g in info:
                if g in st.facts:
                    continue
                if g[0] == 'x':
                    # no edge left of a join that is passed
                    K = g[1]
                    if K in out and ('on', K) in st.facts and len(out[K] | {h[2] for h in info if h[0] == 'x' and h[1] == K}) >= len(e.join.get(K) or [0] * 99):
                        add.add(('x', J, i))
                        break
                    continue
                n = neg(g)
                if (n is not None and n in st.facts) or (g[0] == 'is' and (iv.get(g[1], {g[2]}) != {g[2]} or (g[1], g[2]) in neq)):
                    add.add(('x', J, i))
                    break
    new = st.facts | add
    dead = {}
    for f in new:
        if f[0] == 'x':
            dead.setdefault(f[1], set()).add(f[2])
    known = None
    for J, infos in e.join.items():
        d = dead.get(J, ())
        live = [i for i in range(len(infos)) if i not in d]
        if d and live:
            common = infos[live[0]]
            for i in live[1:]:
                common = common & infos[i]
            if common <= new:
                continue
            # the facts of the remaining edges hold only if the join is passed at all
            if known is None:
                known = e.executed(new)
            k = known.get(J[0])
            if k is not None and (J[1] == 'ret' or J[1] in k) and (len(J) < 3 or J[2] in k):
                new = new | common
    st.facts = new
    return add


def consistent(e, st, rounds=4):
    """re-derive consequences of the facts; False when they contradict each other"""
    for _ in range(rounds):
        before = st.facts
        for f in sorted(before, key=lambda f: (f[0], str(f[2]) if len(f) > 2 and not isinstance(f[2], V) else '')):
            if len(f) < 2 or not isinstance(f[1], V):
                continue
            ok = True
            if f[0] in ('T', 'F'):
                ok = e.assume_bool(st, f[1], f[0] == 'T')
            elif f[0] in ('is', 'isnt'):
                ok = e.assume_is(st, f[1], f[2], f[0] == 'is')
            elif f[0] in ('eq', 'ne') and isinstance(f[2], V) and f[1].tag == 'phi':
                ok = e.assume_eq(st, f[1], f[2], f[0] == 'eq')
            if not ok:
                return False
        if st.facts == before:
            return True
    return True


def split(e, st, v, var, depth=0):
    """states in which v has variant `var`, one per leaf alternative of v"""
    v = e.resolve(st, v)
    if v.tag == 'phi' and depth < 30:
        for i, x in enumerate(v.a[1]):
            if x.tag == 'bot' or ('x', v.a[0], i) in st.facts:
                continue
            k = e.variant(None, x)
            if k is not None and k not in (var, '⊥'):
                continue
            s2 = State(st.mem, edge(e, v, i, st.facts))
            yield from split(e, s2, x, var, depth + 1)
        return
    if v.tag == 'bot':
        return
    s2 = st.copy()
    if e.assume_is(s2, v, var, True):
        yield s2, v


def ok_states(e, fr, st):
    yield from split(e, st, retval(e, fr, st), 'Ok')


def alternatives(e, st, v, facts=None, seen=None):
    """leaf alternatives of v with the facts of their path"""
    if facts is None:
        facts = st.facts
    seen = seen or set()
    if v.tag == 'phi':
        J = v.a[0]
        for i, x in enumerate(v.a[1]):
            if x.tag == 'bot' or ('x', J, i) in facts:
                continue
            yield from alternatives(e, st, x, edge(e, v, i, facts), seen)
    elif v.tag == 'lphi':
        if v in seen:
            return
        seen = seen | {v}
        for x, f2 in e.lphi.get(v, []):
            yield from alternatives(e, st, x, f2, seen)
    else:
        yield v, facts


def enumval(F, adt, var, fields=()):
    return mk('agg', 'adt', adt, var, tuple(fields), tuple(str(i) for i in range(len(fields))))


def variants(F, adt):
    """[(name, field count)]"""
    a = F.adts.get(adt)
    return [(v['n'], len(v.get('f', []))) for v in a['v']] if a else []


def boxed(st, name, v):
    """store v in a named cell, return a reference to it"""
    p = ((name, 0),)
    st.mem[p] = v
    return mk('ref', p, False)


def apply(F, f, args, inline=None, state=None, on_call=None, byref=(), pure=None, **kw):
    """evaluate f on abstract arguments -> (engine, value or None, state, frame)"""
    e = Engine(F, inline=inline or (lambda fr, c, fn: fn.crate.startswith(('zune_', 'zil_'))), pure=pure, **kw)
    e.on_call = on_call
    st = state.copy() if state else State()
    a = []
    for i, v in enumerate(args):
        a.append(boxed(st, 'cell%d' % i, v) if i in byref else v)
    fr, s2 = e.run(f, args=a, state=st)
    if s2 is None:
        return e, None, None, fr
    return e, e.resolve(s2, retval(e, fr, s2)), s2, fr


def plain(v):
    """python value of a constant abstract value"""
    if v is None:
        return 'diverges'
    v = uncast(v)
    if intc(v):
        return cv(v)
    if v.tag == 'c':
        return cv(v)
    if v.tag == 'cstr':
        return v.a[0]
    if v.tag == 'agg':
        if v.a[0] == 'adt':
            return (v.a[2],) + tuple(plain(x) for x in v.a[3]) if v.a[3] else v.a[2]
        return tuple(plain(x) for x in v.a[3])
    if v.tag == 'cref':
        return plain(v.a[0])
    return '?' + show(v)[:60]
