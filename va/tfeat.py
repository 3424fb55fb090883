"""CPU-feature obligations: every entry into code compiled for extra CPU features is guarded."""
import collections
from .lib import *
from .facts import fn_consts, succs

BASE = {'sse', 'sse2', 'fxsr', 'x87'}
# feature -> features it implies
IMPL = {'avx2': {'avx', 'sse4.2', 'sse4.1', 'ssse3', 'sse3', 'sse2', 'sse'}, 'avx': {'sse4.2', 'sse4.1', 'ssse3', 'sse3', 'sse2', 'sse'}, 'sse4.2': {'sse4.1', 'ssse3', 'sse3'},
        'sse4.1': {'ssse3', 'sse3'}, 'ssse3': {'sse3'}, 'fma': {'avx', 'sse4.2', 'sse4.1', 'ssse3', 'sse3'}}
MODF = {'sse41': 'sse4.1', 'sse42': 'sse4.2', 'avx512f': 'avx512f'}


def closure_of(fs):
    out = set(fs)
    for f in list(out):
        out |= IMPL.get(f, set())
    return out


def detect_feature(v):
    """feature name when v is a runtime detection call"""
    if v.tag == 'call' and v.a[0].startswith('std_detect::detect::arch::'):
        n = v.a[0].split('::')[-1].strip('_')
        return {'sse4_1': 'sse4.1', 'sse4_2': 'sse4.2'}.get(n, n)
    return None


def ext_req(name):
    m = re.match(r'^core::core_arch::x86(?:_64)?::(\w+)::\w+$', name)
    if m and m.group(1) not in ('sse', 'sse2', 'fxsr', 'mod'):
        f = MODF.get(m.group(1), m.group(1))
        return {f} if f in ('sse3', 'ssse3', 'sse4.1', 'sse4.2', 'avx', 'avx2', 'fma', 'avx512f', 'bmi1', 'bmi2', 'lzcnt', 'popcnt', 'aes', 'pclmulqdq') else set()
    return set()


def mentions(F):
    """(mentioning fn, target id, kind) for calls, reified functions and closure constructions"""
    for f in F.fns.values():
        for b in f.rpo():
            blk = f.blocks[b]
            for st in blk['s']:
                if st[0] != '=':
                    continue
                for v in fn_consts(st[2]):
                    yield f, rid(v), rname(v), b
                if st[2][0] == 'agg' and st[2][1] == 'closure':
                    yield f, st[2][3], 'closure', b
            t = blk['t']
            if t['k'] == 'call':
                c = callee(t)
                if c:
                    yield f, rid(c), rname(c), b
                for a in t['a']:
                    if a[0] == 'k' and isinstance(a[1].get('v'), dict) and 'fn' in a[1]['v']:
                        yield f, rid(a[1]['v']), rname(a[1]['v']), b


class Guard:
    """decides for each mention whether the needed features (and optionally the unsafe option) are known"""

    def __init__(s, F, unsafe_field=None):
        s.F = F
        s.unsafe_field = unsafe_field
        s.req = {}
        for f in F.fns.values():
            tf = set(f.d.get('tf') or []) - BASE
            if tf:
                s.req[f.id] = tf
        s.intr = set()
        for f in F.fns.values():
            if f.d.get('tf'):
                s.intr.add(f.id)
        s.callers = collections.defaultdict(set)
        s.sites = collections.defaultdict(list)      # fn id -> [(target, name, block)]
        for f, t, n, b in mentions(F):
            s.callers[t].add(f.id)
            s.sites[f.id].append((t, n, b))

    def run_root(s, root, path, judge):
        """analyse root, entering only functions of `path`; judge(frame, block, target, name, state, line, engine) at every mention"""
        F = s.F

        def oc(fr, b, t, c, args, st):
            if c is not None:
                judge(fr, b, rid(c), rname(c), st, t.get('l'), e)
            for a in t['a']:
                if a[0] == 'k' and isinstance(a[1].get('v'), dict) and 'fn' in a[1]['v']:
                    judge(fr, b, rid(a[1]['v']), rname(a[1]['v']), st, t.get('l'), e)

        def os(fr, b, i, x, v, st):
            for w in fn_consts(x[2]):
                judge(fr, b, rid(w), rname(w), st, x[3], e)
            if x[2][0] == 'agg' and x[2][1] == 'closure':
                judge(fr, b, x[2][3], 'closure', st, x[3], e)
        small = lambda fn: len(fn.blocks) <= 40
        e = Engine(F, inline=lambda fr, c, fn: fn.id in path or (fn.crate == 'zune_core' and '::options::' in fn.name) or (small(fn) and fn.out() == 'bool'), on_call=oc, max_depth=10, max_steps=150000)
        e.on_stmt = os
        e.run(F.fns[root])
        return e


def implied(v, atom, e=None, depth=0, seen=frozenset()):
    """set of atoms that hold whenever boolean v is true (None: v can never be true)"""
    if intc(v):
        return None if not cv(v) else set()
    if v.tag == 'bot' or depth > 40:
        return None if v.tag == 'bot' else set()
    a = atom(v)
    if a:
        return {a}
    if v.tag == 'op' and v.a[0] in ('BitAnd',) and len(v.a) == 3:
        x, y = implied(v.a[1], atom, e, depth + 1, seen), implied(v.a[2], atom, e, depth + 1, seen)
        return None if x is None or y is None else x | y
    alts = None
    if v.tag == 'phi':
        alts = v.a[1]
        info = (e.join.get(v.a[0]) or []) if e is not None else []
        out = None
        for i, x in enumerate(alts):
            r = implied(x, atom, e, depth + 1, seen)
            if r is None:
                continue
            if i < len(info):
                for f in info[i]:
                    if f[0] == 'T' and f[1] is not v and f[1] not in seen:
                        r = r | (implied(f[1], atom, e, depth + 8, seen | {v}) or set())
            out = r if out is None else out & r
        return out
    elif v.tag == 'lphi' and e is not None:
        if v in seen:
            return None     # induction over loop iterations
        seen = seen | {v}
        alts = [x for x, _ in e.lphi.get(v, []) if x is not v]
        if not alts:
            return set()
    if alts is None:
        return set()
    out = None
    for x in alts:
        r = implied(x, atom, e, depth + 1, seen)
        if r is not None:
            out = r if out is None else out & r
    return out


def holds(st, atom, e=None):
    out = set()
    for f in st.facts:
        if f[0] == 'T':
            out |= implied(f[1], atom, e) or set()
    return out


def known_features(st, e):
    return closure_of(holds(st, detect_feature, e))
