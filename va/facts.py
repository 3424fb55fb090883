"""Loads the facts dumped by the rustc driver and indexes them."""
import json, os, re, collections

ROOT = '/repo/'


class Fn:
    __slots__ = ('id', 'name', 'kind', 'file', 'line', 'reach', 'd', 'body', 'crate', 'blocks', '_succ', '_pred', '_dom', '_rpo', '_unrolled', 'names')

    def __init__(s, d, crate):
        s.d = d
        s.id = d['id']
        s.name = d['name']
        s.kind = d['kind']
        f = d['file']
        s.file = f[len(ROOT):] if f.startswith(ROOT) else f
        s.line = d['line']
        s.reach = d['reach']
        s.body = d['body']
        s.blocks = s.body['blocks']
        s.crate = crate
        s._succ = s._pred = s._dom = s._rpo = None
        s._unrolled = {}
        s.names = {}
        for nm, pl in s.body['names']:
            if isinstance(pl, int):
                s.names.setdefault(nm, pl)

    @property
    def argc(s):
        return s.body['argc']

    @property
    def locals(s):
        return s.body['locals']

    def ins(s):
        return s.d.get('ins', [])

    def out(s):
        return s.d.get('out', s.locals[0])

    def succ(s, b):
        if s._succ is None:
            s._succ = [succs(x['t']) for x in s.blocks]
        return s._succ[b]

    def preds(s):
        if s._pred is None:
            p = [[] for _ in s.blocks]
            for i in range(len(s.blocks)):
                for j in s.succ(i):
                    p[j].append(i)
            s._pred = p
        return s._pred

    def rpo(s):
        if s._rpo is None:
            seen = set()
            out = []
            st = [(0, iter(s.succ(0)))]
            seen.add(0)
            while st:
                n, it = st[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m)
                        st.append((m, iter(s.succ(m))))
                        break
                else:
                    out.append(n)
                    st.pop()
            out.reverse()
            s._rpo = out
        return s._rpo

    def idom(s):
        if s._dom is None:
            rpo = s.rpo()
            idx = {b: i for i, b in enumerate(rpo)}
            dom = {0: 0}
            ch = True
            pr = s.preds()
            while ch:
                ch = False
                for b in rpo[1:]:
                    new = None
                    for p in pr[b]:
                        if p in dom:
                            if new is None:
                                new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while idx[x] > idx[y]:
                                        x = dom[x]
                                    while idx[y] > idx[x]:
                                        y = dom[y]
                                new = x
                    if dom.get(b) != new:
                        dom[b] = new
                        ch = True
            s._dom = dom
        return s._dom

    def dominates(s, a, b):
        d = s.idom()
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = d[b]

    def calls(s):
        """(block index, terminator, callee dict or None) for reachable, non-cleanup calls"""
        for b in s.rpo():
            t = s.blocks[b]['t']
            if t['k'] == 'call':
                yield b, t, callee(t)

    def loops(s):
        """natural loops: header -> set of blocks"""
        out = {}
        pr = s.preds()
        for b in s.rpo():
            for h in s.succ(b):
                if s.dominates(h, b):
                    body = out.setdefault(h, {h})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in pr[x] if p in s.idom())
        return out

    def unrolled(s, n):
        """the same body with every loop peeled n times"""
        c = s._unrolled
        if n not in c:
            c[n] = unroll(s, n)
        return c[n]

    def peeled(s):
        """the same body with the loops over small arrays peeled to their end"""
        c = s._unrolled
        if 'arr' not in c:
            c['arr'] = unroll(s, array_loop(s)) if any('core::slice::iter::Iter<' in l or 'core::array::iter::IntoIter<' in l for l in s.locals) else s
        return c['arr']

    def where(s, line=None):
        return '%s:%s' % (s.file, line or s.line)


def array_loop(fn, most=8):
    """number of peels of a loop (blocks) whose iterator walks an array of known small length, else 0"""
    sizes = {}
    for l in fn.locals:
        m = re.match(r'^(?:&(?:mut )?)?\[(.*); (\d+)\]$', l)
        if m and int(m.group(2)) <= most:
            sizes[m.group(1)] = max(sizes.get(m.group(1), 0), int(m.group(2)))

    def count(f, h, body):
        n = 0
        for b in body:
            t = f.blocks[b]['t']
            if t['k'] != 'call' or not t['at']:
                continue
            c = callee(t)
            if c is None or not c['name'].endswith('Iterator::next'):
                continue
            m = re.match(r'^&mut core::array::iter::IntoIter<(.*), (\d+)>$', t['at'][0])
            if m and int(m.group(2)) <= most:
                n = max(n, int(m.group(2)) + 1)
            m = re.match(r"^&mut core::slice::iter::Iter<(?:'[^,]*, )?(.*)>$", t['at'][0])
            if m and m.group(1) in sizes:
                n = max(n, sizes[m.group(1)] + 1)
        return n
    return count


def unroll(fn, times, limit=6000):
    import copy
    done = set()      # loop headers already peeled (original copies stay as the rest loop)
    f = fn
    for _ in range(40):
        # an outermost loop not yet peeled
        ls = {h: b for h, b in f.loops().items() if h not in done}
        if callable(times):
            ls = {h: b for h, b in ls.items() if times(f, h, b)}
        if not ls or len(f.blocks) > limit:
            break
        h = min(ls, key=lambda h: (-len(ls[h]), h))
        body = ls[h]
        n = times(f, h, body) if callable(times) else times
        blocks = list(f.blocks)
        # entry edges into h go to the first copy, back edges of copy k to copy k+1, of the last one to the loop itself
        heads = {}
        order = sorted(body)
        base = len(blocks)
        maps = [{b: base + k * len(order) + i for i, b in enumerate(order)} for k in range(n)]
        for k in range(n):
            mp = dict(maps[k])
            nxt = maps[k + 1][h] if k + 1 < n else h
            for b in order:
                def to(x):
                    if x == h:
                        return nxt
                    return mp.get(x, x)
                blocks.append(dict(s=blocks[b]['s'], t=retarget(blocks[b]['t'], to)))
        for b in range(base):
            if b not in body:
                t = blocks[b]['t']
                if h in succs(t):
                    blocks[b] = dict(s=blocks[b]['s'], t=retarget(t, lambda x: maps[0][h] if x == h else x))
        if h == 0:
            break
        done.add(h)
        g = copy.copy(f)
        g.blocks = blocks
        g._succ = g._pred = g._dom = g._rpo = None
        f = g
    if f is not fn:
        f._unrolled = {'arr' if callable(times) else times: f}
    return f


def retarget(t, to):
    t = dict(t)
    if t['k'] == 'switch':
        t['c'] = [(v, to(b)) for v, b in t['c']]
        t['o'] = to(t['o'])
    elif t.get('t') is not None:
        t['t'] = to(t['t'])
    return t


def succs(t):
    """non-unwind successors"""
    k = t['k']
    if k in ('goto', 'drop', 'assert', 'asm', 'call'):
        return [] if t.get('t') is None else [t['t']]
    if k == 'switch':
        r = []
        for _, b in t['c']:
            if b not in r:
                r.append(b)
        if t['o'] not in r:
            r.append(t['o'])
        return r
    return []


def callee(t):
    f = t['f']
    if f[0] == 'k' and isinstance(f[1].get('v'), dict) and 'fn' in f[1]['v']:
        return f[1]['v']
    return None


def rid(c):
    """resolved function id of a callee record"""
    return c.get('res') or c['fn']


def rname(c):
    return c.get('resname') or c['name']


class Facts:
    def __init__(s, d):
        s.dir = d
        s.fns = {}
        s.adts = {}
        s.impls = []
        s.consts = {}
        s.const_by_name = {}
        s.crates = []
        for fn in sorted(os.listdir(d)):
            if not fn.endswith('.json'):
                continue
            j = json.load(open(os.path.join(d, fn)))
            c = j['crate']
            s.crates.append(c)
            for f in j['fns']:
                s.fns[f['id']] = Fn(f, c)
            for a in j['adts']:
                a['crate'] = c
                s.adts[a['name']] = a
            for i in j['impls']:
                i['crate'] = c
                s.impls.append(i)
            for k in j['consts']:
                k['crate'] = c
                s.consts[k['id']] = k
                s.const_by_name[k['name']] = k
        s.by_name = collections.defaultdict(list)
        for f in s.fns.values():
            s.by_name[f.name].append(f)
        # trait item id -> [(self type, impl fn id)]
        s.trait_impls = collections.defaultdict(list)
        for i in s.impls:
            for nm, fid, tid in i['items']:
                if tid:
                    s.trait_impls[tid].append((i['self'], fid, i))
        s._closures = None

    def fn(s, name):
        """unique function with that pretty name; None if missing or ambiguous"""
        l = s.by_name.get(name, [])
        return l[0] if len(l) == 1 else None

    def find(s, pat, crate=None):
        r = re.compile(pat)
        return [f for f in s.fns.values() if r.search(f.name) and (crate is None or f.crate == crate)]

    def methods(s, adt, meth, crate=None):
        """inherent method `meth` of adt path (generic-insensitive)"""
        out = []
        for f in s.fns.values():
            n = re.sub(r'::?<[^<>]*(<[^<>]*(<[^<>]*>[^<>]*)*>[^<>]*)*>', '', f.name)
            if n == adt + '::' + meth:
                out.append(f)
        return out

    def impls_of(s, trait):
        return [i for i in s.impls if i.get('trait') == trait]

    def impl_method(s, impl, name):
        for nm, fid, tid in impl['items']:
            if nm == name:
                return s.fns.get(fid)
        return None

    def closures_of(s, fid):
        if s._closures is None:
            s._closures = collections.defaultdict(list)
            for f in s.fns.values():
                if f.kind == 'Closure':
                    s._closures[f.d['parent']].append(f)
        return s._closures[fid]

    # ---- call graph (resolved + trait CHA + closures as callees of their parent)
    def callgraph(s):
        if hasattr(s, '_cg'):
            return s._cg
        cg = {}
        ext = {}
        for f in s.fns.values():
            out = set()
            ex = set()
            for b, t, c in f.calls():
                if c is None:
                    ex.add(('<indirect>', t.get('fty', '')))
                    continue
                r = rid(c)
                if r in s.fns:
                    out.add(r)
                    # still may be overridden when unresolved trait default
                    if 'res' not in c and c.get('trait') and s.trait_impls.get(r):
                        for st, fid, _ in s.trait_impls[r]:
                            out.add(fid)
                elif c.get('trait') and 'res' not in c and s.trait_impls.get(c['fn']):
                    for st, fid, _ in s.trait_impls[c['fn']]:
                        if fid in s.fns:
                            out.add(fid)
                    ex.add((c['name'], ''))
                else:
                    ex.add((rname(c), ''))
                # function values passed as arguments
                for a in t['a']:
                    if a[0] == 'k' and isinstance(a[1].get('v'), dict) and 'fn' in a[1]['v']:
                        v = a[1]['v']
                        q = rid(v)
                        (out.add(q) if q in s.fns else ex.add((rname(v), '')))
            for b in f.rpo():
                for st in f.blocks[b]['s']:
                    if st[0] == '=':
                        for v in fn_consts(st[2]):
                            q = rid(v)
                            (out.add(q) if q in s.fns else ex.add((rname(v), '')))
            for c in s.closures_of(f.id):
                out.add(c.id)
            cg[f.id] = out
            ext[f.id] = ex
        s._cg = cg
        s._ext = ext
        return cg

    def reachable(s, roots):
        cg = s.callgraph()
        seen = set()
        st = list(roots)
        par = {}
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in cg.get(x, ()):
                if y not in seen:
                    par.setdefault(y, x)
                    st.append(y)
        s._par = par
        return seen


def fn_consts(rv):
    """function items mentioned as values in an rvalue"""
    out = []

    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            v = x.get('v')
            if isinstance(v, dict) and 'fn' in v:
                out.append(v)
    go(rv)
    return out


def strip_generics(n):
    """drop every <...> group except qualified-path heads (<T as Trait>)"""
    out = []
    d = 0
    i = 0
    while i < len(n):
        ch = n[i]
        if ch == '<':
            d += 1
        elif ch == '>' and n[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out).replace('::::', '::')
