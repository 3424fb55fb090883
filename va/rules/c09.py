"""C09: bounded stack: codecs do not recurse."""
from ..lib import *
from ..engine import *
from ..facts import rid
from . import c03

PROP = dict(
    id='C09',
    title='Decoding and encoding use a bounded stack: no input makes codecs recurse',
    statement='In the decoders, encoders, inflate and the byte stream and option code they use, no function can re-enter itself, directly or through other functions, closures or trait methods, while it runs; so the stack in use does not grow with the number or nesting of chunks, markers, scans, blocks or frames in a file.',
    quantifier=dict(over=['inputs'], text='every file and image'),
    why_tests_cant='A recursion driven by repeated structures in a file is harmless for ordinary files; it overflows the stack (an abort that cannot be caught) only for files with many thousands of them.',
    anchors=dict(files=['crates/zune-%s/src/**' % x for x in ('jpeg', 'png', 'bmp', 'gif', 'psd', 'qoi', 'ppm', 'hdr', 'farbfeld', 'jpegxl', 'inflate', 'core')],
                 mechanism=[dict(name='chunk, marker and scan loops', where='decode_headers, parse_header, parse_fctl, the decode functions of each codec')]))
TECHNIQUE = 'strongly connected components of the resolved call graph; a cycle is discharged only if path facts make its closing call infeasible'
EXPLAIN = """
The call graph of the codec crates is built from the type-checked bodies: resolved calls, every implementation of an unresolved trait method, closures as callees of the function that creates them, function values passed or stored.  Only calls of a method of a bare type parameter are left out, because the type it stands
for is structurally smaller than the type of the caller, so such calls cannot return to the same instance.  Every cycle is an obligation.  A cycle is discharged when the functions on it, interpreted abstractly from the entry with the conditions of each call kept as facts (the chunk kind tested before a call),
cannot reach the function they started from.
"""
ASSUME = ['external crates (and the standard library) call back only the closures and trait methods they are given']

CRATES = {'zune_jpeg', 'zune_png', 'zune_bmp', 'zune_gif', 'zune_psd', 'zune_qoi', 'zune_ppm', 'zune_hdr', 'zune_farbfeld', 'zune_jpegxl', 'zune_inflate', 'zune_core'}


def head(s):
    s = str(s).strip()
    while s.startswith('&'):
        s = s[1:].replace('mut ', '', 1).strip() if s[1:].lstrip().startswith('mut ') else s[1:].strip()
    return s.split('<')[0].strip() if not s.startswith(('<', 'dyn ', 'for<', 'fn(', '[', '(')) else s


def param(s):
    return s.isidentifier() and s != 'Self' and s[0].isupper()


def targets(F, c):
    """functions of the workspace a call can enter; calls of a method of a bare type parameter enter none"""
    r = rid(c)
    out = {r} if r in F.fns else set()
    if c.get('trait') and 'res' not in c and F.trait_impls.get(r):
        s = head(c.get('self', 'Self'))
        if param(s):
            return set()
        for st, fid, _ in F.trait_impls[r]:
            h = head(st)
            if s == 'Self' or s.startswith(('dyn ', '<')) or param(h) or h.startswith('<') or h == s:
                out.add(fid)
    return {x for x in out if x in F.fns and F.fns[x].crate in CRATES}


def graph(F):
    G = {}
    cg = F.callgraph()
    for f in F.fns.values():
        if f.crate not in CRATES:
            continue
        maybe, sure = set(), set()
        for b, t, c in f.calls():
            if c is None:
                continue
            sure |= targets(F, c)
            r = rid(c)
            if c.get('trait') and 'res' not in c:
                maybe |= {fid for _, fid, _ in F.trait_impls.get(r, ())} | {r}
        # closures and function values come on top of the calls
        G[f.id] = {x for x in (cg.get(f.id, set()) - maybe) | sure if x in F.fns and F.fns[x].crate in CRATES}
    return G


def sccs(G):
    """components with a cycle (Tarjan, iterative)"""
    idx, low, on, st, out, n = {}, {}, set(), [], [], 0
    for root in sorted(G):
        if root in idx:
            continue
        work = [(root, iter(sorted(G[root])))]
        idx[root] = low[root] = n
        n += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in G:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(G[w]))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in G[v]:
                        out.append(sorted(comp))
    return out


def cycle(G, comp):
    """a shortest cycle through the component"""
    best = None
    cs = set(comp)
    for a in comp:
        par, q = {a: None}, [a]
        while q:
            x = q.pop(0)
            if a in G[x]:
                p = [x]
                while par[p[-1]] is not None:
                    p.append(par[p[-1]])
                p.reverse()
                if best is None or len(p) < len(best):
                    best = p
                break
            for y in sorted(G[x] & cs):
                if y not in par:
                    par[y] = x
                    q.append(y)
    return best


def reenters(F, G, comp, root):
    """can root be reached again from root, along calls inside the component? None: not settled"""
    hit = []
    cs = set(comp)
    e = Engine(F, inline=lambda fr, c, fn: fn.id in cs and fn.id != root, max_depth=len(comp) + 2, max_steps=400000)
    called = set()

    def oc(fr, b, t, c, args, st):
        if c is not None:
            ts = targets(F, c)
            called.update((fr.fn.id, r) for r in ts & cs)
            if root in ts and consistent(e, st):
                hit.append(fr.fn.name)
    e.on_call = oc
    f = F.fns[root]
    # a function value or closure may be called where the interpreter does not see it
    for x in comp:
        direct = set()
        for b, t, c in F.fns[x].calls():
            if c is not None:
                direct |= targets(F, c)
        if (G[x] & cs) - direct:
            return None, called
    try:
        e.run(f, args=[mk('arg', 'a%d' % i, i) for i in range(f.argc)])
    except (Budget, RecursionError):
        return None, called
    return bool(hit), called


def run(cx):
    F = cx.F
    G = graph(F)
    for x in G:
        cx.analysed(F.fns[x])
    comps = sccs(G)
    crates = {}
    for x in G:
        crates.setdefault(F.fns[x].crate, []).append(x)
    bad = {}
    for comp in comps:
        cyc = cycle(G, comp)
        names = ' -> '.join(F.fns[x].name for x in cyc + cyc[:1])
        # a component is free of recursion if one of its functions cannot be re-entered and the rest without it has no cycle
        done = False
        if len(comp) <= 6:
            for root in comp:
                rest = {x: G[x] & (set(comp) - {root}) for x in comp if x != root}
                if sccs(rest):
                    continue
                r, called = reenters(F, G, comp, root)
                if r is False:
                    done = True
                    break
        for c in sorted({F.fns[x].crate for x in comp}):
            bad.setdefault(c, [])
        cx.ob('cycle/' + cyc[0], done, names + (' (the call that would close the cycle is infeasible)' if done else ''), F.fns[cyc[0]].where())
    for c in sorted(CRATES):
        cx.ob('crate/' + c, bool(crates.get(c)), '%d functions, %d calls among them' % (len(crates.get(c, [])), sum(len(G[x]) for x in crates.get(c, []))))
