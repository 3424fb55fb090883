"""C11: CPU-feature specific code only runs after the feature was detected."""
from ..tfeat import *

PROP = dict(
    id='C11',
    title='CPU-specific code paths run only on CPUs where the feature was detected',
    statement='On every execution, before code compiled for an instruction-set extension beyond the platform baseline (for example SSE4.1 or AVX2) is entered, a runtime check for that same extension (or one implying it) has succeeded. No public safe function reaches such code without the check.',
    quantifier=dict(over=['inputs', 'configurations'], text='every call path from a public function to a function requiring extra CPU features, on every CPU'),
    why_tests_cant='Tests run on one modern CPU where every extension exists, so a missing or wrong guard never misbehaves there.',
    anchors=dict(files=['crates/zune-jpeg/src/idct.rs', 'crates/zune-jpeg/src/color_convert.rs', 'crates/zune-jpeg/src/upsampler.rs', 'crates/zune-png/src/filters/de_filter.rs', 'crates/zune-png/src/utils.rs', 'crates/zune-image/src/deinterleave.rs', 'crates/zune-image/src/core_filters/colorspace/grayscale.rs', 'crates/zune-imageprocs/src/transpose.rs'],
                 mechanism=[dict(name='is_x86_feature_detected guards and DecoderOptions::use_* getters', where='dispatch functions beside each SIMD module')]))
TECHNIQUE = 'guard-dominance dataflow over MIR with obligation propagation to callers'
EXPLAIN = """
Obligations are all mentions (direct calls, function-pointer reifications, closure constructions) of functions carrying target features beyond the baseline, and of
vendor intrinsics used outside such functions.  At each mention the dataflow state must contain a successful detection of an implying feature; where the guard is a
parameter the obligation moves to every caller (with the intermediate functions analysed in place) until discharged; reaching a public safe function or an
uncalled one undischarged is a violation.
"""
ASSUME = ['is_x86_feature_detected reports the CPU truthfully', 'x86_64 only: aarch64 paths are not compiled here']


def solve(cx, F, extra=None, only=lambda f: True, want='features'):
    """extra(st, e) -> bool : additional guard condition"""
    g = Guard(F)
    work = []
    for f in F.fns.values():
        own = closure_of(set(f.d.get('tf') or [])) | BASE
        for t, n, b in g.sites[f.id]:
            need = set(g.req.get(t, ())) or ext_req(n)
            if want == 'option':
                need = set(g.req.get(t, ())) or ext_req(n) or ({'sse2'} if t in g.intr else set())
                if f.d.get('tf'):
                    continue
                if need and only(f):
                    work.append((f.id, t, n, b, need))
            else:
                need = need - own
                if need and only(f):
                    work.append((f.id, t, n, b, need))
    seen = set()
    n_roots = 0
    results = []
    for fid, t, n, b, need in sorted(work, key=lambda x: (x[0], x[3], x[1])):
        if (fid, t, b) in seen:
            continue
        seen.add((fid, t, b))
        site = F.fns[fid]
        # climb from the site function towards callers until every path is guarded
        level = [(fid, frozenset([fid]))]
        bad = None
        done = set()
        roots = 0
        for depth in range(8):
            nxt = []
            for root, path in level:
                if root in done:
                    continue
                done.add(root)
                hits = []

                def judge(fr, blk, tgt, name, st, line, e):
                    if fr.fn.id == fid and blk == b and tgt == t:
                        kf = known_features(st, e)
                        ok = need <= kf if want == 'features' else extra(st, e)
                        hits.append((ok, fr.fn.where(line)))
                try:
                    g.run_root(root, path, judge)
                except Budget:
                    bad = (F.fns[root], 'analysis budget exceeded')
                    break
                roots += 1
                n_roots += 1
                cx.analysed(F.fns[root])
                if all(o for o, _ in hits):
                    continue
                rf = F.fns[root]
                cl = [c for c in g.callers[root] if c != root]
                if rf.d.get('tf') and closure_of(rf.d['tf']) >= need and want == 'features':
                    continue
                if not cl and not rf.reach and rf.kind != 'Closure' and F.fns[root].name.split('::')[-1] != 'main':
                    continue    # private and never mentioned: cannot be entered
                if not cl or (rf.reach and not rf.d.get('unsafe') and rf.kind != 'Closure'):
                    bad = (rf, hits[-1][1] if hits else '')
                    break
                for c in cl:
                    nxt.append((c, path | {c}))
            if bad or not nxt:
                break
            level = nxt
        else:
            bad = (site, 'guard not found within 8 call levels')
        results.append((site, t, n, b, need, bad, roots))
    return results


def run(cx):
    F = cx.F
    g = [f for f in F.fns.values() if set(f.d.get('tf') or []) - BASE]
    cx.ob('inventory', len(g) >= 5, '%d functions compiled for extra CPU features' % len(g))
    for site, t, n, b, need, bad, roots in solve(cx, F):
        nm = F.fns[t].name if t in F.fns else n
        cx.ob('%s -> %s' % (site.name, nm), bad is None, 'needs %s; %s' % (sorted(need), 'guarded on all %d analysed roots' % roots if bad is None else 'unguarded when entered through %s' % bad[0].name), site.where())
