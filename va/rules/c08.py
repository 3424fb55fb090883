"""C08: results depend on the input and the options only."""
import re
from ..lib import *
from ..facts import rid, rname
from .c09 import CRATES

PROP = dict(
    id='C08',
    title='Results depend only on the given data and options, not on history or environment',
    statement='Decoding, encoding and image operations are functions of the data, options and parameters they are given: what they compute does not depend on the clock, environment variables, files they were not given, random numbers or the iteration order of hash tables, nor on what the process decoded or processed before '
              '(no static or thread-local variable carries anything from one call into another, other than whether a message was logged). The same call gives the same bytes in every process.',
    quantifier=dict(over=['histories', 'configurations', 'inputs'], text='every sequence of calls, every process and environment'),
    why_tests_cant='A test makes one call in a fresh process; a value cached from the first call, or an order that differs between processes, gives the expected result there.',
    anchors=dict(files=['crates/zune-*/src/**'], mechanism=[dict(name='HashMap of header fields', where='crates/zune-hdr/src/encoder.rs'), dict(name='Instant (trace output only)', where='crates/zune-imageprocs/src/resize.rs'), dict(name='Once (trace output only)', where='crates/zune-imageprocs/src/transpose.rs')]))
TECHNIQUE = 'effect inventory over the resolved call graph with forward dataflow from every nondeterministic source; inventory of statics by mutability'
EXPLAIN = """
Every function of the codecs, the image crate, the image operations and the C and WebAssembly bindings is searched for (1) calls that read the clock, environment, thread identity, process or random numbers, or iterate a hash table; (2) statics and thread locals that can change after start: mutable ones and ones of a type with
interior mutability.  The value of a source is followed through the function; it may end in formatted log or console output, but not in a branch, a return value, memory or any other call.  Iterating a hash table is accepted only where the function sorts what it collects, or collects it into an ordered map.  A static cell
is accepted if it is a Once whose closure only logs, or it is initialised by a function without captured values.  Opening files is allowed in the crates whose interface takes paths.  CPU feature detection is the subject of C11 and C12.
"""
ASSUME = ['results do not depend on CPU features or the number of threads (C43 and N02, C21)', 'logging has no effect on results']

SCOPE = CRATES | {'zune_image', 'zune_imageprocs', 'zil_c', 'zune_wasm'}
FILES = {'zune_image', 'zil_c', 'zune_wasm', 'zune_core'}
SOURCE = re.compile(r'std::time::(Instant|SystemTime)(>|::| as )|std::env::|std::process::|std::thread::(current|available_parallelism|park)|std::thread::Thread::|std::net::|getrandom|nanorand|fastrand|rand::|std::hash::random|std::collections::hash::(map|set)::(RandomState|DefaultHasher)|std::random::')
HASHITER = re.compile(r'std::collections::hash::(map::HashMap|set::HashSet)<[^>]*> as core::iter::traits::collect::IntoIterator>::into_iter|std::collections::hash::(map::HashMap|set::HashSet)::<[^>]*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if)$')
FS = re.compile(r'std::fs::|std::os::')
PASS = re.compile(r'std::time::|core::time::|core::fmt::|alloc::fmt::|core::ops::|core::convert|core::clone')
END = re.compile(r'log::|std::io::stdio::_e?print|core::fmt::rt::|core::mem::drop|core::ptr::drop')
MUTABLE = re.compile(r'\b(Atomic\w*|Mutex|RwLock|RefCell|Cell|UnsafeCell|OnceLock|OnceCell|LazyLock|LazyCell|LocalKey|Once)\b')


def locals_of(x, out):
    """locals an operand or rvalue reads"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ('c', 'm'):
            out.add(x[1] if isinstance(x[1], int) else x[1][0])
            return out
        if x and x[0] in ('ref', 'raw'):
            out.add(x[2] if isinstance(x[2], int) else x[2][0])
            return out
        if x and x[0] in ('len', 'discr') and len(x) > 1:
            out.add(x[1] if isinstance(x[1], int) else x[1][0])
            return out
        for y in x:
            locals_of(y, out)
    return out


def leaks(F, f, start):
    """where a value leaves the logging path: description or None"""
    taint = set(start)
    for _ in range(40):
        n = len(taint)
        for b in f.blocks:
            for s in b['s']:
                if s[0] != '=':
                    continue
                if locals_of(s[2], set()) & taint:
                    d = s[1] if isinstance(s[1], int) else s[1][0]
                    if not isinstance(s[1], int) and '*' in s[1][1]:
                        return 'is stored through a reference'
                    if d == 0 or d <= f.argc:
                        return 'is returned'
                    taint.add(d)
            t = b['t']
            if t['k'] == 'switch' and locals_of(t.get('d'), set()) & taint:
                return 'decides a branch'
            if t['k'] == 'switch' and any(locals_of(t.get(k), set()) & taint for k in ('o', 'v', 'op')):
                return 'decides a branch'
            if t['k'] == 'call' and any(locals_of(a, set()) & taint for a in t['a']):
                c = t['f'][1].get('v') if isinstance(t['f'][1], dict) else None
                nm = rname(c) if isinstance(c, dict) and 'fn' in c else '?'
                if END.search(nm) and not nm.startswith('core::fmt::rt::'):
                    continue
                if PASS.search(nm) or nm.startswith('core::fmt::rt::'):
                    d = t.get('d')
                    d = d if isinstance(d, int) else d[0] if d else None
                    if d == 0:
                        return 'is returned'
                    if d is not None:
                        taint.add(d)
                    continue
                return 'is passed to ' + nm
        if len(taint) == n:
            return None
    return None


def run(cx):
    F = cx.F
    per = {}
    for f in F.fns.values():
        if f.crate not in SCOPE or 'test' in f.name.split('::')[-1] and f.name.split('::')[-1].startswith('test_'):
            continue
        per[f.crate] = per.get(f.crate, 0) + 1
        cx.analysed(f)
        names = []
        for b, t, c in f.calls():
            if c is None:
                continue
            names.append((b, t, rname(c)))
        for b, t, n in names:
            if SOURCE.search(n):
                d = t.get('d')
                d = d if isinstance(d, int) else d[0] if d else 0
                why = leaks(F, f, {d}) if d else 'is returned'
                cx.ob('source/%s/%s' % (f.name, n), why is None, 'the result of %s %s' % (n, why) if why else 'used for logging only', f.where(t.get('l')))
            if HASHITER.search(n):
                rest = [x for _, _, x in names]
                fine = any(re.search(r'::sort(_\w+)?$', x) for x in rest) or any('collect' in x and 'BTree' in str(t2.get('dt')) for _, t2, x in names)
                cx.ob('hash/%s/%s' % (f.name, n.split('::')[-1]), fine, 'iterates a hash table in its random order' if not fine else 'sorted afterwards', f.where(t.get('l')))
            if FS.search(n) and f.crate not in FILES:
                cx.ob('file/%s/%s' % (f.name, n), False, 'a codec or operation opens files: ' + n, f.where(t.get('l')))
            if re.search(r'std::sync::(poison::)?once::Once::call_once', n):
                bad = None
                cl = [g for g in F.closures_of(f.id)]
                a = t['a'][1] if len(t['a']) > 1 else None
                for g in cl:
                    for _, _, c2 in g.calls():
                        m = rname(c2) if c2 is not None else '?'
                        if not (END.search(m) or PASS.search(m) or m.startswith('core::')) and is_once_closure(F, f, g, t):
                            bad = m
                cx.ob('once/%s' % f.name, bad is None, 'what runs once per process calls %s' % bad if bad else 'what runs once per process only logs', f.where(t.get('l')))
            if re.search(r'(OnceLock|OnceCell|LazyLock|LazyCell)::<[^>]*>::(get_or_init|get_or_try_init|set|force)', n):
                caps = [g for g in F.closures_of(f.id) if captures(g)]
                cx.ob('once/%s/%s' % (f.name, n.split('::')[-1]), not (caps or n.endswith('::set')), 'a value computed from captured variables is kept for later calls' if caps else 'initialised without captured values', f.where(t.get('l')))
    for c in sorted(F.consts.values(), key=lambda c: c['name']):
        if c['id'].split('::')[0] not in SCOPE:
            continue
        if c.get('mut'):
            cx.ob('static/' + c['name'], False, 'mutable static', c['name'])
        elif MUTABLE.search(c['t']) and (c.get('static') or 'LocalKey' in c['t']):
            kind = MUTABLE.search(c['t']).group(1)
            okay = kind in ('Once', 'OnceLock', 'OnceCell', 'LazyLock', 'LazyCell')
            cx.ob('static/' + c['name'], okay, 'static of type %s carries state from call to call' % c['t'] if not okay else 'set once (its initialisation is judged where it is used)', c['name'])
        elif c.get('static'):
            cx.ob('static/' + c['name'], True, 'constant')
    for c in sorted(SCOPE):
        cx.ob('crate/' + c, per.get(c, 0) > 0, '%d functions' % per.get(c, 0))


def captures(g):
    """does a closure body read its environment"""
    for b in g.blocks:
        for s in b['s']:
            if s[0] == '=' and 1 in locals_of(s[2], set()) | deep_base(s[2]):
                return True
        t = b['t']
        if t['k'] == 'call' and any(1 in locals_of(a, set()) for a in t['a']):
            return True
    return False


def deep_base(x):
    out = set()
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            out.add(x[0])
        for y in x:
            out |= deep_base(y)
    return out


def is_once_closure(F, f, g, t):
    """is closure g the one given to this call"""
    a = t['a'][1] if len(t['a']) > 1 else None
    ids = set()
    def find(x):
        if isinstance(x, list):
            for y in x:
                find(y)
        elif isinstance(x, dict):
            v = x.get('v')
            if isinstance(v, dict) and 'fn' in v:
                ids.add(v['fn'])
            if x.get('closure'):
                ids.add(x['closure'])
    find(a)
    return g.id in ids or not ids
