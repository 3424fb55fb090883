"""C35: the arithmetic of an operation gets the caller's parameters, the same for every depth."""
from ..opsem import *
from .c20 import SPACES, key_of
from ..core import NoAnswer

PROP = dict(
    id='C35',
    title='Operation parameters reach the arithmetic, the same for every sample depth',
    statement='The sample arithmetic of an image operation is given the caller\'s parameters and the image\'s dimensions, whichever sample depth the image has and whether or not threads are used: a parameter (radius, sigma, threshold, crop offset, requested width...) that reaches the 8-bit arithmetic '
              'also determines the argument of that name of the 16-bit and float arithmetic, an argument named like a parameter is computed from that parameter and not from another one, an argument called width (height) never is the height (width) of the image, '
              'and an argument called max value is 255 for 8-bit, 65535 for 16-bit and 1.0 for float images.',
    quantifier=dict(over=['inputs', 'configurations'], text='every operation, sample depth and parameter value, with and without the threads feature'),
    why_tests_cant='Tests exercise one depth with one set of parameters, mostly on square images where width and height are interchangeable, and only in the build with threads.',
    anchors=dict(files=['crates/zune-imageprocs/src/*.rs'], mechanism=[dict(name='execute_impl of every OperationsTrait implementation', where='crates/zune-imageprocs/src')]))
TECHNIQUE = 'abstract interpretation of MIR over images with symbolic dimensions and parameters: provenance of the arguments of every arithmetic kernel, compared across depths and build configurations'
EXPLAIN = """
While execute_impl of every operation is interpreted abstractly on symbolic images, the scalar arguments of each arithmetic kernel (a function on plain sample slices) are recorded as expressions over the fields of the operation and
the dimensions of the image. Arguments are identified by the kernel's parameter names.
"""
ASSUME = ['kernels are not entered', 'AutoOrient, which chains other operations, is exempt from the width/height rule']


def num(v):
    try:
        return float(str(v).strip("'").replace('f:', ''))
    except ValueError:
        return None


def run(cx):
    tab, ats = {}, {}
    fields = {}
    MAX = dict(Eight=255.0, Sixteen=65535.0, Float32=1.0)
    nk = set()
    for (conf, w, k, nf), n, bad, und, ker, ex in sweep(cx, 'flow', SPACES[cx.tier], 1):
        t, c, d, v, al = k
        F = cx.facts(conf)
        f = ops(F)[t]['execute_impl']
        cx.analysed(f)
        at = '%s (%s:%d)' % (f.name, f.file, f.line)
        op = short(t)
        ats[op] = at
        kt = t if t in F.adts else re.sub(r'<.*', '', t)
        fields[op] = {x['n'] for x in F.adts[kt]['v'][0]['f']} if kt in F.adts else set()
        for (kn, pn), vals in ex:
            nk.add((conf, op, kn))
            for what, users, text in vals:
                tab.setdefault((op, pn), {}).setdefault((d, conf), set()).add((kn, what, users, text))
    for (op, pn), per in sorted(tab.items()):
        bad = []
        allv = {x for s in per.values() for x in s}
        users = {k: frozenset(u for _, _, u, _ in s) for k, s in per.items()}
        if any(u for s in users.values() for u in s):
            ref = users[min(users)]
            for k, s in sorted(users.items()):
                if s != ref:
                    bad.append('%s samples%s: %s is computed from %s, for %s from %s' % (k[0], '' if k[1] == 'default' else ' without threads', pn, names(s), min(users)[0], names(ref)))
        if pn in fields[op] and len(fields[op]) > 1:
            for kn, what, u, text in allv:
                if pn not in u and (u or what):
                    bad.append('argument %s of %s is %s' % (pn, kn, text))
        if op != 'AutoOrient':
            for kn, what, u, text in allv:
                for a, b in (('width', 'height'), ('height', 'width')):
                    if a in pn and b not in pn and what is not None and what.endswith('.' + b):
                        bad.append('argument %s of %s is the %s of the image' % (pn, kn, b))
        if 'max' in pn and op != 'Depth':
            for (d, conf), s in per.items():
                for kn, what, u, text in s:
                    if num(text) is not None and num(text) != MAX[d]:
                        bad.append('argument %s of %s is %s for %s samples' % (pn, kn, text, d))
        cx.ob('%s %s' % (op, pn), not bad, '; '.join(sorted(set(bad)))[:600] if bad else '%d depth/configuration pairs, %d values' % (len(per), len(allv)), ats[op])
    cx.extra['kernels reached'] = len(nk)
    if len({o for o, _ in tab}) < 12:
        raise NoAnswer('only %d operations analysed' % len({o for o, _ in tab}))


def names(s):
    return ' or '.join(sorted(', '.join(u) or 'constants and dimensions' for u in s))
