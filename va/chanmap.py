"""Channel operations as index maps: run the body of an image operation on a symbolic channel of W x H samples."""
from .index import *
from . import idxstd
from .idxsim import Sim, Undecided, Broken, choices, tok, cond

BD = 'zune_core::bit_depth::BitDepth'
DEPTHS = {'Eight': 1, 'Sixteen': 2, 'Float32': 4}
UNIT = Tup([])


class Obj:
    def __init__(s, kind, **kw):
        s.kind = kind
        s.__dict__.update(kw)

    def key(s):
        return (s.kind, id(s))


class Chan(Obj):
    def __init__(s, base, n):
        Obj.__init__(s, 'chan', base=base, n=n)
        s.sets = []          # (guards, value) in order

    def store(s, r, v):
        s.sets.append((r.guards, tuple(r.loops), v))


class OpRun:
    """one run of an operation: events of the channel, the channel it leaves behind, the dimensions it sets, operations it calls"""

    def __init__(s, F, depth):
        s.F, s.depth = F, depth
        s.run = Run(F, s.oracle)
        s.img = Obj('image')
        s.chan = Chan('in', S('W') * S('H'))
        s.dims = []
        s.ops = []
        s.applied = 0
        s.unknown = []

    def oracle(s, ctx, c, args, t, b):
        n = c['name']
        op = n.split('::')[-1]
        r = s.run
        x = args[0] if args else None
        if op == 'execute_on' and len(args) >= 2:
            for a in args:
                if isinstance(a, Clo):
                    s.applied += 1
                    r.closure(a, [s.chan], None)
                    return Var('core::result::Result', 'Ok', [UNIT])
        if x is s.img:
            if op == 'dimensions':
                return Tup([S('W'), S('H')])
            if op == 'depth':
                return Var(BD, s.depth, [])
            if op == 'set_dimensions':
                s.dims.append((r.guards, args[1], args[2]))
                return UNIT
            if op in ('metadata', 'metadata_mut'):
                return TOP
            return None
        if op in ('execute', 'execute_impl') and 'OperationsTrait' in n and s.img in args[1:]:
            s.ops.append((r.guards, x))
            return Var('core::result::Result', 'Ok', [UNIT])
        if isinstance(x, Chan):
            if op in ('reinterpret_as', 'reinterpret_as_mut'):
                return Var('core::result::Result', 'Ok', [Slice(x.base, N(0), x.n)])
            if op == 'len':
                return x.n * N(DEPTHS[s.depth])
            if op in ('clone',):
                nb = r.newbase('channel')
                r.lens[nb] = x.n
                r.write(Slice(nb, N(0), x.n), Slice(x.base, N(0), x.n), ctx.fn, t.get('l', 0))
                return Chan(nb, x.n)
            return TOP
        if op in ('new_with_length_and_type', 'new_with_bit_type', 'new_with_length') and '::channel::' in n and isinstance(x, P):
            nb = r.newbase('channel')
            ln = div(x, N(DEPTHS[s.depth]))
            r.lens[nb] = ln
            return Chan(nb, ln)
        return None

    def go(s, fn, selfv):
        s.ret = s.run.call(fn, [selfv, s.img])
        return s

    def result(s, sizes, choice):
        """(tokens of the channel, dims) for given sizes"""
        sim = Sim(s.run, sizes, {'in': (sizes['W'] * sizes['H'], lambda i: ('in', i))}, choice)
        out = 'in'
        for g, loops, v in s.chan.sets:
            if sim.fails(g):
                continue
            if any(n is None or any(c != N(1) for c in n) for _, n in loops) or not isinstance(v, Chan):
                raise Undecided('channel replaced by an unknown one')
            out = v.base
        sim.go(out)
        dims = (sizes['W'], sizes['H'])
        for g, w, h in s.dims:
            if sim.fails(g):
                continue
            if not isinstance(w, P) or not isinstance(h, P):
                raise Undecided('dimensions set to unknown values')
            from .idxsim import ev
            dims = (ev(w, sim.env), ev(h, sim.env))
        return sim.buf(out), dims
