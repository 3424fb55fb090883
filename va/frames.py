"""Channels and frames for index maps: a frame is a family of channels of L samples each."""
from .index import *
from . import idxstd
from .idxsim import Sim, Undecided, Broken, choices, tok, ev

SZ = idxstd.SIZES
CS = 'zune_core::colorspace::ColorSpace'


class Obj:
    def __init__(s, kind, **kw):
        s.kind = kind
        s.__dict__.update(kw)

    def key(s):
        return (s.kind, id(s))


class Chan(Obj):
    """channel: memory base and length in bytes"""

    def __init__(s, base, n):
        Obj.__init__(s, 'chan', base=base, n=n)

    def key(s):
        return ('chan', s.base, s.n)

    def subst(s, sym, k):
        return Chan(idxstd.subb(s.base, sym, k), subp(s.n, sym, k))


class Frames:
    def __init__(s, F, size):
        s.F, s.size = F, size
        s.run = Run(F, s.oracle)

    def frame(s, n, L):
        """a frame with n channels of L samples"""
        seq = Seq(lambda k: Chan(('in', k), L * N(s.size)), [N(n)])
        a = s.F.adts['zune_image::frame::Frame']['v'][0]['f']
        return Var('zune_image::frame::Frame', 'Frame', [seq if f['n'] == 'channels' else TOP for f in a])

    def elem(s, c):
        g = c.get('args') or []
        return SZ.get(g[-1] if g else None, s.size)

    def oracle(s, ctx, c, args, t, b):
        n = c['name']
        op = n.split('::')[-1]
        r = s.run
        x = args[0] if args else None
        if op == 'size_of' and not args:
            return N(s.elem(c))
        if op == 'get' and len(args) == 1 and isinstance(x, P):
            return x
        if '::channel::Channel' in n:
            if op in ('new_with_length', 'new_with_length_and_type', 'new_with_bit_type', 'new_with_capacity', 'new') and (isinstance(x, P) or op == 'new'):
                nb = r.newbase('channel')
                ln = x if op.startswith('new_with_length') or op == 'new_with_bit_type' else N(0)
                r.lens[nb] = div(ln, N(s.elem(c)))
                return Chan(nb, ln)
            if isinstance(x, Chan):
                if op in ('reinterpret_as', 'reinterpret_as_mut'):
                    return Var('core::result::Result', 'Ok', [Slice(x.base, N(0), div(x.n, N(s.elem(c))))])
                if op == 'len':
                    return x.n
                if op == 'extend' and isinstance(args[1], Slice) and x.n == N(0):
                    r.lens[x.base] = args[1].len
                    x.n = args[1].len * N(s.elem(c))
                    r.write(Slice(x.base, N(0), args[1].len), r.content(args[1]), ctx.fn, t.get('l', 0))
                    return TOP
                return TOP
        if n.endswith('from_elem') and isinstance(x, Chan) and isinstance(args[1], P):
            f = r.newbase('channel')
            r.lens[f] = r.lens.get(x.base)
            return Seq(lambda k: Chan(f + (k,), x.n), [args[1]])
        return None
