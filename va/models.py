"""Models of the standard-library calls the code under analysis relies on."""
import re
from .engine import mk, C, isc, intc, cv, binop, unop, cast, widening, _W, V, uncast, rebase
from .facts import rname

UNIT = mk('agg', 'tuple', '', '', (), ())
SIZES = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'char': 4, 'u64': 8, 'i64': 8, 'f64': 8, 'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16}


def enum(kind, var, *fs):
    p = {'O': 'core::option::Option', 'R': 'core::result::Result', 'C': 'core::ops::control_flow::ControlFlow'}[kind]
    return mk('agg', 'adt', p, var, tuple(fs), tuple(str(i) for i in range(len(fs))))


def kindof(ty):
    ty = ty.lstrip('&')
    ty = re.sub(r"^('\w+ )?(mut )?", '', ty)
    if ty.startswith('core::option::Option') or ty.startswith('std::option::Option'):
        return 'O'
    if ty.startswith('core::result::Result') or ty.startswith('std::result::Result'):
        return 'R'
    return None


def payload(e, st, v, var):
    return e.project(st, v, (('d', 0, var), ('f', 0, '0')))


def rng(e, st, v):
    """(start, end, full) of a range value; None when not recognised"""
    if v.tag == 'agg' and v.a[0] == 'adt':
        n = v.a[1].split('::')[-1]
        fs = v.a[3]
        if n == 'RangeTo':
            return C(0), fs[0]
        if n == 'RangeFrom':
            return fs[0], None
        if n == 'Range':
            return fs[0], fs[1]
        if n == 'RangeFull':
            return C(0), None
        if n == 'RangeToInclusive':
            return C(0), binop('Add', fs[0], C(1))
    if v.tag == 'zst' and 'RangeFull' in v.a[0]:
        return C(0), None
    if v.tag == 'rangeinc':
        return v.a[0], binop('Add', v.a[1], C(1))
    return None


def simplevalty(ty):
    return ty.lstrip('&') in _W


def sliceptr(e, st, r, ty):
    """slice pointer for a reference argument to a slice / array / Vec"""
    if 'Vec<' in ty or 'String' in ty:
        c = e.content(st, r)
        if '&mut' in ty and r.tag == 'ref':
            return mk('sptr', r.a[0], e.vlen(c) or mk('len', c))
        return mk('slice_of', c)
    return r


def sub(e, st, ptr, start, end, ty=''):
    ln = e.len_of(st, ptr, ty)
    if end is None:
        end_ = ln
    else:
        end_ = end
    n = end_ if (intc(start) and cv(start) == 0) else binop('Sub', end_, start)
    return mk('sub', ptr, n, start)


COMB = {'map': (1, None), 'and_then': (1, None), 'map_or': (2, None), 'map_or_else': (2, 1), 'unwrap_or_else': (None, 1), 'or_else': (None, 1),
        'is_some_and': (1, None), 'is_ok_and': (1, None), 'ok_or_else': (None, 1), 'filter': (1, None), 'map_err': (None, 1)}


def combinator(e, fr, b, t, c, args, st, op, isopt, good, bad):
    """Option / Result methods taking closures, evaluated like the match they stand for"""
    if op == 'map_err' and not getattr(e, 'map_err', False):
        return None
    fg, fb = COMB[op]
    fns = {}
    for i in (fg, fb):
        if i is None:
            continue
        v = args[i]
        if v.tag == 'ref':
            v = e.readfull(st, v.a[0])
        fn = e.F.fns.get(v.a[1]) if v.tag == 'agg' and v.a[0] == 'closure' else e.F.fns.get(v.a[0]) if v.tag == 'fn' else None
        if fn is None:
            if i == fb and op in ('ok_or_else', 'or_else', 'unwrap_or_else') and False:
                continue
            return None
        if fr.depth >= e.max_depth or e.recursive(fr, fn) or not e.inline(fr, dict(name=fn.name, fn=fn.id, args=[]), fn):
            return None
        fns[i] = fn
    a = args[0]
    kind = 'O' if isopt else 'R'

    def call(i, s_, xs):
        fn = fns[i]
        x = [args[i], mk('agg', 'tuple', '', '', tuple(xs), ())] if fn.kind == 'Closure' else list(xs)
        r = e.enter(fr, b if len(fns) == 1 else (b, i), t, None, fn, x, s_)
        if r == 'never' or r is None:
            return None
        s_.mem, s_.facts = r[0].mem, r[0].facts
        return r[1]
    outs = []
    s1 = st.copy()
    if e.assume_is(s1, a, good, True):
        x = e.resolve(s1, a)
        p = payload(e, s1, x, good)
        if op == 'filter':
            r = call(fg, s1, [boxin(s1, fr, b, p)])
            if r is not None:
                for val in (True, False):
                    s2 = s1.copy()
                    if e.assume_bool(s2, r, val):
                        outs.append((s2, x if val else enum('O', 'None')))
        else:
            if fg is not None:
                r = call(fg, s1, [p])
            else:
                r = p
            if r is not None:
                if op == 'map':
                    r = enum(kind, good, r)
                elif op == 'or_else':
                    r = x
                elif op in ('ok_or_else', 'map_err'):
                    r = enum('R', 'Ok', r)
                outs.append((s1, r))
    s1 = st.copy()
    if e.assume_is(s1, a, bad, True):
        x = e.resolve(s1, a)
        if op in ('map', 'and_then', 'filter'):
            r = enum('O', 'None') if isopt else enum('R', 'Err', mk('err', x))
        elif op == 'map_or':
            r = args[1]
        elif op in ('is_some_and', 'is_ok_and'):
            r = C(False)
        else:
            r = call(fb, s1, [] if isopt else [payload(e, s1, x, bad)])
            if r is not None and op in ('ok_or_else', 'map_err'):
                r = enum('R', 'Err', r)
        if r is not None:
            outs.append((s1, r))
    if not outs:
        return mk('bot')
    cell = ((fr.id, 'cmb', b),)
    for s_, r in outs:
        s_.mem[cell] = r
    if len(outs) == 1:
        m = outs[0][0]
    else:
        m = e.merge((fr.id, b, 'cmb'), [s_ for s_, r in outs])
    r = m.mem.pop(cell)
    st.mem, st.facts = m.mem, m.facts
    return r


def boxin(st, fr, b, v):
    p = ((fr.id, 'cmbarg', b),)
    st.mem[p] = v
    return mk('ref', p, False)


def builtin(e, fr, b, t, c, args, st):
    n = c['name']
    rn = c.get('resname', n)
    at = t['at']
    dt = t['dt']
    site = (fr.id, b)

    if n == 'core::ops::try_trait::Try::branch':
        k = kindof(at[0])
        good = 'Some' if k == 'O' else 'Ok'

        def f(r):
            var = e.variant(st, r)
            if var == good:
                return enum('C', 'Continue', payload(e, st, r, good))
            if var is not None and var != '⊥':
                return enum('C', 'Break', mk('resid', r))
            if r.tag == 'bot':
                return r
            return mk('cf', r, good)
        return e.vmap(st, args[0], f)
    if n == 'core::ops::try_trait::FromResidual::from_residual':
        if kindof(dt) == 'O':
            return enum('O', 'None')
        return enum('R', 'Err', mk('err', args[0]))
    if n in ('core::ops::try_trait::Try::from_output',):
        return enum(kindof(dt), 'Some' if kindof(dt) == 'O' else 'Ok', args[0])

    # ---- Option / Result combinators
    m = re.match(r'^core::(option::Option|result::Result)::<[^>]*>::(\w+)$', n)
    if m:
        op = m.group(2)
        isopt = m.group(1).startswith('option')
        good, bad = ('Some', 'None') if isopt else ('Ok', 'Err')
        a = args[0]
        if op in COMB:
            r = combinator(e, fr, b, t, c, args, st, op, isopt, good, bad)
            if r is not None:
                return r
        if op in ('map_err', 'inspect_err', 'or_else') and op != 'or_else':
            def f(r):
                if e.variant(st, r) == 'Err':
                    return enum('R', 'Err', mk('err', r))
                return r
            return e.vmap(st, a, f)
        if op in ('ok_or', 'ok_or_else'):
            def f(r):
                v = e.variant(st, r)
                if v == 'Some':
                    return enum('R', 'Ok', payload(e, st, r, 'Some'))
                if v == 'None':
                    return enum('R', 'Err', mk('err', r))
                return mk('vm', r, (('Ok', 'Some'), ('Err', 'None')))
            return e.vmap(st, a, f)
        if op in ('ok',) and not isopt:
            def f(r):
                v = e.variant(st, r)
                if v == 'Ok':
                    return enum('O', 'Some', payload(e, st, r, 'Ok'))
                if v == 'Err':
                    return enum('O', 'None')
                return mk('vm', r, (('Some', 'Ok'), ('None', 'Err')))
            return e.vmap(st, a, f)
        if op in ('is_some', 'is_ok', 'is_none', 'is_err'):
            want = {'is_some': 'Some', 'is_ok': 'Ok', 'is_none': 'None', 'is_err': 'Err'}[op]
            v = e.content(st, a)

            def f(r):
                k = e.variant(st, r)
                if k is not None:
                    return C(k == want)
                return mk('isv', r, want)
            return e.vmap(st, v, f)
        if op in ('unwrap', 'expect'):
            if not e.assume_is(st, a, good, True):
                return mk('bot',)
            return payload(e, st, e.resolve(st, a), good)
        if op == 'unwrap_or':
            def f(r):
                k = e.variant(st, r)
                if k == good:
                    return payload(e, st, r, good)
                if k == bad:
                    return args[1]
                return mk('uwo', payload(e, st, r, good), args[1], r)
            return e.vmap(st, a, f)
        if op in ('as_ref', 'as_mut', 'as_deref', 'copied', 'cloned', 'as_deref_mut'):
            if op in ('copied', 'cloned'):
                def f(r):
                    k = e.variant(st, r)
                    if k == 'Some':
                        p = payload(e, st, r, 'Some')
                        return enum('O', 'Some', e.content(st, p))
                    if k == 'None':
                        return r
                    return mk('vm', r, (('Some', 'Some'), ('None', 'None')))
                return e.vmap(st, a, f)
            if a.tag == 'ref':
                v = e.content(st, a)
                k = e.variant(st, v)
                if k == good:
                    return enum('O' if isopt else 'R', good, mk('ref', a.a[0] + (('d', 0, good), ('f', 0, '0')), op == 'as_mut'))
                if k == bad:
                    return v
                return mk('refopt', v, a.a[0], op == 'as_mut')
            return None
        if op in ('map', 'and_then', 'filter', 'map_or', 'unwrap_or_else', 'map_or_else'):
            k = e.variant(st, a)
            if op == 'map':
                if k == bad:
                    return enum('O', 'None') if isopt else enum('R', 'Err', mk('err', a))
                r = mk('sym', 'map', fr.id, b)
                if k == good:
                    return enum('O' if isopt else 'R', good, r)
                return mk('vm', a, ((good, good), (bad, bad)), r)
            return None
        if op == 'take':
            v = e.content(st, a)
            if a.tag == 'ref':
                e.write(st, a.a[0], enum('O', 'None'))
            return v
        return None

    if n in ('core::bool::<impl bool>::then_some', 'core::bool::<impl bool>::then'):
        return mk('condopt', args[0], args[1] if n.endswith('some') else mk('sym', 'then', fr.id, b))

    # ---- integers
    m = re.match(r'^core::num::<impl (\w+)>::(\w+)$', n)
    if m:
        ty, op = m.groups()
        w = {'wrapping_add': 'Add', 'wrapping_sub': 'Sub', 'wrapping_mul': 'Mul'}
        if op in w:
            return e.lift2(st, lambda x, y: binop(w[op], x, y, ty), args[0], args[1])
        if op in ('checked_mul', 'checked_add', 'checked_sub'):
            o = {'mul': 'Mul', 'add': 'Add', 'sub': 'Sub'}[op[8:]]
            r = binop(o, args[0], args[1], ty)
            if op == 'checked_sub':
                return mk('condopt', binop('Le', args[1], args[0]), r)
            return mk('checked', r)
        if op == 'is_multiple_of':
            return binop('Eq', binop('Rem', args[0], args[1], ty), C(0))
        if op in ('saturating_add', 'saturating_sub', 'saturating_mul'):
            if intc(args[0]) and intc(args[1]):
                o = {'mul': 'Mul', 'add': 'Add', 'sub': 'Sub'}[op[11:]]
                v = cv(binop(o, args[0], args[1]))
                if ty in _W:
                    lo, hi = (0, (1 << _W[ty]) - 1) if ty[0] == 'u' else (-(1 << (_W[ty] - 1)), (1 << (_W[ty] - 1)) - 1)
                    return C(max(lo, min(hi, v)))
            return mk('op', 'Sat' + op[11:].capitalize(), args[0], args[1])
        if op in ('unsigned_abs', 'abs', 'pow', 'abs_diff', 'to_be', 'to_le', 'swap_bytes', 'leading_zeros', 'trailing_zeros', 'count_ones', 'div_ceil', 'rotate_left', 'rotate_right', 'from_be_bytes', 'from_le_bytes', 'from_ne_bytes', 'to_be_bytes', 'to_le_bytes', 'to_ne_bytes', 'overflowing_add', 'overflowing_mul', 'next_power_of_two', 'is_power_of_two', 'reverse_bits', 'checked_div', 'checked_rem', 'checked_shl', 'checked_next_power_of_two'):
            if op == 'pow' and all(map(intc, args)):
                return C(cv(args[0]) ** cv(args[1]))
            return mk('call', n, tuple(args))
        return None
    if n in ('core::cmp::Ord::min', 'core::cmp::min', 'core::cmp::Ord::max', 'core::cmp::max'):
        o = 'Min' if n.endswith('min') else 'Max'
        x, y = args
        if intc(x) and intc(y):
            return C(min(cv(x), cv(y)) if o == 'Min' else max(cv(x), cv(y)))
        if x.n > y.n:
            x, y = y, x
        return mk('op', o, x, y)
    if n == 'core::cmp::Ord::clamp':
        x, lo, hi = args
        if intc(x) and intc(lo) and intc(hi):
            return C(max(cv(lo), min(cv(hi), cv(x))))
        return mk('op', 'Max', mk('op', 'Min', x, hi), lo)
    if n == 'core::default::Default::default':
        if dt in _W:
            return C(False) if dt == 'bool' else C(0)
        if kindof(dt) == 'O':
            return enum('O', 'None')
        if dt.startswith('alloc::vec::Vec<') or dt.startswith('alloc::string::String'):
            return mk('vec', C(0), site)
        return None
    if n in ('core::convert::From::from', 'core::convert::Into::into'):
        if at[0] == dt:
            return args[0]
        if at[0] in _W and dt in _W:
            return e.lift1(st, lambda x: cast(x, at[0], dt), args[0])
        return None
    if n in ('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into'):
        if at[0] in _W and 'Result<' in dt:
            if intc(args[0]):
                m = re.search(r'Result<(\w+),', dt)
                if m and m.group(1) in _W:
                    x = cv(args[0])
                    w = m.group(1)
                    lo, hi = (0, (1 << _W[w]) - 1) if w[0] == 'u' else (-(1 << (_W[w] - 1)), (1 << (_W[w] - 1)) - 1)
                    return enum('R', 'Ok', args[0]) if lo <= x <= hi else enum('R', 'Err', mk('err', args[0]))
            return mk('tryfrom', args[0], dt)
        return None

    # ---- comparisons through references
    if n in ('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne'):
        if args[0].tag == 'cstr' and args[1].tag == 'cstr':
            return C((args[0] is args[1]) == n.endswith('eq'))
        x, y = e.content(st, args[0]), e.content(st, args[1])
        while x.tag == 'ref' and y.tag == 'ref':
            x, y = e.content(st, x), e.content(st, y)
        ty = c['self'] if 'self' in c else ''

        def eqv(x, y):
            for p, q in ((x, y), (y, x)):
                if p.tag == 'agg' and p.a[0] == 'adt' and not p.a[3]:
                    k = e.variant(st, q)
                    if k is not None:
                        return C(k == p.a[2])
                    if p.a[1] in e.F.adts and e.F.adts[p.a[1]]['kind'] == 'Enum' or p.a[1].startswith('core::option') or p.a[1].startswith('core::cmp'):
                        return mk('isv', q, p.a[2])
            if x.tag == 'agg' and y.tag == 'agg' and x.a[0] == y.a[0] == 'adt' and x.a[2] != y.a[2]:
                return C(False)
            if x.tag == 'agg' and y.tag == 'agg' and len(x.a[3]) == len(y.a[3]) and x.a[3]:
                r = C(True)
                for p, q in zip(x.a[3], y.a[3]):
                    r = binop('BitAnd', r, eqv(p, q), 'bool')
                return r
            if x is y and isc(x):
                return C(True)
            if x.tag == 'cstr' and y.tag == 'cstr':
                return C(x is y)
            return binop('Eq', x, y)
        r = e.lift2(st, eqv, x, y)
        if n.endswith('ne'):
            r = e.lift1(st, lambda v: unop('Not', v, 'bool'), r)
        return r
    m = re.match(r'^core::cmp::PartialOrd::(lt|le|gt|ge)$', n)
    if m:
        x, y = e.content(st, args[0]), e.content(st, args[1])
        while x.tag == 'ref' and y.tag == 'ref':
            x, y = e.content(st, x), e.content(st, y)
        return binop({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[m.group(1)], x, y)

    # ---- references, slices, vectors
    if n in ('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned'):
        if n.endswith('to_owned') and '[' in at[0]:
            return mk('vec', e.len_of(st, args[0], at[0]), site)
        return e.content(st, args[0])
    if n in ('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow',
             'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice'):
        if 'Vec<' in at[0] or 'String' in at[0]:
            return sliceptr(e, st, args[0], at[0])
        if at[0] == dt:
            return args[0]
        return None
    if n in ('core::slice::<impl [T]>::len', 'alloc::vec::Vec::<T, A>::len', 'core::str::<impl str>::len', 'alloc::string::String::len'):
        return e.len_of(st, sliceptr(e, st, args[0], at[0]), at[0])
    if n in ('core::slice::<impl [T]>::is_empty', 'alloc::vec::Vec::<T, A>::is_empty', 'core::str::<impl str>::is_empty'):
        return binop('Eq', e.len_of(st, sliceptr(e, st, args[0], at[0]), at[0]), C(0))
    if n == 'alloc::vec::from_elem':
        return mk('vec', args[1], site)
    if n in ('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity'):
        return mk('vec', C(0), site)
    if n == 'alloc::vec::Vec::<T, A>::resize' and args[0].tag == 'ref':
        e.write(st, args[0].a[0], mk('vec', args[1], site))
        return UNIT
    if n == 'alloc::slice::<impl [T]>::to_vec':
        return mk('vec', e.len_of(st, args[0], at[0]), site)
    if n == 'alloc::slice::<impl [T]>::into_vec' or n == 'alloc::vec::Vec::<T, A>::into_boxed_slice':
        return args[0]
    if n in ('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut'):
        r = rng(e, st, args[1])
        if r is not None:
            ptr = sliceptr(e, st, args[0], at[0])
            s_, en = r
            ln = e.len_of(st, ptr, at[0])
            p = sub(e, st, ptr, s_, en, at[0])
            if en is not None:
                e.assume(st, ('le', en, ln)) if not (intc(en) and intc(ln)) else None
            elif not (intc(s_) and cv(s_) == 0):
                e.assume(st, ('le', s_, ln)) if not intc(ln) else None
            return p
        if 'Vec<' in at[0] and at[1] == 'usize':
            if args[0].tag == 'ref' and not n.endswith('mut'):
                cont = e.content(st, args[0])
                return mk('cref', mk('proj', cont, ('i', args[1])))
            return mk('sptr', ('eptr', fr.id, b), C(1))
        return None
    if n in ('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut'):
        ptr = sliceptr(e, st, args[0], at[0])
        ln = e.len_of(st, ptr, at[0])
        r = rng(e, st, args[1])
        if r is not None:
            s_, en = r
            cond = binop('Le', en if en is not None else s_, ln)
            return mk('condopt', cond, sub(e, st, ptr, s_, en, at[0]))
        if at[1] == 'usize':
            return mk('condopt', binop('Lt', args[1], ln), mk('ref', rebase(('*', ptr), args[1]) or ('*', ptr, ('i', args[1])), n.endswith('mut')))
        return None
    if n == 'core::mem::size_of':
        a = fr.ty(c['args'][0])
        if a in SIZES:
            return C(SIZES[a])
        return mk('call', n, (mk('ty', a),))
    if n == 'core::any::TypeId::of':
        return mk('typeid', fr.ty(c['args'][0]))
    if n in ('core::mem::take', 'core::mem::replace') and args[0].tag == 'ref':
        v = e.content(st, args[0])
        e.write(st, args[0].a[0], args[1] if n.endswith('replace') else mk('sym', 'default', fr.id, b))
        return v
    if n == 'core::mem::swap' and args[0].tag == 'ref' and args[1].tag == 'ref':
        x, y = e.content(st, args[0]), e.content(st, args[1])
        e.write(st, args[0].a[0], y)
        e.write(st, args[1].a[0], x)
        return UNIT
    if n == 'core::iter::traits::collect::IntoIterator::into_iter':
        if at[0] == dt:
            return args[0]
        return None
    if n == 'core::ops::range::RangeInclusive::<Idx>::new':
        return mk('rangeinc', args[0], args[1])
    if n == 'core::ops::range::RangeInclusive::<Idx>::contains' or n == 'core::ops::range::Range::<Idx>::contains':
        r = e.content(st, args[0])
        x = e.content(st, args[1])
        rr = rng(e, st, r)
        if r.tag == 'rangeinc':
            return binop('BitAnd', binop('Le', r.a[0], x), binop('Le', x, r.a[1]), 'bool')
        if rr is not None and rr[1] is not None:
            return binop('BitAnd', binop('Le', rr[0], x), binop('Lt', x, rr[1]), 'bool')
        return None
    if n.startswith('std_detect::detect::arch::'):
        return mk('call', n, ())
    if n.startswith('core::fmt::') or n.startswith('log::') or n == 'alloc::fmt::format' or n == 'core::hint::must_use':
        return mk('sym', n, fr.id, b)
    if n == 'core::num::nonzero::NonZero::<T>::get':
        return mk('nz', e.resolve(st, args[0]))
    if n in ('core::hint::black_box', 'core::intrinsics::likely', 'core::intrinsics::unlikely', 'alloc::boxed::Box::<T>::new') and at and at[0] == dt:
        return args[0]
    return None
