"""Linear integer arithmetic over abstract values: does a set of path facts imply an inequality?
Fourier-Motzkin elimination over the rationals (sound: 'yes' is a proof, 'no' is 'not proved')."""
from fractions import Fraction
from .engine import V, intc, cv, uncast, mk

ISIZE_MAX = (1 << 63) - 1
ONE = None


def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + c * k
        if r[x] == 0:
            del r[x]
    return r


class Lin:
    def __init__(s, signed=lambda v: False, rewrite=None):
        s.signed = signed
        s.rewrite = rewrite or (lambda v: v)
        s.atoms = {}

    def form(s, v, d=0):
        """linear form of a value: {atom or None: coefficient}"""
        v = s.rewrite(uncast(v))
        if intc(v):
            c = int(cv(v))
            return {None: Fraction(c)} if c else {}
        if v.tag == 'op' and d < 40:
            op, x, y = v.a
            if op == 'Add':
                return add(s.form(x, d + 1), s.form(y, d + 1))
            if op == 'Sub':
                return add(s.form(x, d + 1), s.form(y, d + 1), -1)
            if op == 'Mul':
                fx, fy = s.form(x, d + 1), s.form(y, d + 1)
                for p, q in ((fx, fy), (fy, fx)):
                    if not p or set(p) == {None}:
                        c = p.get(None, 0)
                        return {k: w * c for k, w in q.items()} if c else {}
                v = mk('prod', tuple(sorted(factor(v), key=lambda w: w.n)))
            if op == 'Shl' and intc(y):
                return {k: w * (1 << cv(y)) for k, w in s.form(x, d + 1).items()}
        s.atoms[v] = 1
        return {v: Fraction(1)}

    def axioms(s, seen):
        """inequalities (form <= 0) true of the atoms met so far"""
        out = []
        work = [a for a in s.atoms if a not in seen]
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            A = {a: Fraction(1)}
            if not s.signed(a):
                out.append({a: Fraction(-1)})
            if a.tag == 'op':
                op, x, y = a.a
                fx, fy = s.form(x), s.form(y)
                if op == 'Min':
                    out += [add(A, fx, -1), add(A, fy, -1)]
                elif op == 'Max':
                    out += [add(fx, A, -1), add(fy, A, -1)]
                elif op == 'SatAdd':
                    out += [add(fx, A, -1), add(fy, A, -1), add(A, add(fx, fy), -1)]
                elif op == 'SatSub':
                    out += [add(A, fx, -1), add(add(fx, fy, -1), A, -1)]
                elif op == 'SatMul':
                    out.append(add(A, s.form(mk('op', 'Mul', x, y)), -1))
                elif op in ('Div', 'Shr') and intc(y) and cv(y) > 0:
                    c = cv(y) if op == 'Div' else 1 << cv(y)
                    q = {a: Fraction(c)}
                    out += [add(q, fx, -1), add(add(fx, q, -1), {None: Fraction(-(c - 1))})]
                elif op == 'Rem':
                    out.append(add(A, fx, -1))
                    if intc(y):
                        out.append(add(A, {None: Fraction(-(cv(y) - 1))}))
                elif op == 'BitAnd':
                    out += [add(A, fx, -1), add(A, fy, -1)]
            work += [x for x in s.atoms if x not in seen]
        return out

    def facts(s, facts):
        out = []
        for f in facts:
            if len(f) > 2 and f[0] in ('le', 'lt', 'eq') and isinstance(f[1], V) and isinstance(f[2], V):
                d = add(s.form(f[1]), s.form(f[2]), -1)
                if f[0] == 'lt':
                    d = add(d, {None: Fraction(1)})
                out.append(d)
                if f[0] == 'eq':
                    out.append({k: -w for k, w in d.items()})
        return out


def factor(v):
    v = uncast(v)
    if v.tag == 'op' and v.a[0] == 'Mul':
        return factor(v.a[1]) + factor(v.a[2])
    return [v]


def infeasible(cons, limit=4000):
    """no rational solution of all (form <= 0)?"""
    cons = {tuple(sorted(((-1 if k is None else k.n), w) for k, w in c.items())) for c in cons}

    def norm(c):
        m = max((abs(w) for k, w in c if k != -1), default=None)
        if m is None:
            return c
        return tuple((k, w / m) for k, w in c)
    cons = {norm(c) for c in cons}
    while True:
        new = set()
        for c in cons:
            vs = [k for k, w in c if k != -1]
            if not vs:
                if sum(w for k, w in c) > 0:
                    return True
                continue
            new.add(c)
        cons = new
        if not cons:
            return False
        cnt = {}
        for c in cons:
            for k, w in c:
                if k != -1:
                    p = cnt.setdefault(k, [0, 0])
                    p[w > 0] += 1
        v = min(cnt, key=lambda k: (cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1], k))
        pos, neg, rest = [], [], set()
        for c in cons:
            d = dict(c)
            if v in d:
                (pos if d[v] > 0 else neg).append(d)
            else:
                rest.add(c)
        for p in pos:
            for n in neg:
                a, b = p[v], -n[v]
                r = {}
                for k, w in p.items():
                    r[k] = r.get(k, 0) + w * b
                for k, w in n.items():
                    r[k] = r.get(k, 0) + w * a
                rest.add(norm(tuple(sorted((k, w) for k, w in r.items() if w))))
        cons = rest
        if len(cons) > limit:
            return False


def relevant(cons, goal):
    """constraints connected to the goal's atoms"""
    atoms = {k for k in goal if k is not None}
    left, out = list(cons), []
    while True:
        nxt = []
        for c in left:
            if any(k in atoms for k in c if k is not None):
                out.append(c)
            else:
                nxt.append(c)
        new = {k for c in out for k in c if k is not None}
        if new <= atoms or len(nxt) == len(left):
            return out + [c for c in nxt if set(c) <= {None}]
        atoms |= new
        left = nxt


def implies(facts, goal, lin=None, extra=()):
    """goal: ('le'|'lt'|'eq', V, V)"""
    lin = lin or Lin()
    if goal[0] == 'eq':
        return implies(facts, ('le', goal[1], goal[2]), lin, extra) and implies(facts, ('le', goal[2], goal[1]), lin, extra)
    d = add(lin.form(goal[1]), lin.form(goal[2]), -1)
    # negation: a - b > 0  (or >= 0 for lt)   ->   b - a + 1 <= 0
    g = {k: -w for k, w in d.items()}
    if goal[0] == 'le':
        g = add(g, {None: Fraction(1)})
    cons = lin.facts(facts) + lin.facts(extra)
    seen = set()
    cons += lin.axioms(seen)
    if not any(k is not None for k in g):
        return infeasible([g]) or infeasible(cons)
    cons = relevant(cons, g)
    # saturating additions that are known not to saturate are sums
    for a in list(lin.atoms):
        if a.tag == 'op' and a.a[0] in ('SatAdd', 'SatMul') and (a,) not in seen:
            top = {a: Fraction(-1), None: Fraction(ISIZE_MAX + 1)}
            if infeasible(relevant(cons, top) + [top]):
                x = lin.form(a.a[1]), lin.form(a.a[2])
                ex = add(*x) if a.a[0] == 'SatAdd' else lin.form(mk('op', 'Mul', a.a[1], a.a[2]))
                cons.append(add(ex, {a: Fraction(1)}, -1))
    return infeasible(cons + [g])
