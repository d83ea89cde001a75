"""Normal form of real (and integer) terms: polynomials with rational coefficients over atoms (unknowns, applications
of uninterpreted functions to normal forms, reciprocals, conditionals). Two terms with the same normal form are equal
for every value of the unknowns (a reciprocal is an atom of its own: nothing is cancelled)."""
from fractions import Fraction as Q
import z3

_id = {}
_term = []
_memo = {}
_keep = []
LIMIT = 4000


class TooBig(Exception):
    pass


def atom(t):
    k = t.get_id()
    if k not in _id:
        _id[k] = len(_term)
        _term.append(t)
    return _id[k]


def const(c):
    return {(): Q(c)} if c else {}


def var(t):
    return {((atom(t), 1),): Q(1)}


def add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def mul(a, b):
    if len(a) * len(b) > LIMIT:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def scale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}


def val(q):
    return z3.RealVal(str(q.numerator) + '/' + str(q.denominator))


def build(p, sort=None):
    """the canonical term of a polynomial"""
    real = sort is None or sort == z3.RealSort()
    if not p:
        return z3.RealVal(0) if real else z3.IntVal(0)
    ts = []
    for m in sorted(p):
        c = p[m]
        fs = []
        for a, e in m:
            fs += [_term[a]] * e
        if c != 1 or not fs:
            fs = [val(c) if real else z3.IntVal(int(c))] + fs
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        ts.append(t)
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


def lead(p):
    m = min(p)
    return p[m]


F_INV = z3.Function('inv!', z3.RealSort(), z3.RealSort())
F_ABS = z3.Function('abs!', z3.RealSort(), z3.RealSort())


def inv(p):
    if not p:
        return var(F_INV(z3.RealVal(0)))
    if len(p) == 1:
        (m, c), = p.items()
        r = const(1 / c)
        for a, e in m:
            x = var(F_INV(_term[a]))
            for _ in range(e):
                r = mul(r, x)
        return r
    c = lead(p)
    return scale(var(F_INV(build(scale(p, 1 / c)))), 1 / c)


def real(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def cond(c):
    """canonical condition: a z3 term"""
    k = c.decl().kind() if z3.is_app(c) else None
    if k == z3.Z3_OP_NOT:
        return neg(cond(c.arg(0)))
    if k in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE):
        a, b = nf(real(c.arg(0))), nf(real(c.arg(1)))
        if k in (z3.Z3_OP_LT, z3.Z3_OP_LE):
            d = add(b, a, -1)
        else:
            d = add(a, b, -1)
        if k in (z3.Z3_OP_LT, z3.Z3_OP_GT):
            return positive(d)
        return neg(positive(scale(d, -1)))
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        xs = sorted({x.get_id(): x for x in (cond(y) for y in c.children())}.values(), key=lambda x: x.sexpr())
        return z3.And(*xs) if k == z3.Z3_OP_AND else z3.Or(*xs)
    if k == z3.Z3_OP_EQ and c.arg(0).sort() in (z3.RealSort(), z3.IntSort()):
        d = add(nf(real(c.arg(0))), nf(real(c.arg(1))), -1)
        if not d or list(d) == [()]:
            return z3.BoolVal(not d)
        return build(scale(d, 1 / lead(d))) == 0
    return z3.simplify(c)


def positive(d):
    if not d:
        return z3.BoolVal(False)
    if list(d) == [()]:
        return z3.BoolVal(d[()] > 0)
    return build(scale(d, 1 / abs(lead(d)))) > 0


def neg(c):
    if z3.is_true(c) or z3.is_false(c):
        return z3.BoolVal(z3.is_false(c))
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def absolute(p):
    if list(p) == [()] or not p:
        return const(abs(p.get((), 0)))
    c = lead(p)
    return scale(var(F_ABS(build(scale(p, 1 / c)))), abs(c))


def nf(t):
    k = t.get_id()
    r = _memo.get(k)
    if r is None:
        r = _nf(t)
        _memo[k] = r
        _keep.append(t)
    return r


def _nf(t):
    if z3.is_rational_value(t):
        return const(Q(t.numerator_as_long(), t.denominator_as_long()))
    if z3.is_int_value(t):
        return const(t.as_long())
    if not z3.is_app(t):
        return var(t)
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = add(r, nf(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = nf(ch[0])
        for c in ch[1:]:
            r = add(r, nf(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return scale(nf(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = const(1)
        for c in ch:
            r = mul(r, nf(c))
        return r
    if k == z3.Z3_OP_DIV:
        return mul(nf(ch[0]), inv(nf(ch[1])))
    if k == z3.Z3_OP_POWER:
        e = nf(ch[1])
        if list(e) == [()] and e[()].denominator == 1 and 0 < e[()] <= 16:
            r = const(1)
            for _ in range(int(e[()])):
                r = mul(r, nf(ch[0]))
            return r
    if k == z3.Z3_OP_TO_REAL:
        p = nf(ch[0])
        r = {}
        for m, c in p.items():
            q = const(c)
            for a, e in m:
                x = var(z3.ToReal(_term[a]))
                for _ in range(e):
                    q = mul(q, x)
            r = add(r, q)
        return r
    if k == z3.Z3_OP_ITE:
        c = cond(ch[0])
        if z3.is_true(c):
            return nf(ch[1])
        if z3.is_false(c):
            return nf(ch[2])
        a, b = nf(ch[1]), nf(ch[2])
        if a == b:
            return a
        if z3.is_not(c):
            c, a, b = c.arg(0), b, a
        if c.decl().kind() == z3.Z3_OP_GT and a == scale(b, -1) and t.sort() == z3.RealSort():
            # if p>0 then +-p else -+p
            p = nf(c.arg(0))
            for s in (1, -1):
                q = scale(a, s / abs(lead(a)))
                if q == p:
                    return scale(absolute(a), s)
        # the arms differ by a conditional part only
        return add(b, var(z3.If(c, build(add(a, b, -1), t.sort()), build({}, t.sort()))))
    if not ch:
        return var(t)
    cs = []
    for c in ch:
        if c.sort() == z3.RealSort() or c.sort() == z3.IntSort():
            cs.append(build(nf(c), c.sort()))
        elif c.sort() == z3.BoolSort():
            cs.append(cond(c))
        else:
            cs.append(c)
    if t.decl().eq(F_ABS):
        return absolute(nf(cs[0]))
    return var(t.decl()(*cs))


def same(a, b):
    """the terms have the same normal form"""
    try:
        if a.sort() != b.sort():
            a, b = [z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in (a, b)]
        return nf(a) == nf(b)
    except TooBig:
        return False


def depends(t, k, memo):
    """does the term mention the constant k"""
    i = t.get_id()
    r = memo.get(i)
    if r is None:
        r = t.eq(k) or any(depends(c, k, memo) for c in t.children())
        memo[i] = r
    return r


def split(p, k):
    """p as a list of (coefficient not depending on k, part depending on k only through its atoms)"""
    memo = {}
    out = {}
    for m, c in p.items():
        i = tuple((a, e) for a, e in m if depends(_term[a], k, memo))
        o = tuple((a, e) for a, e in m if not depends(_term[a], k, memo))
        out.setdefault(i, {})
        out[i] = add(out[i], {o: c})
    return [(co, {i: Q(1)}) for i, co in out.items()]
