"""B01: bounded decision variables never leave their declared box."""
from spec import *
COMPLETE = True
import rand_

ASSUMPTIONS = ['real numbers stand for doubles and floats; the clamps use only comparisons and copies, for which this is exact, '
               'and rounding to float of a double between two floats stays between them',
               'random helpers are used through their contracts (verified under R01)']
KINDS = ['dsq_' + v for v in 'AI4 VI VU8 VS16 VU32 EIX EI3 EI32 EIXX'.split()] + ['dre_' + v for v in 'AI4 VI VU8 VS16 VU32 EIX EI3 EI32 EIXX'.split()] + \
    ['csq_' + v for v in 'AD4 VD VF ED5 EDX EFX EM23 EMX'.split()] + ['cre_' + v for v in 'AD4 VD VF ED5 EDX EFX EM23 EMX'.split()] + \
    ['bsq_AB6', 'bsq_EBX', 'bsq_EBXX', 'fix_AI4', 'fix_VI', 'fix_VU8', 'fix_EIX', 'fcx_AD4', 'fcx_VD', 'fcx_VF', 'fcx_EDX', 'fcx_EMX']


class Bx:
    """an arbitrary configured box of one kind, seen through its public accessors"""

    def __init__(s, eng, n):
        s.eng, s.n = eng, n
        f = eng.P.one('vroot::%s_dim' % n)
        T = eng.P.ty(f['params'][0]['t'])['to']
        s.V = eng.P.ty(eng.P.one('vroot::%s_con' % n)['params'][1]['t'])['to']
        s.obj = eng.new('box', eng.sym(T, 'box'))
        s.bool = n.startswith('bsq')
        k = z3.Int('k?')
        s.dim = simp(s.get('dim'))
        s.free = n.startswith('gau')
        t = {x: s.get(x, sc(k)) for x in (() if s.free else ('lo', 'hi')) + (('de',) if n[0] == 'c' or n.startswith('fc') or s.free else ())}
        at = lambda x: (lambda i: z3.substitute(t[x], (k, i)))
        if not s.free:
            s.lo, s.hi = at('lo'), at('hi')
        s.de = at('de') if 'de' in t else (lambda i: z3.RealVal(1))
        s.sq = eng.seqinfo(s.V)
        # class invariant of a configured box
        e = eng
        e.assume(And(s.dim >= 1, s.dim < (1 << 31)))
        O = e.load(s.obj)
        for fn, v in O.kids.items():
            if v.kind == 'arr':
                e.assume(v.kids['n'] == s.dim)
                if 'r' in v.kids:
                    a, b = s.rc()
                    e.assume(And(v.kids['r'] == a, v.kids['c'] == b))
        if s.sq[1] == 'mat' and s.sq[2] is None:
            a, b = s.rc()
            e.assume(And(a >= 1, b >= 1, a < (1 << 31), b < (1 << 31)))
            e.assume(a * b == s.dim)
        if not s.bool:
            q = z3.Int('kb')
            f = [s.lo(q) < s.hi(q)] if not s.free else []
            if 'de' in t:
                f.append(s.de(q) > 0)
            f = And(*f)
            e.assume(z3.ForAll([q], Implies(And(q >= 0, q < s.dim), f)))

    def rc(s):
        O = s.eng.load(s.obj)
        if '_rows' in O.kids:
            return O.get('_rows', 'e'), O.get('_cols', 'e')
        for fn, v in O.kids.items():
            if v.kind == 'arr' and 'r' in v.kids:
                return v.kids['r'], v.kids['c']
        return None

    def get(s, what, *a):
        e = s.eng
        e.quiet += 1
        try:
            r = e.call_fn(e.P.one('vroot::%s_%s' % (s.n, what))['id'], [ptr_of(s.obj)] + list(a))
        finally:
            e.quiet -= 1
        return r.kids['e']

    def var(s, name, sized=True, inside=False):
        e = s.eng
        l = e.new(name, e.sym(s.V, name))
        v = e.load(l)
        if sized:
            e.assume(v.kids['n'] == s.dim)
            if 'r' in v.kids and s.sq[2] is None:
                a, b = s.rc()
                e.assume(And(v.kids['r'] == a, v.kids['c'] == b))
        if inside and not s.bool and not s.free:
            q = z3.Int('kv')
            x = v.kids['el'].kids['e']
            e.assume(z3.ForAll([q], Implies(And(q >= 0, q < s.dim), And(s.lo(q) <= x(q), x(q) <= s.hi(q)))))
        return l

    def inside(s, x, k):
        if s.bool or s.free:
            return z3.BoolVal(True)
        return And(s.lo(k) <= x, x <= s.hi(k))


def ks(b, k):
    m = num(b.dim)
    return [k] if m is None else [z3.IntVal(j) for j in range(m)]


def shape(b, v):
    f = v.kids['n'] == b.dim
    if 'r' in v.kids and b.sq[2] is None:
        r, c = b.rc()
        f = And(f, v.kids['r'] == r, v.kids['c'] == c)
    return f


def clamp(x, lo, hi):
    return If(x < lo, lo, If(x > hi, hi, x))


def init(n, op):
    def f(eng):
        b = Bx(eng, n)
        v = b.var('v', sized=False)
        eng.call_fn(eng.P.one('vroot::%s_%s' % (n, op))['id'], [ptr_of(b.obj), ptr_of(v)] if op == 'init' else [ptr_of(v), ptr_of(b.obj)])
        w = eng.load(v)
        k = z3.Int('k')
        eng.oblige('the variable gets the declared shape', shape(b, w), '', 'post')
        for q in ks(b, k):
            eng.oblige('every component within its limits', Implies(And(q >= 0, q < b.dim), b.inside(w.kids['el'].kids['e'](q), q)), '', 'post')
    return f


def con(n):
    def f(eng):
        b = Bx(eng, n)
        v = b.var('v')
        x0 = eng.load(v).kids['el'].kids['e']
        eng.call_fn(eng.P.one('vroot::%s_con' % n)['id'], [ptr_of(b.obj), ptr_of(v)])
        w = eng.load(v)
        k = z3.Int('k')
        eng.oblige('size unchanged', shape(b, w), '', 'post')
        for q in ks(b, k):
            x1 = w.kids['el'].kids['e'](q)
            eng.oblige('every component moves to the nearest point of its interval', Implies(And(q >= 0, q < b.dim), x1 == (x0(q) if b.bool else clamp(x0(q), b.lo(q), b.hi(q)))), '', 'post')
    return f


def one(n):
    def f(eng):
        b = Bx(eng, n)
        v = b.var('v')
        i = z3.Int('i')
        eng.assume(And(i >= 0, i < b.dim))
        x0 = eng.load(v).kids['el'].kids['e']
        eng.call_fn(eng.P.one('vroot::%s_one' % n)['id'], [ptr_of(b.obj), ptr_of(v), sc(i)])
        w = eng.load(v)
        k = z3.Int('k')
        eng.oblige('size unchanged', shape(b, w), '', 'post')
        for q in ks(b, k):
            x1 = w.kids['el'].kids['e'](q)
            c = x0(q) if b.bool else If(q == i, clamp(x0(q), b.lo(q), b.hi(q)), x0(q))
            eng.oblige('one-component form constrains that component only', Implies(And(q >= 0, q < b.dim), x1 == c), '', 'post')
    return f


def mut(n):
    def f(eng):
        b = Bx(eng, n)
        v = b.var('v', inside=True)
        eng.call_fn(eng.P.one('vroot::%s_mut' % n)['id'], [ptr_of(b.obj), ptr_of(v)])
        w = eng.load(v)
        k = z3.Int('k')
        eng.oblige('size unchanged', shape(b, w), '', 'post')
        for q in ks(b, k):
            eng.oblige('a default mutation stays within the limits', Implies(And(q >= 0, q < b.dim), b.inside(w.kids['el'].kids['e'](q), q)), '', 'post')
    return f


def build(spec):
    c = dict(contracts=dict(rand_.CONTRACTS), overflow=True)
    for n in KINDS:
        spec.case('initialize %s' % n, init(n, 'init'), **c)
        spec.case('default initialisation operator %s' % n, init(n, 'ini'), **c)
        spec.case('applyConstraint %s' % n, con(n), **c)
        spec.case('applyConstraint of one component %s' % n, one(n), **c)
        spec.case('applyDelta %s' % n, mut(n), **c)
