"""B02: a default mutation step changes at most one component, by at most its rate."""
from spec import *
COMPLETE = True
import rand_
from B01 import Bx, KINDS, shape, ks, ASSUMPTIONS


def step(n, op):
    def f(eng):
        b = Bx(eng, n)
        src = b.var('src', inside=True)
        x0 = eng.load(src).kids['el'].kids['e']
        s0 = eng.load(src)
        if op == 'mut':
            eng.call_fn(eng.P.one('vroot::%s_mut' % n)['id'], [ptr_of(b.obj), ptr_of(src)])
            w = eng.load(src)
        else:
            v = b.var('v', sized=False)
            eng.call_fn(eng.P.one('vroot::%s_op' % n)['id'], [ptr_of(src), ptr_of(v), ptr_of(b.obj)])
            w = eng.load(v)
            k = z3.Int('k')
            s1 = eng.load(src)
            eng.oblige('the source is unchanged', And(s1.kids['n'] == s0.kids['n'], s1.kids['el'].kids['e'](k) == x0(k)), '', 'post')
        x1 = w.kids['el'].kids['e']
        eng.oblige('size unchanged', shape(b, w), '', 'post')
        k, j = z3.Int('k'), z3.Int('j')
        m = num(b.dim)
        pairs = [(k, j)] if m is None else [(z3.IntVal(p), z3.IntVal(q)) for p in range(m) for q in range(p)]
        eng.oblige('at most one component changes', And(*[Implies(And(p >= 0, p < b.dim, q >= 0, q < b.dim, p != q), Or(x1(p) == x0(p), x1(q) == x0(q))) for p, q in pairs]), '', 'post')
        if b.bool:
            if m is None:
                q = z3.Int('q')
                # the component drawn is the one that is flipped
                eng.oblige('exactly one component is flipped', z3.Exists([q], And(q >= 0, q < b.dim, x1(q) != x0(q))), '', 'post')
            else:
                eng.oblige('exactly one component is flipped', Or(*[x1(z3.IntVal(q)) != x0(z3.IntVal(q)) for q in range(m)]), '', 'post')
        else:
            for q in ks(b, k):
                de = b.de(q) if n[0] in 'cg' or n.startswith('fc') else z3.IntVal(1)
                d = x1(q) - x0(q)
                eng.oblige('the change is at most the component\'s rate', Implies(And(q >= 0, q < b.dim), And(d <= de, -d <= de)), '', 'post')
    return f


def build(spec):
    c = dict(contracts=dict(rand_.CONTRACTS), overflow=True)
    for n in KINDS + ['gau_AD4', 'gau_VD', 'gau_EDX']:
        spec.case('applyDelta %s' % n, step(n, 'mut'), **c)
        spec.case('default mutation operator %s' % n, step(n, 'op'), **c)
