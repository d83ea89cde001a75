"""M01: Pareto dominance is exactly the definition; the definition is a strict partial order."""
from spec import *
COMPLETE = True

ASSUMPTIONS = ['objective values are modelled as real numbers: comparisons of finite doubles are exact, NaN is outside the contract']


def dominance(name, greater):
    def f(eng):
        fn = eng.P.one('vroot::' + name)
        V = eng.P.ty(fn['params'][0]['t'])['to']
        pool = eng.new('vectors', Node('arr', (V, 'vector', None), {'n': z3.IntVal(2), 'el': eng.sym(V, 'v', 1)}))
        P = eng.load(pool).kids['el']
        i, j = z3.Int('i'), z3.Int('j')
        n = P.kids['n'](i)
        eng.assume(And(i >= 0, i < 2, j >= 0, j < 2, P.kids['n'](j) == n))
        a = lambda k: P.kids['el'].kids['e'](i, k)
        b = lambda k: P.kids['el'].kids['e'](j, k)
        P0 = eng.load(pool)
        r = eng.call_fn(fn['id'], [ptr_of(pool.i(i)), ptr_of(pool.i(j))]).kids['e']
        k = z3.Int('k')
        ins = And(k >= 0, k < n)
        nw = (lambda x, y: x >= y) if greater else (lambda x, y: x <= y)
        st = (lambda x, y: x > y) if greater else (lambda x, y: x < y)
        m = num(z3.simplify(n))
        if m is not None:
            ks = [z3.IntVal(x) for x in range(m)]
            d = And(*[nw(a(x), b(x)) for x in ks], Or(*[st(a(x), b(x)) for x in ks]))
        else:
            d = And(z3.ForAll([k], Implies(ins, nw(a(k), b(k)))), z3.Exists([k], And(ins, st(a(k), b(k)))))
        eng.oblige('dominates only if no worse everywhere and strictly better somewhere', Implies(r, d), '', 'post')
        eng.oblige('dominates if no worse everywhere and strictly better somewhere', Implies(d, r), '', 'post')
        q = z3.Int('q')
        P1 = eng.load(pool)
        eng.oblige('the vectors are not modified', P1.kids['el'].kids['el'].kids['e'](q, k) == P0.kids['el'].kids['el'].kids['e'](q, k), '', 'post')
        eng.oblige('irreflexive', Implies(i == j, Not(r)), '', 'post')
    return f


def order(name):
    """from the contract alone, as callers see it: asymmetric and transitive for every size"""
    def f(eng):
        fn = eng.P.one('vroot::' + name)
        V = eng.P.ty(fn['params'][0]['t'])['to']
        pool = eng.new('vectors', Node('arr', (V, 'vector', None), {'n': z3.IntVal(3), 'el': eng.sym(V, 'v', 1)}))
        n = eng.load(pool).kids['el'].kids['n']
        ix = [z3.IntVal(x) for x in range(3)]
        eng.assume(And(n(ix[0]) == n(ix[1]), n(ix[1]) == n(ix[2])))
        d = lambda x, y: eng.call_fn(fn['id'], [ptr_of(pool.i(ix[x])), ptr_of(pool.i(ix[y]))]).kids['e']
        ab, ba, bc, ac, aa = d(0, 1), d(1, 0), d(1, 2), d(0, 2), d(0, 0)
        eng.oblige('irreflexive', Not(aa), '', 'post')
        eng.oblige('asymmetric', Not(And(ab, ba)), '', 'post')
        eng.oblige('transitive', Implies(And(ab, bc), ac), '', 'post')
    return f


def build(spec):
    for m in ('2', '3', '4', '10', 'x'):
        for d in ('lt', 'gt'):
            spec.case('%s objectives, %s better' % (m if m != 'x' else 'run-time number of', {'lt': 'less', 'gt': 'greater'}[d]), dominance(d + '_' + m, d == 'gt'))
            spec.case('%s objectives, %s better: strict partial order' % (m if m != 'x' else 'run-time number of', {'lt': 'less', 'gt': 'greater'}[d]), order(d + '_' + m))
