"""V01: default crossover operators only recombine the two parents."""
from spec import *
COMPLETE = True
import rand_

VARIANTS = ['sa', 'ea', 'sv', 'ex']


def setup(eng, name, xvar):
    f = eng.P.one('vroot::' + name)
    V = eng.P.ty(f['params'][0]['t'])['to']
    sq = eng.seqinfo(V)
    # both parents live in one array of variables, at arbitrary (possibly equal) places
    pool = eng.new('parents', Node('arr', (V, 'vector', None), {'n': z3.IntVal(2), 'el': eng.sym(V, 'p', 1)}))
    i1, i2 = z3.Int('i1'), z3.Int('i2')
    c1, c2 = eng.new('c1', eng.sym(V, 'c1')), eng.new('c2', eng.sym(V, 'c2'))
    P = eng.load(pool).kids['el']
    n1, n2 = P.kids['n'](i1), P.kids['n'](i2)
    eng.assume(And(i1 >= 0, i1 < 2, i2 >= 0, i2 < 2))
    eng.assume(And(n1 == n2, n1 >= 1, n1 < (1 << 31)))
    if not xvar:
        eng.assume(And(eng.load(c1).kids['n'] == n1, eng.load(c2).kids['n'] == n1))
    args = [ptr_of(pool.i(i1)), ptr_of(pool.i(i2)), ptr_of(c1), ptr_of(c2)]
    a = lambda k: P.kids['el'].kids['e'](i1, k)
    b = lambda k: P.kids['el'].kids['e'](i2, k)
    return f, args, a, b, n1, pool, c1, c2, eng.load(pool)


def finish(eng, pool, P0, c1, c2, n):
    k, j = z3.Int('k'), z3.Int('j')
    C1, C2 = eng.load(c1), eng.load(c2)
    eng.oblige('first child has the parents\' size', C1.kids['n'] == n, '', 'post')
    eng.oblige('second child has the parents\' size', C2.kids['n'] == n, '', 'post')
    P1 = eng.load(pool)
    eng.oblige('parents are not modified',
               And(P1.kids['el'].kids['el'].kids['e'](j, k) == P0.kids['el'].kids['el'].kids['e'](j, k),
                   P1.kids['el'].kids['n'](j) == P0.kids['el'].kids['n'](j)), '', 'post')
    return lambda k: C1.kids['el'].kids['e'](k), lambda k: C2.kids['el'].kids['e'](k), k


def arith(name, x):
    def f(eng):
        fn, args, a, b, n, pool, c1, c2, P0 = setup(eng, name, x)
        eng.call_fn(fn['id'], args)
        u, v, k = finish(eng, pool, P0, c1, c2, n)
        r = z3.Q(1, 5)
        ins = And(k >= 0, k < n)
        ab = lambda x: If(x >= 0, x, -x)
        # the constant r is the double nearest to 1/5: compare up to 1e-12 relative
        near = lambda x, y: ab(x - y) <= (ab(a(k)) + ab(b(k))) * z3.Q(1, 10**12)
        eng.oblige('first child is r*a+(1-r)*b in every component', Implies(ins, near(u(k), r * a(k) + (1 - r) * b(k))), '', 'post')
        eng.oblige('second child is r*b+(1-r)*a in every component', Implies(ins, near(v(k), r * b(k) + (1 - r) * a(k))), '', 'post')
    return f


def swap(name, x):
    def f(eng):
        fn, args, a, b, n, pool, c1, c2, P0 = setup(eng, name, x)
        cuts = []

        def ridx(eng_, e):
            v = rand_.randIdx(eng_, e)
            cuts.append(v.kids['e'])
            return v
        eng.contracts['heu::randIdx'] = ridx
        eng.call_fn(fn['id'], args)
        u, v, k = finish(eng, pool, P0, c1, c2, n)
        j = z3.Int('j2')
        ins = And(k >= 0, k < n)
        comp = lambda k: Or(And(u(k) == a(k), v(k) == b(k)), And(u(k) == b(k), v(k) == a(k)))
        eng.oblige('one-point children are complementary', Implies(ins, comp(k)), '', 'post')
        # a single cut: a prefix comes from one parent, the rest from the other
        cut = cuts[-1] if cuts else eng.fresh('cut', I)
        pre = lambda k: If(k < cut, And(u(k) == a(k), v(k) == b(k)), And(u(k) == b(k), v(k) == a(k)))
        suf = lambda k: If(k < cut, And(u(k) == b(k), v(k) == a(k)), And(u(k) == a(k), v(k) == b(k)))
        q = z3.Int('q')
        eng.oblige('a single cut separates the parents\' parts', Or(z3.ForAll([q], Implies(And(q >= 0, q < n), pre(q))),
                                                                  z3.ForAll([q], Implies(And(q >= 0, q < n), suf(q)))), '', 'post')
    return f


def rnd(name, x):
    def f(eng):
        fn, args, a, b, n, pool, c1, c2, P0 = setup(eng, name, x)
        eng.call_fn(fn['id'], args)
        u, v, k = finish(eng, pool, P0, c1, c2, n)
        ins = And(k >= 0, k < n)
        eng.oblige('first child takes a parent\'s value in every component', Implies(ins, Or(u(k) == a(k), u(k) == b(k))), '', 'post')
        eng.oblige('second child takes a parent\'s value in every component', Implies(ins, Or(v(k) == a(k), v(k) == b(k))), '', 'post')
    return f


def build(spec):
    for v in VARIANTS:
        for x in ([False, True] if v in ('sv', 'ex') else [False]):
            nm = v + ('_x' if x else '_')
            spec.case(v + ('/run-time' if x else '') + ' arithmetic', arith(nm + 'arith', x), contracts=dict(rand_.CONTRACTS), overflow=True)
            spec.case(v + ('/run-time' if x else '') + ' one-point', swap(nm + 'swap', x), contracts=dict(rand_.CONTRACTS), overflow=True)
            spec.case(v + ('/run-time' if x else '') + ' uniform', rnd(nm + 'rand', x), contracts=dict(rand_.CONTRACTS), overflow=True)
