"""N01: NSGA-II keeps the best ranks and the least crowded of the cut rank."""
from spec import *
from ga_ import *
from list_ import alive, D_, N_, LEN
import nsga_ as ns
from M02 import NAMES

OBL_TIMEOUT = 20000
COMPLETE = True
CASE_LIMIT = 300
ASSUMPTIONS = ['the list before selection is taken with all its elements alive',
               'real numbers stand for doubles in the crowding distances']


def crowding(eng, s, P0, P1, n):
    """the crowding distance sums the gaps between the neighbours in the orders by the single objectives"""
    N = eng.N0
    if len(eng.perms) != 3:
        raise Unsupported('%d sorts instead of 3' % len(eng.perms))
    (p0, i0, _, _), (p1, i1, _, _), _ = eng.perms
    T, pi, inv = s.cut
    need = ns.START(T) != s.K
    F = lambda v, o: P0.get('slot', 'el', 'fitness', 'el', 'e')(v, z3.IntVal(o))
    O = [lambda j: ns.E(p0(j)), lambda j: ns.E(p0(p1(j)))]       # the orders by the first and by the second objective
    cg = lambda v: gene(P1, v).get('congestion', 'e')
    ab = lambda r: If(r >= 0, r, -r)
    j, k = z3.Int('j'), z3.Int('k')
    ins = lambda v: And(need, v >= 0, v < N)
    last = N - 1
    gap = lambda o, q: ab(F(O[o](q - 1), o) - F(O[o](q + 1), o)) / (ab(F(O[o](z3.IntVal(0)), o) - F(O[o](last), o)) + fval(1e-10))
    inner = lambda q: And(q >= 1, q < last)
    INF = z3.Real('INF')
    if len(eng.sorted_) != 3:
        raise Unsupported('%d sorts instead of 3' % len(eng.sorted_))
    for o in (0, 1):
        eng.oblige('the individuals are ordered by objective %d' % o, Implies(And(need, j >= 0, j < k, k < N, eng.sorted_[o](j, k)), F(O[o](j), o) <= F(O[o](k), o)), '', 'post')
    q = p1(j)                                # O[0](q) is the same individual as O[1](j)
    eng.oblige('every individual has one place in each order', Implies(ins(j), And(q >= 0, q < N, i1(q) == j, O[0](q) == O[1](j))), '', 'post')
    eng.oblige('every place of the first order occurs', Implies(ins(j), And(i1(j) >= 0, i1(j) < N, p1(i1(j)) == j)), '', 'post')
    x = O[1](j)
    eng.oblige('inside both orders the crowding is the sum of the gaps', Implies(And(ins(j), inner(j), inner(q)), cg(x) == gap(0, q) + gap(1, j)), '', 'post')
    eng.oblige('at the ends of the last order the crowding is infinite', Implies(And(ins(j), Not(inner(j))), cg(x) == INF), '', 'post')
    eng.oblige('at the ends of an earlier order the crowding is infinite', Implies(And(ins(j), inner(j), Not(inner(q))), cg(x) == INF + gap(1, j)), '', 'post')


def fval(x):
    from fractions import Fraction
    return z3.RealVal(str(Fraction(x)))


def selection(n):
    def f(eng):
        s = ns.setup(eng, n)
        ns.guesses(eng)
        P0 = s.pop()
        s.run('sel')
        P1 = s.pop()
        if not s.erasing:
            raise Unsupported('no order of the individuals erased')
        SEL, AT = s.erasing
        x, y, q = z3.Int('x'), z3.Int('y'), z3.Int('q')
        N = eng.N0
        mem = lambda v: And(v >= 0, v < N)
        eng.oblige('the selected individuals are those left', Implies(mem(x), alive(P1, x) == SEL(x)), '', 'post')
        eng.oblige('only individuals from before are selected', Implies(SEL(x), mem(x)), '', 'post')
        eng.oblige('the configured number of individuals is selected', s.selsize == s.K, '', 'post')
        for fld in ('fitness', 'decision_variable', 'is_fitness_computed'):
            eng.oblige(fld + ' is not changed', Implies(mem(x), same(gene(P0, x).get(fld), gene(P1, x).get(fld), q)), '', 'post')
        eng.oblige('no individual is added', N_(P1) == N, '', 'post')
        eng.oblige('no discarded individual has a smaller rank than a kept one', Implies(And(mem(x), mem(y), alive(P1, x), Not(alive(P1, y))), ns.RK(x) <= ns.RK(y)), '', 'post')
        cg = lambda v: gene(P1, v).get('congestion', 'e')
        if not s.cut:
            raise Unsupported('no order of the individuals of the cut rank')
        T, pi, inv = s.cut
        i, j, p = z3.Int('i'), z3.Int('j'), z3.Int('p')
        E, EI, LAY, START = ns.E, ns.EI, ns.LAY, ns.START
        eng.oblige('every individual has a place in the order of the ranks', Implies(mem(x), And(mem(EI(x)), E(EI(x)) == x)), '', 'post')
        # x and y at places i and j of that order
        cut = And(mem(i), mem(j), ns.RK(E(i)) == ns.RK(E(j)), SEL(E(i)), Not(SEL(E(j))))
        pl = lambda v: inv(v - START(T))
        eng.oblige('only one rank is partly kept', Implies(cut, And(START(T) != s.K, START(T) <= i, START(T) <= j, i < START(T + 1), j < START(T + 1), pl(i) < pl(j))), '', 'post')
        eng.oblige('its individuals are in the order of their crowding', Implies(And(START(T) != s.K, p >= 0, p < q, q < START(T + 1) - START(T)),
                   cg(E(START(T) + pi(p))) >= cg(E(START(T) + pi(q)))), '', 'post')
        eng.oblige('each has its place in that order', Implies(And(START(T) != s.K, START(T) <= i, i < START(T + 1)), And(pl(i) >= 0, pl(i) < START(T + 1) - START(T), pi(pl(i)) == i - START(T))), '', 'post')
        if n != 'nx':
            crowding(eng, s, P0, P1, n)
    return f


def build(spec):
    for v in ('n2', 'ng') + (('nx',) if spec.tier == 'thorough' else ()):
        spec.case('selection (%s)' % NAMES[v], selection(v), contracts=ns.contracts_(v))
