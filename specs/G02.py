"""G02: breeding only adds offspring and never alters existing individuals."""
from spec import *
from ga_ import *
COMPLETE = True

ASSUMPTIONS = ['fitness values and decision variables are copied and handed to the operators only: real numbers stand for doubles exactly',
               'user operators write exactly the child variables they are given and do not keep pointers',
               'populations have fewer than 2^30 individuals']


def step(n, what):
    def f(eng):
        s = GA(eng, n)
        P0 = s.pop()
        N = eng.N0
        eng.assume(N < (1 << 30))
        s.run(what)
        P1 = s.pop()
        M = P1.get('slot', 'n')
        i, k = z3.Int('i'), z3.Int('k')
        ins, new = And(i >= 0, i < N), And(i >= N, i < M)
        a, b = gene(P0, i), gene(P1, i)
        eng.oblige('no individual is removed', And(M >= N, P1.get('len', 'e') == M, Implies(And(i >= 0, i < M), Not(P1.get('dead', 'el', 'e')(i)))), '', 'post')
        eng.oblige('individuals already there keep decision variable, fitness and evaluation state', Implies(ins, same(a, b, k)), '', 'post')
        eng.oblige('every child is marked unevaluated', Implies(new, Not(b.get('is_fitness_computed', 'e'))), '', 'post')
        eng.oblige('every child is written by exactly one operator call', Implies(new, calls(eng, 'child')(i) == 1), '', 'post')
        eng.oblige('no individual is a parent more than once', Implies(ins, And(calls(eng, 'par')(i) >= 0, calls(eng, 'par')(i) <= 1)), '', 'post')
        eng.oblige('at most as many children as individuals before', M - N <= N, '', 'post')
        if what == 'cross':
            eng.oblige('the number of children is even', (M - N) % 2 == 0, '', 'post')
    return f


def build(spec):
    for v in ('so', 'se', 'n2', 'nx', 'n3'):
        spec.case('crossover (%s)' % NAMES[v], step(v, 'cross'), contracts=contracts(v))
        spec.case('mutate (%s)' % NAMES[v], step(v, 'mutate'), contracts=contracts(v))
