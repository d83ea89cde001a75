"""S01: single-objective selection always leaves a legal population."""
from spec import *
from ga_ import *
import sel_
from list_ import alive, D_, N_, LEN

COMPLETE = True
CASE_LIMIT = 240
ASSUMPTIONS = sel_.ASSUMPTIONS


def legal(m, d):
    def f(eng):
        s = sel_.Sel(eng, m, d)
        P0, N, K = s.P0, s.N, s.K
        s.select()
        P1 = s.pop()
        M = N_(P1)
        i, j, k = z3.Int('i'), z3.Int('j'), z3.Int('k')
        old = And(i >= 0, i < N)
        eng.oblige('exactly min(size before, configured size) individuals are left', LEN(P1) == If(N <= K, N, K), '', 'post')
        eng.oblige('individuals from before keep their content and their order', Implies(old, same(gene(P0, i), gene(P1, i), k)), '', 'post')
        if m != 'tour':
            eng.oblige('no individual is added', M == N, '', 'post')
        else:
            s.copies(P1, M)
        fit = lambda x: gene(P0, x).get('fitness', 'e')
        if m == 'trunc':
            eng.oblige('every survivor is at least as good as every discarded individual',
                       Implies(And(old, j >= 0, j < N, alive(P1, i), Not(alive(P1, j))), Not(s.better(fit(j), fit(i)))), '', 'post')
        if m == 'elite':
            s.elites(P1)
    return f


def build(spec):
    for m in sel_.METHODS:
        if m == 'tour':
            continue        # executable contract only
        for d in 'lg':
            spec.case('%s, %s is better' % (sel_.METHODS[m], {'l': 'less', 'g': 'greater'}[d]), legal(m, d), contracts=sel_.sel_contracts(m + d))
