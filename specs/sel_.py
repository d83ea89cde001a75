"""Shared parts of S01 and S02: the selection step of the single-objective solver."""
from spec import *
from ga_ import *
from list_ import alive, D_, N_, LEN

METHODS = {'trunc': 'truncation', 'roul': 'roulette wheel', 'tour': 'tournament', 'monte': 'Monte Carlo', 'prob': 'probability',
           'lin': 'linear rank', 'expo': 'exponential rank', 'boltz': 'Boltzmann', 'stoch': 'stochastic universal', 'elite': 'elite reserving'}

ASSUMPTIONS = ['the list before selection is taken with all its elements alive (slots of individuals erased in earlier generations are not represented)',
               'fitness values are finite; arithmetic on them is over the reals',
               'populations have fewer than 2^30 individuals',
               'loops that retry a random choice end (almost surely): termination is not proved']


class Sel(GA):
    def __init__(s, eng, m, d):
        GA.__init__(s, eng, m + d)
        s.m, s.d = m, d
        eng.sel = s
        s.P0 = s.pop()
        s.N, s.K = N_(s.P0), s.opt('populationSize')
        b = s.get('best')
        s.bestLoc = b
        s.b0 = z3.Int('best0')
        eng.assume(And(s.N >= 1, s.N < (1 << 30), s.K >= 1, s.K < (1 << 30), s.b0 >= 0, s.b0 < s.N))
        eng.store(b, ptr_of(s.popLoc.f('slot').i(s.b0), z3.BoolVal(False)))
        if m == 'tour':
            s.par = eng.load(s.get('par')).kids['e']
            eng.assume(And(s.par >= 2, s.par < s.K))
        if m == 'elite':
            s.par = eng.load(s.get('par')).kids['e']
            eng.assume(And(s.par >= 1, s.par <= s.K))
        s.fail0 = eng.load(s.get('fail')).kids['e']

    def better(s, a, b):
        return a < b if s.d == 'l' else a > b

    def fit0(s, x):
        return gene(s.P0, x).get('fitness', 'e')

    def elites(s, P1):
        """the elite individuals are those the first sort of the step puts in front"""
        eng = s.eng
        if not eng.perms:
            raise Unsupported('no ordering of the population to name the elite by')
        pi, inv, lo, hi = eng.perms[0]
        q, j = z3.Int('q'), z3.Int('j')
        iq = And(q >= 0, q < s.par)
        eng.oblige('the configured number of best individuals survives', Implies(And(s.N > s.K, iq), alive(P1, pi(q))), '', 'post')
        eng.oblige('no other individual is better than an elite one', Implies(And(s.N > s.K, iq, j >= 0, j < s.N, inv(j) >= s.par),
                   Not(s.better(s.fit0(j), s.fit0(pi(q))))), '', 'post')
        eng.oblige('all individuals survive a selection without surplus', Implies(And(s.N <= s.K, j >= 0, j < s.N), alive(P1, j)), '', 'post')

    def select(s):
        s.run('sel')


def any_draw(eng, e):
    """randD in selection: the value drawn does not matter for what is specified here"""
    for a in e['args']:
        eng.ev(a)
    return sc(eng.fresh('randD', R))


def best_contract(d):
    better = lambda a, b: a < b if d == 'l' else a > b

    def h(eng, e):
        l = eng.objloc(e)
        s = eng.sel
        P = s.pop()
        eng.oblige('the current best is looked for in a non-empty population', LEN(P) >= 1, e.get('loc', ''), 'pre')
        b = eng.fresh('currentBest', I)
        fit = lambda x: gene(P, x).get('fitness', 'e')
        j = z3.Int('cb!j')
        eng.pcfact(And(alive(P, b), z3.ForAll([j], Implies(alive(P, j), Not(better(fit(j), fit(b)))))))
        return ptr_of(s.popLoc.f('slot').i(b), z3.BoolVal(False))
    return h


def sel_contracts(v):
    c = contracts(v)
    c['heu::SOGA::findCurrentBestGene'] = best_contract(v[-1])
    c['heu::randD'] = any_draw
    return c
