"""P02: personal and global bests never get worse and are true bests."""
from spec import *
COMPLETE = True
import rand_
import obj_

ASSUMPTIONS = ['fitness values are compared only: real numbers stand for doubles exactly, NaN is outside the contract']
NAMES = {'sa': 'std::array', 'sv': 'std::vector', 'ea': 'fixed Eigen array', 'ex': 'dynamic Eigen array', 'l': 'less is better', 'g': 'greater is better'}


class Sw:
    def __init__(s, eng, n):
        s.eng, s.n = eng, n
        f = eng.P.one('vroot::%sbf' % (n + '_' if len(n) == 3 else n + '_u'))
        T = eng.P.ty(f['params'][0]['t'])['to']
        s.obj = eng.new('solver', eng.sym(T, 's'))
        s.popLoc, s.gbLoc, s.optLoc = s.get('pop'), s.get('gb'), s.get('opt')

    def get(s, what, *a):
        e = s.eng
        e.quiet += 1
        try:
            r = e.call_fn(e.P.one('vroot::%s%s' % (s.n + ('_' if len(s.n) == 3 else '_u'), what))['id'], [ptr_of(s.obj)] + list(a))
        finally:
            e.quiet -= 1
        return r if isinstance(r, Loc) else r.kids['e']


def best(n):
    def f(eng):
        s = Sw(eng, n)
        P0, G0 = eng.load(s.popLoc), eng.load(s.gbLoc)
        N = P0.kids['n']
        eng.assume(And(N >= 1, N < (1 << 31)))
        F0 = s.get('fails')
        eng.assume(And(F0 >= 0, F0 < (1 << 62)))
        bt = (lambda x, y: x > y) if n[-1] == 'g' else (lambda x, y: x < y)
        eng.hints.append(best_hint(lambda eng, S, j: at_state(eng, S, s.popLoc).kids['el'].get('pBest', 'fitness', 'e')(j), bt))
        eng.call_fn(eng.P.one('vroot::%s_best' % n)['id'], [ptr_of(s.obj)])
        P1, G1 = eng.load(s.popLoc), eng.load(s.gbLoc)
        a, b = P0.kids['el'], P1.kids['el']
        i, k, j = z3.Int('i'), z3.Int('k'), z3.Int('j')
        ins = And(i >= 0, i < N)
        fit = lambda p, i: p.get('fitness', 'e')(i)
        pf = lambda p, i: p.get('pBest', 'fitness', 'e')(i)
        px = lambda p, i, k: p.get('pBest', 'position', 'el', 'e')(i, k)
        dyn = n[:2] in ('sv', 'ex')
        up = bt(fit(a, i), pf(a, i))
        g0, g1 = G0.get('fitness', 'e'), G1.get('fitness', 'e')
        eng.oblige('population size unchanged', P1.kids['n'] == N, '', 'post')
        eng.oblige('points unchanged', Implies(ins, And(fit(b, i) == fit(a, i), b.get('position', 'el', 'e')(i, k) == a.get('position', 'el', 'e')(i, k))), '', 'post')
        eng.oblige('personal best fitness is the better of the previous one and the current point',
                   Implies(ins, pf(b, i) == If(up, fit(a, i), pf(a, i))), '', 'post')
        eng.oblige('personal best position belongs to the personal best fitness',
                   Implies(ins, px(b, i, k) == If(up, a.get('position', 'el', 'e')(i, k), px(a, i, k))), '', 'post')
        if dyn:
            eng.oblige('personal best size', Implies(ins, b.get('pBest', 'position', 'n')(i) == If(up, a.get('position', 'n')(i), a.get('pBest', 'position', 'n')(i))), '', 'post')
        eng.oblige('no personal best is better than the global best', Implies(ins, Not(bt(pf(b, i), g1))), '', 'post')
        eng.oblige('the global best never gets worse', Not(bt(g0, g1)), '', 'post')
        same = And(g1 == g0, G1.get('position', 'el', 'e')(k) == G0.get('position', 'el', 'e')(k), *([G1.get('position', 'n') == G0.get('position', 'n')] if dyn else []))
        one = lambda j: And(j >= 0, j < N, g1 == pf(b, j), G1.get('position', 'el', 'e')(k) == px(b, j, k), *([G1.get('position', 'n') == b.get('pBest', 'position', 'n')(j)] if dyn else []))
        eng.oblige('the global best is unchanged or a personal best, position and fitness together', Or(same, z3.Exists([j], one(j))), '', 'post')
        F1 = s.get('fails')
        eng.oblige('failure counter: zero exactly on strict improvement, else one more', F1 == If(bt(g1, g0), z3.IntVal(0), F0 + 1), '', 'post')
        eng.oblige('bestFitness() is the global best fitness', s.get('bf') == g1, '', 'post')
    return f


def evaluate(n):
    def f(eng):
        s = Sw(eng, n)
        P0 = eng.load(s.popLoc)
        N = P0.kids['n']
        eng.assume(N < (1 << 31))
        eng.call_fn(eng.P.one('vroot::%s_ucomp' % n)['id'], [ptr_of(s.obj)])
        P1 = eng.load(s.popLoc)
        a, b = P0.kids['el'], P1.kids['el']
        i, k = z3.Int('i'), z3.Int('k')
        ins = And(i >= 0, i < N)
        pos = lambda p: obj_.value(p.get('position', 'n')(i) if n in ('sv', 'ex') else z3.IntVal(4 if n == 'sa' else 5), lambda k: p.get('position', 'el', 'e')(i, k))
        eng.oblige('population size unchanged', P1.kids['n'] == N, '', 'post')
        eng.oblige('every fitness is the objective of its own position', Implies(ins, b.get('fitness', 'e')(i) == pos(a)), '', 'post')
        eng.oblige('positions unchanged', Implies(ins, b.get('position', 'el', 'e')(i, k) == a.get('position', 'el', 'e')(i, k)), '', 'post')
        eng.oblige('personal bests unchanged', Implies(ins, And(b.get('pBest', 'fitness', 'e')(i) == a.get('pBest', 'fitness', 'e')(i),
                                                               b.get('pBest', 'position', 'el', 'e')(i, k) == a.get('pBest', 'position', 'el', 'e')(i, k))), '', 'post')
    return f


def initialize(n):
    def f(eng):
        s = Sw(eng, n)
        M = eng.load(s.optLoc).get('populationSize', 'e')
        eng.assume(And(M >= 1, M < (1 << 31)))
        eng.call_fn(eng.P.one('vroot::%s_uinit' % n)['id'], [ptr_of(s.obj)])
        P1, G1 = eng.load(s.popLoc), eng.load(s.gbLoc)
        b = P1.kids['el']
        i, k = z3.Int('i'), z3.Int('k')
        ins = And(i >= 0, i < M)
        dyn = n in ('sv', 'ex')
        nn = z3.IntVal(4 if n == 'sa' else 5)
        eng.oblige('population has the configured size', P1.kids['n'] == M, '', 'post')
        eng.oblige('every fitness is the objective of its own position', Implies(ins, b.get('fitness', 'e')(i) == obj_.value(
            b.get('position', 'n')(i) if dyn else nn, lambda k: b.get('position', 'el', 'e')(i, k))), '', 'post')
        eng.oblige('personal best is the point itself', Implies(ins, And(b.get('pBest', 'fitness', 'e')(i) == b.get('fitness', 'e')(i),
                   b.get('pBest', 'position', 'el', 'e')(i, k) == b.get('position', 'el', 'e')(i, k), *([b.get('pBest', 'position', 'n')(i) == b.get('position', 'n')(i)] if dyn else []))), '', 'post')
        z = z3.IntVal(0)
        eng.oblige('global best is the first particle, position and fitness together', And(G1.get('fitness', 'e') == b.get('fitness', 'e')(z),
                   G1.get('position', 'el', 'e')(k) == b.get('position', 'el', 'e')(z, k)), '', 'post')
        eng.oblige('counters start at zero', And(s.get('fails') == 0, s.get('gen') == 0), '', 'post')
    return f


def build(spec):
    uc = lambda v: dict(rand_.CONTRACTS, **{'vroot::%s_obj' % v: obj_.obj, 'vroot::%s_ini' % v: obj_.init})
    for v in ('sa', 'sv', 'ea', 'ex'):
        spec.case('computeAllFitness (%s)' % NAMES[v], evaluate(v), contracts=uc(v), overflow=True)
        spec.case('initializePop (%s)' % NAMES[v], initialize(v), contracts=uc(v), overflow=True)
    for v in ('sa', 'sv', 'ea', 'ex'):
        for d in ('l', 'g'):
            t = NAMES[v] + ', ' + NAMES[d]
            spec.case('updatePGBest (%s)' % t, best(v + d), contracts=dict(rand_.CONTRACTS), overflow=True)
