"""T01: parallel passes give the sequential result under every schedule."""
from spec import *
from ga_ import target, refposes, threads
from list_ import N_
import rand_
COMPLETE = True

ASSUMPTIONS = ['OpenMP runs every iteration of a work-sharing loop exactly once and joins all threads at its end; iterations that do not touch each other\'s data therefore give the sequential result (standard non-interference argument: engine/sym.py interference())',
               'the user objective reads its variable (and the shared argument) and writes exactly the fitness it is given',
               'std::uniform_real_distribution keeps no state (libstdc++): its call operator only reads it; every other random object is read and written by a draw',
               'the thread count handed to the library is at least 1 (setThreadNum\'s precondition; the default is std::thread::hardware_concurrency(), taken to be at least 1)',
               'the sorting space lists distinct individuals (established by the selectors, which copy the population into it once)',
               'all fitness vectors have one component per objective (G01)',
               'populations have fewer than 2^31 individuals']
NAMES = {'so': 'SOGA, vector', 'se': 'SOGA, Eigen array', 'n2': 'NSGA2, 2 objectives', 'ng': 'NSGA2, 2 objectives, greater is better', 'nx': 'NSGA2, run-time objectives', 'n3': 'NSGA3, run-time objectives',
         'sa': 'std::array', 'sv': 'std::vector', 'ea': 'fixed Eigen array', 'ex': 'dynamic Eigen array', 'sq': 'scalar limits', 're': 'limits per dimension', 'asv': 'AOS, vector', 'aea': 'AOS, Eigen array'}


def objective(eng, e):
    x, f = target(eng, e, 0), target(eng, e, len(e['args']) - 1)
    eng.load(x)
    v = eng.load(f, ('n',))
    if v.kind == 'sc':
        eng.store(f, sc(eng.fresh('objective', R)))
    else:
        eng.store(f.f('el'), v.kids['el'].map(lambda leaf: eng.fresh_like(leaf, 'objective')))
    return None


def draw(eng, e):
    """a draw of a distribution: changes the generator, reads (uniform) or changes (others) the distribution"""
    a = e['args']
    d, g = (eng.objloc(e), a[0]) if e.get('obj') is not None else (eng.lv(a[0]), a[1])
    g = eng.lv(g)
    eng.load(d)
    if 'uniform_real' not in e['callee']['base']:
        eng.store(d, ANY)
    eng.load(g)
    eng.store(g, ANY)
    r = eng.fresh('draw', R)
    if 'uniform_real' in e['callee']['base']:
        eng.fact(And(r >= 0, r < 1))
    return sc(r)


def generate(eng, e):
    g = eng.objloc(e) if e.get('obj') is not None else eng.lv(e['args'][0])
    eng.load(g)
    eng.store(g, ANY)
    r = eng.fresh('generated', I)
    eng.fact(And(r >= 0, r < (1 << 32)))
    return sc(r)


def contracts(v=None):
    c = {'heu::threadNum': threads, 'std::mersenne_twister_engine::operator()': generate}
    for d in ('uniform_real', 'normal', 'uniform_int', 'bernoulli'):
        c['std::%s_distribution::operator()' % d] = draw
    if v:
        c['vroot::%s_fit' % v] = c['vroot::%s_obj' % v] = objective
    for b in ('NSGA3Abstract', 'NSGA3Base', 'ReferencePoses'):
        c['heu::internal::%s::makeReferencePoses' % b] = refposes
    return c


class So:
    def __init__(s, eng, n, getter):
        s.eng, s.n = eng, n
        f = eng.P.one('vroot::' + getter)
        s.obj = eng.new('solver', eng.sym(eng.P.ty(f['params'][0]['t'])['to'], 's'))

    def get(s, what, *a):
        e = s.eng
        e.quiet += 1
        try:
            r = e.call_fn(e.P.one('vroot::' + what)['id'], [ptr_of(s.obj)] + list(a))
        finally:
            e.quiet -= 1
        return r if isinstance(r, Loc) else r.kids['e']

    def run(s, what):
        s.eng.parallel = True
        s.eng.call_fn(s.eng.P.one('vroot::' + what)['id'], [ptr_of(s.obj)])


def evaluate(n, getter, fn):
    def f(eng):
        s = So(eng, n, getter)
        P0 = eng.load(s.get(getter))
        eng.assume((P0.kids['n'] if P0.kind == 'arr' else N_(P0)) < (1 << 31))
        s.run(fn)
    return f


def count(n):
    def f(eng):
        s = So(eng, n, n + '_sort')
        pop, sl = s.get(n + '_pop'), s.get(n + '_sort')
        P0, S0 = eng.load(pop), eng.load(sl)
        if n in ('nx', 'n3'):
            m = z3.Int('objectives')
            eng.assume(And(m >= 2, m < (1 << 31)))
            P0 = P0.put(('slot', 'el', 'fitness', 'n'), L(1, lambda i: m))
            eng.store(pop, P0)
        N, M = N_(P0), S0.kids['n']
        eng.assume(And(N < (1 << 31), M < (1 << 31)))
        W = z3.Function('individual', I, I)
        a, b = z3.Int('a'), z3.Int('b')
        eng.fact(z3.ForAll([a], Implies(And(a >= 0, a < M), And(W(a) >= 0, W(a) < N)), patterns=[W(a)]))
        eng.fact(z3.ForAll([a, b], Implies(And(a >= 0, a < M, b >= 0, b < M, a != b), W(a) != W(b)), patterns=[z3.MultiPattern(W(a), W(b))]))
        p = ptr_of(pop.f('slot').i(z3.Int('x')))
        kids = {q: (L(1, lambda k: W(k)) if q.startswith('i') else L(1, lambda k, b=b: b)) for q, b in p.kids.items()}
        eng.store(sl, Node('arr', S0.static, dict(S0.kids, el=Node('ptr', p.static, kids))))
        s.run(n + '_dom')
    return f


def move(n):
    from P01 import Sw
    def f(eng):
        s = Sw(eng, n)
        s.box()
        P0, G0 = eng.load(s.popLoc), eng.load(s.gbLoc)
        N, part, iv = P0.kids['n'], P0.kids['el'], z3.Int('iv')
        eng.assume(N < (1 << 31))
        if n[:2] in ('sv', 'ex'):
            eng.assume(z3.ForAll([iv], Implies(And(iv >= 0, iv < N), And(part.get('position', 'n')(iv) == s.dim, part.get('velocity', 'n')(iv) == s.dim,
                                                                         part.get('pBest', 'position', 'n')(iv) == s.dim))))
            eng.assume(G0.get('position', 'n') == s.dim)
        eng.parallel = True
        eng.call_fn(eng.P.one('vroot::%s_upd' % n)['id'], [ptr_of(s.obj)])
    return f


def threadcount(eng):
    n = z3.Int('n')
    eng.assume(And(n >= 1, n < (1 << 31)))
    eng.parallel = True
    eng.call_fn(eng.P.one('vroot::setThreads')['id'], [sc(n)])
    eng.oblige('the thread count is the configured one', eng.call_fn(eng.P.one('vroot::threads')['id'], []).kids['e'] == n, '', 'post')


def build(spec):
    for v in ('so', 'se', 'n2', 'nx', 'n3'):
        spec.case('fitness evaluation (%s)' % NAMES[v], evaluate(v, v + '_pop', v + '_comp'), contracts=contracts(v))
    for v in ('asv', 'aea'):
        spec.case('fitness evaluation (%s)' % NAMES[v], evaluate(v, v + '_pop', v + '_comp'), contracts=contracts(v))
    for v in ('sa', 'sv', 'ea', 'ex'):
        spec.case('fitness evaluation (PSO, %s)' % NAMES[v], evaluate(v, v + '_upop', v + '_ucomp'), contracts=contracts(v))
    for v in ('n2', 'ng', 'nx', 'n3'):
        spec.case('domination counting (%s)' % NAMES[v], count(v), contracts=contracts(v))
    for v in ('sasq', 'sare', 'svsq', 'svre', 'easq', 'eare', 'exsq', 'exre'):
        spec.case('particle movement (%s, %s)' % (NAMES[v[:2]], NAMES[v[2:]]), move(v), contracts=contracts())
    spec.case('thread count', threadcount)
