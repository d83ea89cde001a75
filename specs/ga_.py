"""Shared parts of the specifications of the genetic solvers."""
from spec import *
import rand_
import obj_

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
A = z3.ArraySort(I, R)
NAMES = {'so': 'SOGA, vector', 'se': 'SOGA, Eigen array', 'n2': 'NSGA2, 2 objectives', 'nx': 'NSGA2, run-time objectives', 'n3': 'NSGA3, run-time objectives'}
FM = z3.Function('objectives', I, A, I, R)          # component j of the objective vector
X_ = {}


def content(v):
    """array term of the components of a decision variable"""
    n, f = v.kids['n'], v.kids['el'].kids['e']
    k = z3.Int('k!obj')
    return n, z3.Lambda([k], If(And(k >= 0, k < n), f(k), z3.RealVal(0)))


def slot_of(l):
    for kind, x in l.path:
        if kind == 'i':
            return x
    raise Unsupported('operator applied to something that is not an element of the population')


def count(eng, what, l):
    s = slot_of(l)
    c = Loc('calls:' + what).i(s)
    eng.store(c, sc(z3.simplify(eng.load(c).kids['e'] + 1)))


def counters(eng, *names):
    for w in names:
        eng.st.store['calls:' + w] = Node('arr', (None, 'vector', None), {'n': z3.IntVal(1 << 62), 'el': sc(L(1, lambda i: z3.IntVal(0)))})


def calls(eng, w):
    return eng.st.store['calls:' + w].get('el', 'e')


def target(eng, e, i):
    p = eng.resolve_ptr(eng.ev(e['args'][i]))
    l = loc_of(p)
    return l


FO = z3.Function('objective', I, R)                 # the objective at the variable individual s has before the step
FOM = z3.Function('objectives', I, I, R)


def unchanged_var(eng, x, what, e):
    """the variable handed over is the one its individual had before the step"""
    s = slot_of(x)
    k = eng.fresh('comp', I)
    v0 = select(eng.V0.get('slot', 'el', 'decision_variable'), s)
    eng.oblige(what + ' gets the variable its individual had before the step', same(v0, eng.load(x), k), e.get('loc', ''), 'pre')
    return s


def fit(eng, e):
    x, f = target(eng, e, 0), target(eng, e, 1)
    s = unchanged_var(eng, x, 'the objective', e)
    eng.oblige('the objective gets the variable and the fitness of one individual', s == slot_of(f), e.get('loc', ''), 'pre')
    v = eng.load(f)
    if v.kind == 'sc':
        eng.store(f, sc(FO(s)))
    else:
        if v.static[2] is None:
            eng.oblige('the fitness vector given to the objective has one component per objective', v.kids['n'] == eng.objnum, e.get('loc', ''), 'pre')
        eng.store(f.f('el') if False else f, Node('arr', v.static, dict(v.kids, el=sc(L(1, lambda j: FOM(s, j))))))
    count(eng, 'fit', x)
    return None


def havoc_var(eng, l, name, args):
    """the operator writes a variable that is an unknown function of its arguments"""
    v = eng.load(l)
    fe = z3.Function(name, *([I] * len(args)), I, R)
    fn = z3.Function(name + '.n', *([I] * len(args)), I)
    w = Node('arr', v.static, dict(v.kids, el=sc(L(1, lambda j: fe(*args, j)))))
    if v.static[2] is None:
        w = w.put(('n',), fn(*args))
    eng.store(l, w)


def ini(eng, e):
    x = target(eng, e, 0)
    v = eng.load(x)
    w = v.map(lambda leaf: eng.fresh_like(leaf, 'init'))
    if num(z3.simplify(v.kids['n'])) is not None:
        w = w.put(('n',), v.kids['n'])
    eng.store(x, w)
    count(eng, 'ini', x)
    return None


def crs(eng, e):
    p1, p2, c1, c2 = [target(eng, e, i) for i in range(4)]
    a = [slot_of(x) for x in (p1, p2, c1, c2)]
    for x in (p1, p2):
        unchanged_var(eng, x, 'crossover', e)
    args = (a[0], a[1])
    N0 = eng.N0
    eng.oblige('crossover: both parents were in the population before the step', And(a[0] >= 0, a[0] < N0, a[1] >= 0, a[1] < N0), e.get('loc', ''), 'pre')
    eng.oblige('crossover: the parents are two different individuals', a[0] != a[1], e.get('loc', ''), 'pre')
    eng.oblige('crossover: the children are new and different', And(a[2] >= N0, a[3] >= N0, a[2] != a[3]), e.get('loc', ''), 'pre')
    havoc_var(eng, c1, 'cross1', args)
    havoc_var(eng, c2, 'cross2', args)
    for w, l in (('par', p1), ('par', p2), ('child', c1), ('child', c2)):
        count(eng, w, l)
    eng.crossed = getattr(eng, 'crossed', []) + [tuple(a)]
    return None


def mut(eng, e):
    s, d = [target(eng, e, i) for i in range(2)]
    a, b = slot_of(s), slot_of(d)
    N0 = eng.N0
    eng.oblige('mutation: the source was in the population before the step', And(a >= 0, a < N0), e.get('loc', ''), 'pre')
    eng.oblige('mutation: the result is a new individual', b >= N0, e.get('loc', ''), 'pre')
    unchanged_var(eng, s, 'mutation', e)
    havoc_var(eng, d, 'mutate1', (a,))
    count(eng, 'par', s)
    count(eng, 'child', d)
    return None


def threads(eng, e):
    r = eng.fresh('threadNum', I)
    eng.fact(And(r >= 1, r < (1 << 20)))
    return sc(r)


def refposes(eng, e):
    """generation of the reference directions (property N03): writes only the solver's reference directions"""
    l = eng.objloc(e)
    v = eng.load(l)
    fs = [f for f in v.kids if v.kids[f].kind == 'arr' and 'r' in v.kids[f].kids and f.lower().startswith('ref')]
    for f in fs:
        eng.store(l.f(f), v.kids[f].map(lambda leaf: eng.fresh_like(leaf, 'refposes')))
    return None


def contracts(v):
    c = dict(rand_.CONTRACTS)
    for b in ('NSGA3Abstract', 'NSGA3Base', 'ReferencePoses'):
        c['heu::internal::%s::makeReferencePoses' % b] = refposes
    c.update({'vroot::%s_ini' % v: ini, 'vroot::%s_fit' % v: fit, 'vroot::%s_crs' % v: crs, 'vroot::%s_mut' % v: mut,
              'heu::threadNum': threads, 'heu::internal::threadNum': threads})
    return c


class GA:
    def __init__(s, eng, n):
        s.eng, s.n = eng, n
        f = eng.P.one('vroot::%s_pop' % n)
        s.T = eng.P.ty(f['params'][0]['t'])['to']
        s.obj = eng.new('solver', eng.sym(s.T, 's'))
        s.popLoc, s.optLoc = s.get('pop'), s.get('opt')
        eng.V0 = s.pop()
        eng.N0 = eng.V0.get('slot', 'n')
        if n in ('nx', 'n3'):
            eng.objnum = s.get('objnum')
        counters(eng, 'fit', 'ini', 'par', 'child')

    def get(s, what, *a):
        e = s.eng
        e.quiet += 1
        try:
            r = e.call_fn(e.P.one('vroot::%s_%s' % (s.n, what))['id'], [ptr_of(s.obj)] + list(a))
        finally:
            e.quiet -= 1
        return r if isinstance(r, Loc) else r.kids['e']

    def pop(s):
        return s.eng.load(s.popLoc)

    def opt(s, f):
        return s.eng.load(s.optLoc).get(f, 'e')

    def run(s, what):
        e = s.eng
        return e.call_fn(e.P.one('vroot::%s_%s' % (s.n, what))['id'], [ptr_of(s.obj)])


def gene(p, i):
    """element i of a population as a node"""
    return select(p.get('slot', 'el'), i)


def same(a, b, k, pred=None):
    """conjunction: equal content (vectors up to their length at index k)"""
    cs = []

    def go(x, y, path):
        if x.kind == 'any' or y.kind == 'any':
            return
        if x.kind == 'arr':
            cs.append(x.kids['n'] == y.kids['n'])
            el1, el2 = select(x.kids['el'], k), select(y.kids['el'], k)
            sub = []
            for (q, u), (_, w) in zip(el1.leaves(), el2.leaves()):
                if not isinstance(u, L):
                    sub.append(u == w)
            cs.append(Implies(And(k >= 0, k < x.kids['n']), And(*sub)))
            return
        for q in x.kids:
            u, w = x.kids[q], y.kids[q]
            if isinstance(u, Node):
                go(u, w, path + (q,))
            elif not isinstance(u, L):
                cs.append(Eq(u, w))
    go(a, b, ())
    return And(*cs)
