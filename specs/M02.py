"""M02: multi-objective ranking and the reported Pareto front are exact."""
from spec import *
from ga_ import *
from list_ import alive, D_, N_, LEN
import rand_
OBL_TIMEOUT = 20000
CASE_LIMIT = 300

ASSUMPTIONS = ['real numbers stand for doubles: objective values are only compared and copied']
NAMES = dict(NAMES, ng='NSGA2, 2 objectives, greater is better')
DOM = z3.Function('dominates', I, I, B)      # M01: the dominance relation between individuals
CNT = z3.Function('dominators', I, I, I)     # CNT(k, x): how many of the first x of the sorting space dominate entry k
W = z3.Function('entry', I, I)               # individual at a place of the sorting space

WI = z3.Function('place', I, I)              # and its inverse


def dominance(eng, e):
    a, b = target(eng, e, 0), target(eng, e, 1)
    for l in (a, b):
        if not l.path or l.path[-1] != ('f', 'fitness'):
            raise Unsupported('dominance of something that is not a fitness')
    return sc(DOM(slot_of(a), slot_of(b)))


def contracts_(v):
    return dict(contracts(v), **{'heu::internal::Pareto::isStrongDominate': dominance})


class Mo(GA):
    def __init__(s, eng, n):
        GA.__init__(s, eng, n)
        eng.assume(eng.N0 < (1 << 31))
        s.m = z3.IntVal(2)
        if n in ('nx', 'n3'):
            s.m = m = eng.objnum
            eng.assume(And(m >= 2, m < (1 << 31)))
            eng.store(s.popLoc, s.pop().put(('slot', 'el', 'fitness', 'n'), L(1, lambda i: m)))
        s.P0 = s.pop()
        s.sortLoc, s.layLoc, s.pfLoc = s.get('sort'), s.get('layers'), s.get('pf')

    def sortspace(s):
        """the sorting space lists distinct individuals"""
        eng = s.eng
        S0 = eng.load(s.sortLoc)
        N, M = eng.N0, S0.kids['n']
        a, b = z3.Int('a'), z3.Int('b')
        eng.assume(And(M >= 0, M < (1 << 31)))
        eng.fact(z3.ForAll([a], Implies(And(a >= 0, a < M), And(W(a) >= 0, W(a) < N)), patterns=[W(a)]))
        eng.fact(z3.ForAll([a, b], Implies(And(a >= 0, a < M, b >= 0, b < M, a != b), W(a) != W(b)), patterns=[z3.MultiPattern(W(a), W(b))]))
        eng.fact(z3.ForAll([a], Implies(And(a >= 0, a < M), WI(W(a)) == a), patterns=[W(a)]))
        eng.inverses['entry'] = (lambda pre, k, X: And(WI(k) >= 0, WI(k) < X, W(WI(k)) == k) if X is not None else And(WI(k) >= 0, W(WI(k)) == k), lambda pre, k: WI(k))
        s.put(s.sortLoc, lambda k: W(k), M)
        s.M = M
        return M

    def put(s, loc, fn, n):
        """a sequence of n pointers to the individuals fn(k)"""
        eng = s.eng
        v = eng.load(loc)
        p = ptr_of(s.popLoc.f('slot').i(z3.Int('x')))
        kids = {q: (L(1, fn) if q.startswith('i') else L(1, lambda k, b=b: b)) for q, b in p.kids.items()}
        eng.store(loc, Node('arr', v.static, dict(v.kids, n=n, el=Node('ptr', p.static, kids))))

    def rank(s, P, i):
        return P.get('slot', 'el', 'dominated_by_num', 'e')(i)


def ranks(n):
    def f(eng):
        s = Mo(eng, n)
        M = s.sortspace()
        k, x, i, q = z3.Int('k'), z3.Int('x'), z3.Int('i'), z3.Int('q')
        eng.fact(z3.ForAll([k], CNT(k, 0) == 0, patterns=[CNT(k, 0)]))
        eng.fact(z3.ForAll([k, x], Implies(x >= 0, CNT(k, x + 1) == CNT(k, x) + If(And(x != k, DOM(W(x), W(k))), z3.IntVal(1), z3.IntVal(0))), patterns=[CNT(k, x + 1)]))
        jh = z3.Int('hj')

        def hint(eng_, S0, H, rest, it, st, nxt):
            rk = lambda S, k: s.rank(at_state(eng, S, s.popLoc), W(k))
            done = lambda S, o: z3.ForAll([jh], Implies(And(jh >= 0, jh < o), rk(S, jh) == CNT(jh, M)), patterns=[CNT(jh, M)])
            o = [g for g in eng.ghosts if not g.eq(it)]
            if not o:
                return [('ranks so far', lambda S, x: done(S, x))]
            return [('rank so far', lambda S, x: rk(S, o[-1]) == CNT(o[-1], x)), ('ranks before', lambda S, x: done(S, o[-1]))]
        eng.hints = [hint]
        eng.noseries = eng.nocount = True
        s.run('dom')
        P1 = s.pop()
        ins = And(k >= 0, k < M)
        eng.oblige('the rank is the number of other entries that dominate', Implies(ins, s.rank(P1, W(k)) == CNT(k, M)), '', 'post')
        for fld in ('fitness', 'decision_variable', 'is_fitness_computed'):
            a, b = gene(s.P0, i).get(fld), gene(P1, i).get(fld)
            eng.oblige(fld + ' is not changed', Implies(And(i >= 0, i < eng.N0), same(a, b, q)), '', 'post')
        eng.oblige('no individual is removed', And(N_(P1) == eng.N0, LEN(P1) == eng.N0), '', 'post')
        S1 = eng.load(s.sortLoc)
        eng.oblige('the sorting space is not changed', And(S1.kids['n'] == M, Implies(ins, S1.get('el', 'i0')(k) == W(k))), '', 'post')
    return f


LAY, POS, START = z3.Function('layerOf', I, I), z3.Function('positionOf', I, I), z3.Function('startOf', I, I)


def layers(n):
    def f(eng):
        s = Mo(eng, n)
        M = s.sortspace()
        j, l, q, i = z3.Int('j'), z3.Int('l'), z3.Int('q'), z3.Int('i')
        RK = lambda k: s.rank(s.P0, k)
        eng.fact(z3.ForAll([i], And(RK(i) >= 0, RK(i) < (1 << 31)), patterns=[RK(i)]))
        E = lambda S, k: at_state(eng, S, s.sortLoc).get('el', 'i0')(k)
        st = {}

        def axioms(S):
            """layers of the sorted sequence (definitions)"""
            e = lambda k: E(S, k)
            eng.fact(And(LAY(0) == 0, POS(0) == 0, START(0) == 0))
            same_ = lambda k: RK(e(k + 1)) == RK(e(k))
            eng.fact(z3.ForAll([j], Implies(j >= 0, And(LAY(j + 1) == If(same_(j), LAY(j), LAY(j) + 1), POS(j + 1) == If(same_(j), POS(j) + 1, z3.IntVal(0)))),
                               patterns=[LAY(j + 1), POS(j + 1)]))
            eng.fact(z3.ForAll([j], Implies(j >= 0, START(LAY(j)) == j - POS(j)), patterns=[LAY(j), POS(j)]))

        def hint(eng_, S0, H, rest, it, st_, nxt):
            if not st:
                st['S'] = S0
                axioms(S0)
            e = lambda k: E(st['S'], k)
            lay = lambda S: at_state(eng, S, s.layLoc)
            nl = lambda S: lay(S).get('slot', 'n')
            sz = lambda S, l: lay(S).get('slot', 'el', 'n')(l)
            el = lambda S, l, q: lay(S).get('slot', 'el', 'el', 'i0')(l, q)
            dm = [p for p in rest if not isinstance(eng.leaf_at(S0, p), L) and p[0].startswith('curDM')]
            out = [('number of layers', lambda S, x: nl(S) == If(x == 0, z3.IntVal(0), LAY(x - 1) + 1)),
                   ('number of layers, length', lambda S, x: LEN(lay(S)) == nl(S)),
                   ('layers stay', lambda S, x: z3.ForAll([l], Not(D_(lay(S))(l)))),
                   ('places', lambda S, x: z3.ForAll([j], Implies(And(j >= 0, j < x), And(LAY(j) >= 0, POS(j) >= 0, POS(j) <= j, LAY(j) <= LAY(x - 1))), patterns=[LAY(j), POS(j)])),
                   ('sizes', lambda S, x: z3.ForAll([l], Implies(And(l >= 0, x > 0, l < LAY(x - 1)), And(sz(S, l) == START(l + 1) - START(l), sz(S, l) >= 1)))),
                   ('size of the last', lambda S, x: Implies(x > 0, sz(S, LAY(x - 1)) == POS(x - 1) + 1)),
                   ('members', lambda S, x: z3.ForAll([j], Implies(And(j >= 0, j < x), el(S, LAY(j), POS(j)) == e(j)), patterns=[LAY(j), POS(j)])),
                   ('position in layer', lambda S, x: z3.ForAll([j], Implies(And(j >= 0, j < x), POS(j) < sz(S, LAY(j))), patterns=[LAY(j), POS(j)]))]
            for p in rest:
                v0 = eng.leaf_at(S0, p)
                if not isinstance(v0, L) and v0.sort() == I:
                    out.append(('%s current rank' % (p,), lambda S, x, p=p: Implies(x > 0, eng.leaf_at(S, p) == RK(e(x - 1)))))
                    out.append(('%s no rank yet' % (p,), lambda S, x, p=p, v0=v0: Implies(x == 0, eng.leaf_at(S, p) == v0)))
            return out
        eng.hints = [hint]
        s.run('div')
        L1, S1 = eng.load(s.layLoc), eng.load(s.sortLoc)
        e = S1.get('el', 'i0')
        sz, el = L1.get('slot', 'el', 'n'), L1.get('slot', 'el', 'el', 'i0')
        nl = N_(L1)
        ins = And(j >= 0, j < M)
        eng.oblige('every entry of the sorting space is at its place in its layer', Implies(ins, And(LAY(j) >= 0, LAY(j) < nl, POS(j) >= 0, POS(j) < sz(LAY(j)), el(LAY(j), POS(j)) == e(j))), '', 'post')
        eng.oblige('entries of one layer have the same rank', Implies(And(j >= 0, j + 1 < M, LAY(j) == LAY(j + 1)), RK(e(j)) == RK(e(j + 1))), '', 'post')
        eng.oblige('ranks of later layers are larger', Implies(And(j >= 0, j + 1 < M, LAY(j) != LAY(j + 1)), RK(e(j)) < RK(e(j + 1))), '', 'post')
        eng.oblige('layers follow each other', Implies(And(j >= 0, j + 1 < M), And(LAY(j + 1) <= LAY(j) + 1, LAY(j + 1) >= LAY(j))), '', 'post')
        eng.oblige('no layer without member', And(LEN(L1) == nl, Implies(And(l >= 0, l < nl), And(Not(D_(L1)(l)), sz(l) >= 1))), '', 'post')
        eng.oblige('the last layer ends with the last entry', Implies(M > 0, And(nl == LAY(M - 1) + 1, sz(nl - 1) == POS(M - 1) + 1)), '', 'post')
        eng.oblige('a layer ends where the next one starts', Implies(And(l >= 0, l + 1 < nl), sz(l) == START(l + 1) - START(l)), '', 'post')
        eng.oblige('the population is not changed', And(N_(s.pop()) == eng.N0, Implies(And(i >= 0, i < eng.N0), same(gene(s.P0, i), gene(s.pop(), i), q))), '', 'post')
    return f


def best(n):
    def f(eng):
        s = Mo(eng, n)
        N = eng.N0
        eng.assume(N >= 1)
        g = n == 'ng'
        P0 = s.P0
        fit = lambda i, k: P0.get('slot', 'el', 'fitness', 'el', 'e')(i, k)
        ARG = z3.Function('bestSoFar', I, I, I)
        k, x, jh = z3.Int('k'), z3.Int('x'), z3.Int('jh')
        eng.fact(z3.ForAll([k], ARG(k, 0) == 0, patterns=[ARG(k, 0)]))
        bt = lambda a, b: a > b if g else a < b
        eng.fact(z3.ForAll([k, x], Implies(x >= 0, ARG(k, x + 1) == If(bt(fit(x, k), fit(ARG(k, x), k)), x, ARG(k, x))), patterns=[ARG(k, x + 1)]))

        def hint(eng_, S0, H, rest, it, st, nxt):
            out = []
            kk = [z3.IntVal(q) for q in range(2)] if n in ('n2', 'ng') else None
            al = lambda f: And(*[f(q) for q in kk]) if kk else z3.ForAll([k], Implies(And(k >= 0, k < s.m), f(k)))
            for p in rest:
                v0 = eng.leaf_at(S0, p)
                if isinstance(v0, L) and v0.ar == 1 and v0(z3.IntVal(0)).sort() == R:
                    lf = lambda S, k, p=p: eng.leaf_at(S, p)(k)
                    out += [('best of the first ones', lambda S, x, lf=lf: al(lambda k: lf(S, k) == fit(ARG(k, x), k))),
                            ('no better one so far', lambda S, x, lf=lf: al(lambda k: z3.ForAll([jh], Implies(And(jh >= 0, jh < x), Not(bt(fit(jh, k), lf(S, k))))))),
                            ('witness', lambda S, x, lf=lf: al(lambda k: And(ARG(k, x) >= 0, ARG(k, x) <= x, Or(ARG(k, x) < x, ARG(k, x) == 0))))]
            return out
        eng.hints = [hint]
        eng.noseries = True
        r = s.run('best')
        r = eng.load(r) if isinstance(r, Loc) else r
        i = z3.Int('i')
        c = r.get('el', 'e')
        ins = And(k >= 0, k < s.m)
        eng.oblige('best fitness has one component per objective', r.kids['n'] == s.m, '', 'post')
        eng.oblige('no individual is better in any component', Implies(And(ins, i >= 0, i < N), c(k) >= fit(i, k) if g else c(k) <= fit(i, k)), '', 'post')
        j = ARG(k, N)
        eng.oblige('every component is the one of an individual', Implies(ins, And(j >= 0, j < N, c(k) == fit(j, k))), '', 'post')
    return f


def front(n, ptrs):
    def f(eng):
        s = Mo(eng, n)
        T = eng.P.one('vroot::%s_%s' % (n, 'updp' if ptrs else 'upd'))
        K = z3.Int('K')
        eng.assume(And(K >= 0, K < (1 << 31)))
        a, b = z3.Int('a'), z3.Int('b')
        eng.fact(z3.ForAll([a], Implies(And(a >= 0, a < K), And(W(a) >= 0, W(a) < eng.N0)), patterns=[W(a)]))
        l = eng.new('front', Node('arr', (None, 'vector', None), {'n': K, 'el': ANY}))
        s.put(l, lambda k: W(k), K)
        LAST = z3.Function('last', I, I, I)
        x, y = z3.Int('x'), z3.Int('y')
        eng.fact(z3.ForAll([y], LAST(y, 0) == -1, patterns=[LAST(y, 0)]))
        eng.fact(z3.ForAll([y, x], Implies(x >= 0, LAST(y, x + 1) == If(W(x) == y, x, LAST(y, x))), patterns=[LAST(y, x + 1)]))

        def hint(eng_, S0, H, rest, it, st, nxt):
            has = lambda S: at_state(eng, S, s.pfLoc).get('has', 'el', 'e')
            return [('membership', lambda S, x: z3.ForAll([y], has(S)(y) == (LAST(y, x) >= 0))),
                    ('membership from', lambda S, x: z3.ForAll([y], Implies(LAST(y, x) >= 0, And(LAST(y, x) < x, W(LAST(y, x)) == y)))),
                    ('membership to', lambda S, x: z3.ForAll([a], Implies(And(a >= 0, a < x), LAST(W(a), x) >= 0)))]
        eng.hints = [hint]
        eng.noseries = True
        eng.call_fn(T['id'], [ptr_of(s.obj), ptr_of(l.i(z3.IntVal(0))), sc(K)])
        H = eng.load(s.pfLoc)
        x = z3.Int('x')
        has = H.get('has', 'el', 'e')
        eng.oblige('every given individual is in the front', Implies(And(a >= 0, a < K), has(W(a))), '', 'post')
        eng.oblige('only given individuals are in the front', Implies(has(x), And(LAST(x, K) >= 0, LAST(x, K) < K, W(LAST(x, K)) == x)), '', 'post')
    return f


def selection(n):
    import nsga_ as ns

    def f(eng):
        s = ns.setup(eng, n)
        ns.guesses(eng)
        s.run('sel')
        P1 = s.pop()
        has = eng.load(s.pfLoc).get('has', 'el', 'e')
        x, i, j = z3.Int('x'), z3.Int('i'), z3.Int('j')
        N = eng.N0
        E, EI, RK, LAY = ns.E, ns.EI, ns.RK, ns.LAY
        SEL, AT = s.erasing or (None, None)
        if SEL is None:
            raise Unsupported('no order of the individuals erased')
        mem = lambda v: And(v >= 0, v < N)
        ij = And(mem(i), mem(j))             # places in the order of the ranks; every individual has exactly one
        fits = ns.START(1) <= s.K            # the number of individuals without a smaller rank
        first = lambda v: EI(v) < ns.START(1)
        eng.oblige('every individual has a place in the order of the ranks', Implies(mem(x), And(mem(EI(x)), E(EI(x)) == x, EI(E(x)) == x)), '', 'post')
        eng.oblige('the first layer is the smallest rank', Implies(ij, And(Implies(i < ns.START(1), RK(E(i)) <= RK(E(j))), Implies(RK(E(i)) <= RK(E(0)), i < ns.START(1)))), '', 'post')
        eng.oblige('the living members are the selected ones', alive(P1, x) == And(mem(x), SEL(x)), '', 'post')
        eng.oblige('selected ones are members', Implies(SEL(x), mem(x)), '', 'post')
        eng.oblige('the first layer survives if it fits', Implies(And(fits, mem(i), i < ns.START(1)), SEL(E(i))), '', 'post')
        k = z3.Int('k')
        for f_, w, n_, pc in s.fronts:
            try:
                inv = ns.invert(eng, z3.simplify(w(k)), k, x, And(k >= 0, k < n_), (pc,))
            except Unsupported:
                continue
            src = And(inv >= 0, inv < n_, w(inv) == x)
            eng.oblige('every member of the first layer or selected one has its place among those reported', Implies(And(pc, Or(And(fits, mem(x), first(x)), And(Not(fits), SEL(x)))), src), '', 'post')
            eng.oblige('all those reported are in the front', Implies(And(pc, src), f_(x)), '', 'post')
            eng.oblige('only those reported are in the front', Implies(And(pc, f_(x)), Or(And(fits, mem(x), first(x)), And(Not(fits), SEL(x)))), '', 'post')
        eng.oblige('the front is the one reported last', Or(*[And(pc, has(x) == f_(x)) for f_, w, n_, pc in s.fronts]), '', 'post')
    return f


def minimal(eng):
    """the members of the smallest rank are those that no member dominates (dominance is a strict partial order, M01)"""
    N, n = z3.Int('N'), z3.Int('n')
    a, b, c, x, k = z3.Int('a'), z3.Int('b'), z3.Int('c'), z3.Int('x'), z3.Int('k')
    eng.assume(N >= 1)
    mem = lambda v: And(v >= 0, v < N)
    eng.fact(z3.ForAll([k], CNT(k, 0) == 0, patterns=[CNT(k, 0)]))
    eng.fact(z3.ForAll([k, x], Implies(x >= 0, CNT(k, x + 1) == CNT(k, x) + If(And(x != k, DOM(x, k)), z3.IntVal(1), z3.IntVal(0))), patterns=[CNT(k, x + 1)]))
    eng.fact(z3.ForAll([a], Not(DOM(a, a)), patterns=[DOM(a, a)]))
    eng.fact(z3.ForAll([a, b, c], Implies(And(DOM(a, b), DOM(b, c)), DOM(a, c)), patterns=[z3.MultiPattern(DOM(a, b), DOM(b, c))]))
    u, v = z3.Int('u'), z3.Int('v')          # u dominates v
    eng.assume(And(mem(u), mem(v), DOM(u, v)))
    lem = lambda n: CNT(u, n) + If(u < n, z3.IntVal(1), z3.IntVal(0)) <= CNT(v, n)
    eng.oblige('a dominating member has fewer dominators: initially', lem(z3.IntVal(0)), '', 'lemma')
    eng.oblige('a dominating member has fewer dominators: step', Implies(And(n >= 0, n < N, lem(n)), lem(n + 1)), '', 'lemma')
    eng.oblige('a dominated member has dominators counted: step', Implies(And(n >= 0, n < N, CNT(v, n) >= 0), CNT(v, n + 1) >= 0), '', 'lemma')
    eng.oblige('so a dominated member does not have the smallest rank', Implies(lem(N), CNT(u, N) < CNT(v, N)), '', 'lemma')
    w = z3.Int('w')
    none = lambda n: Implies(z3.ForAll([k], Implies(And(k >= 0, k < n), Not(DOM(k, w)))), CNT(w, n) == 0)
    eng.oblige('a member without dominators has rank zero: initially', none(z3.IntVal(0)), '', 'lemma')
    eng.oblige('a member without dominators has rank zero: step', Implies(And(n >= 0, n < N, none(n)), none(n + 1)), '', 'lemma')


def build(spec):
    for v in ('n2', 'ng', 'nx', 'n3'):
        spec.case('domination counts (%s)' % NAMES[v], ranks(v), contracts=contracts_(v))
        if v == 'n2' or spec.tier == 'thorough':
            spec.case('divideLayers (%s)' % NAMES[v], layers(v), contracts=contracts_(v))
        spec.case('bestFitness (%s)' % NAMES[v], best(v), contracts=contracts_(v))
        for p in (False, True):
            spec.case('updatePF (%s, %s)' % (NAMES[v], 'pointers' if p else 'iterators'), front(v, p), contracts=contracts_(v))
    import nsga_
    spec.case('smallest rank and dominance', minimal)
    for v in ('n2', 'ng'):
        spec.case('selection (%s)' % NAMES[v], selection(v), contracts=nsga_.contracts_(v))
