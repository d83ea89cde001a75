"""Selection step of NSGA-II: the body of the selection against the contracts of its callees (domination counts, layers,
reported front), which specs/M02.py proves from their bodies."""
from spec import *
from ga_ import *
from list_ import alive, D_, N_, LEN
import M02 as m2
import os
import sys
DBG = os.environ.get('VDEBUG')

RK = z3.Function('rankOf', I, I)             # domination count of an individual
E, EI = z3.Function('ordered', I, I), z3.Function('orderedAt', I, I)    # the sorting space after divideLayers, and its inverse
LAY, START = z3.Function('layerOf', I, I), z3.Function('startOf', I, I)


def c_ranks(eng, e):
    s = eng.mo
    S0 = eng.load(s.sortLoc)
    k = eng.fresh('k', I)
    x = eng.fresh('x', I)
    loc = e.get('loc', '')
    w = S0.get('el', 'i0')
    eng.oblige('the sorting space has one entry per individual', S0.kids['n'] == eng.N0, loc, 'pre')
    eng.oblige('every individual has its entry in the sorting space', Implies(And(k >= 0, k < eng.N0), w(k) == k), loc, 'pre')
    eng.store(s.popLoc, s.pop().put(('slot', 'el', 'dominated_by_num', 'e'), L(1, lambda i: RK(i))))
    i = z3.Int('i')
    eng.fact(z3.ForAll([i], And(RK(i) >= 0, RK(i) < (1 << 31)), patterns=[RK(i)]))
    return None


def c_layers(eng, e):
    s = eng.mo
    N = eng.N0
    k, l, j = eng.fresh('k', I), z3.Int('l'), z3.Int('j')
    loc = e.get('loc', '')
    S0 = eng.load(s.sortLoc)
    eng.oblige('the sorting space is complete', And(S0.kids['n'] == N, Implies(And(k >= 0, k < N), S0.get('el', 'i0')(k) == k)), loc, 'pre')
    eng.oblige('the ranks are known', Implies(And(k >= 0, k < N), s.rank(s.pop(), k) == RK(k)), loc, 'pre')
    s.put(s.sortLoc, lambda k: E(k), N)
    nl = eng.fresh('layers', I)
    s.nl = nl
    f = eng.fact
    f(And(nl >= 1, nl <= N, START(0) == 0, START(nl) == N, START(1) >= 1))
    f(z3.ForAll([j], Implies(And(j >= 0, j < N), And(E(j) >= 0, E(j) < N, EI(E(j)) == j)), patterns=[E(j)]))
    f(z3.ForAll([j], Implies(And(j >= 0, j < N), And(EI(j) >= 0, EI(j) < N, E(EI(j)) == j)), patterns=[EI(j)]))
    f(z3.ForAll([l], Implies(And(l >= 0, l < nl), And(START(l) < START(l + 1), START(l) >= 0, START(l + 1) <= N)), patterns=[START(l)]))
    f(z3.ForAll([l, j], Implies(And(l >= 0, l < j, j <= nl), START(l) < START(j)), patterns=[z3.MultiPattern(START(l), START(j))]))
    f(z3.ForAll([j], Implies(And(j >= 0, j < N), And(LAY(j) >= 0, LAY(j) < nl, START(LAY(j)) <= j, j < START(LAY(j) + 1))), patterns=[LAY(j)]))
    f(z3.ForAll([j, l], Implies(And(j >= 0, j < N, l >= 0, l < N), (RK(E(j)) < RK(E(l))) == (LAY(j) < LAY(l))), patterns=[z3.MultiPattern(E(j), E(l))]))
    eng.ground['ordered'] = lambda j: Implies(And(j >= 0, j < N), And(E(j) >= 0, E(j) < N, EI(E(j)) == j))
    eng.ground['orderedAt'] = lambda j: Implies(And(j >= 0, j < N), And(EI(j) >= 0, EI(j) < N, E(EI(j)) == j))
    eng.inverses['ordered'] = (lambda pre, k, X: And(k >= 0, k < N, *( [EI(k) < X] if X is not None else [])), lambda pre, k: EI(k))
    lv = eng.load(s.layLoc)
    p = ptr_of(s.popLoc.f('slot').i(z3.Int('x')))
    fn = lambda l, q: E(START(l) + q)
    kids = {q: (L(2, fn) if q.startswith('i') else L(2, lambda l, k, b=b: b)) for q, b in p.kids.items()}
    at = lv.get('slot', 'el')
    el = Node('arr', at.static, dict(at.kids, n=L(1, lambda l: START(l + 1) - START(l)), el=Node('ptr', p.static, kids)))
    import list_
    eng.store(s.layLoc, list_.mk(lv.static[1], nl, el, L(1, lambda *i: z3.BoolVal(False)), nl))
    return None


def c_update(eng, e):
    """the reported front becomes the set of the given individuals"""
    s = eng.mo
    a = [eng.ev(x) for x in e['args']]
    n = a[1].kids['e']
    p = eng.resolve_ptr(a[0])
    l = loc_of(p)
    arr = eng.load(Loc(l.root, l.path[:-1]))
    base = l.path[-1][1]
    loc = e.get('loc', '')
    eng.oblige('the front is read from a stored sequence', And(base == 0, n <= arr.kids['n']), loc, 'pre')
    w = arr.get('el', 'i0')
    src = lambda k: w(k)
    k = eng.fresh('k', I)
    eng.oblige('only members of the population are reported', Implies(And(k >= 0, k < n), alive(s.pop(), w(k))), loc, 'pre')
    has = eng.fresh('front', B, 1)
    AT = eng.fresh('frontAt', I, 1)
    q, x = z3.Int('q'), z3.Int('x')
    eng.pcfact(z3.ForAll([x], Implies(has(x), And(AT(x) >= 0, AT(x) < n, w(AT(x)) == x)), patterns=[has(x)]))
    eng.pcfact(z3.ForAll([q], Implies(And(q >= 0, q < n), has(w(q)))))
    s.fronts.append((has, w, n, And(*eng.st.pc)))
    H = eng.load(s.pfLoc)
    eng.store(s.pfLoc, Node('st', H.static, dict(H.kids, has=H.kids['has'].put(('el', 'e'), has), size=sc(eng.fresh('frontSize', I)))))
    return None


def contracts_(v):
    c = contracts(v)
    b = 'heu::internal::NSGABase::'
    c.update({b + 'calculateDominatedNum': c_ranks, b + 'divideLayers': c_layers, b + 'updatePF': c_update})
    return c


def setup(eng, n):
    s = m2.Mo(eng, n)
    eng.mo = s
    s.sorts = 2
    s.fronts, s.cut = [], None
    s.K = s.opt('populationSize')
    if n == 'nx':
        eng.assume(s.m <= 3)
    eng.assume(And(s.K >= 1, s.K < (1 << 30), eng.N0 >= s.K, eng.N0 < (1 << 30)))
    return s


def invert(eng, t, j, y, rng, pc):
    """the place j in the range at which a sequence with element term t has the value y"""
    if t.eq(j):
        return y

    def dep(u):
        return u.eq(j) or any(dep(k) for k in u.children())

    def inside(c):
        """the condition for places in the range"""
        if not dep(c):
            return c
        if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
            return z3.simplify(c.decl()(*[inside(k) for k in c.children()]))
        for v in (True, False):
            if eng.check_valid(eng.facts, pc, Implies(rng, c == z3.BoolVal(v)), 2000):
                return z3.BoolVal(v)
        raise Unsupported('sequence that cannot be inverted')
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        c = z3.simplify(inside(c))
        if is_true(c) or is_false(c):
            return invert(eng, a if is_true(c) else b, j, y, rng, pc)
        return If(c, invert(eng, a, j, y, rng, pc), invert(eng, b, j, y, rng, pc))
    if z3.is_app(t) and t.decl().name() in eng.inverses:
        k = t.num_args() - 1
        return invert(eng, t.arg(k), j, eng.inverses[t.decl().name()][1](None, y), rng, pc)
    raise Unsupported('sequence that cannot be inverted')


def guesses(eng):
    """closed forms of the loops over the set of selected individuals; the engine keeps them only if they are inductive"""
    s = eng.mo
    N = eng.N0
    member = lambda y: And(y >= 0, y < N)
    nlay = lambda S: s.nl - LEN(at_state(eng, S, s.layLoc))

    def guess(eng_, S0, paths, it):
        pd = tuple([s.popLoc.root] + [k for _, k in s.popLoc.path]) + ('dead', 'el', 'e')
        roots = [r for r in S0.store if S0.store[r].kind == 'st' and S0.store[r].static == ('hset',)]
        if len(roots) != 1:
            return None
        if pd in paths and not any(p[0] == roots[0] for p in paths):
            # individuals that are not selected are erased in the order of the sorting space
            if s.erasing is None:
                s.erasing = name_order(S0, roots[0])
            if not s.erasing:
                return None
            SEL, AT = s.erasing
            return {pd: lambda q: L(1, lambda x: And(member(x), Not(SEL(x)), AT(x) < q))}, None, None
        if not any(p[0] == roots[0] for p in paths):
            return None
        v0 = S0.store[roots[0]]
        has0, size0 = v0.get('has', 'el', 'e'), v0.get('size', 'e')
        hp, sp = (roots[0], 'has', 'el', 'e'), (roots[0], 'size', 'e')
        dead = [p for p in paths if p[-3:] == ('dead', 'el', 'e')]
        ln = [p for p in paths if p[-2:] == ('len', 'e')]
        when = None
        if dead and ln:                      # whole layers are taken
            r = {hp: lambda t: L(1, lambda x: And(member(x), EI(x) < START(t))), sp: lambda t: START(t),
                 dead[0]: lambda t: L(1, lambda l: And(l >= 0, l < t)), ln[0]: lambda t: s.nl - t}
            side = lambda t: And(t >= 0, t <= s.nl, START(t) >= 0, START(t) <= s.K)
            when = 'first'
        elif len(eng.perms) > s.sorts:       # the rest is taken from the sorted cut layer
            pi, inv, lo, hi = eng.perms[-1]
            T = nlay(S0)
            s.cut = (T, pi, inv)
            r = {hp: lambda q: L(1, lambda x: Or(has0(x), And(member(x), EI(x) >= START(T), EI(x) < START(T + 1), inv(EI(x) - START(T)) < q))),
                 sp: lambda q: size0 + q}
            side = lambda q: And(T >= 0, T < s.nl, size0 + q <= s.K, START(T + 1) <= N, START(T + 1) > s.K)
        else:                                # one layer is taken
            t = nlay(S0)
            r = {hp: lambda q: L(1, lambda x: Or(has0(x), And(member(x), EI(x) >= START(t), EI(x) < START(t) + q))), sp: lambda q: size0 + q}
            side = lambda q: And(t >= 0, t < s.nl, START(t) + q <= START(t + 1), START(t + 1) <= N)
        return r, side, when

    def name_order(S0, root):
        """short names for the selected set and for the order of the sorting space; its inverse is proved to be one"""
        j, x = z3.Int('inv!j'), z3.Int('inv!x')
        has0 = S0.store[root].get('has', 'el', 'e')
        s.selsize = S0.store[root].get('size', 'e')
        c = at_state(eng, S0, s.sortLoc).get('el', 'i0')
        bijections(S0, z3.simplify(c(j)), j)
        try:
            pos = invert(eng, z3.simplify(c(j)), j, x, And(j >= 0, j < N), S0.pc)
        except Unsupported:
            return ()
        at = lambda y: z3.substitute(pos, (x, y))
        SP, AT, SEL = eng.fresh('place', I, 1), eng.fresh('placeOf', I, 1), eng.fresh('isSelected', B, 1)
        inj = Implies(And(j >= 0, j < N), And(member(c(j)), at(c(j)) == j))
        sur = Implies(member(x), And(at(x) >= 0, at(x) < N, c(at(x)) == x))
        for g in (inj, sur):
            if not eng.check_valid(eng.facts, S0.pc, g, 10000):
                if DBG:
                    print('the order of the sorting space is not inverted', g, file=sys.stderr)
                return ()
        f = eng.fact
        f(z3.ForAll([j], SP(j) == c(j), patterns=[SP(j)]))
        f(z3.ForAll([x], AT(x) == at(x), patterns=[AT(x)]))
        f(z3.ForAll([x], SEL(x) == has0(x), patterns=[SEL(x)]))
        pc = And(*S0.pc)
        f(z3.ForAll([j], Implies(And(pc, j >= 0, j < N), And(member(SP(j)), AT(SP(j)) == j)), patterns=[SP(j)]))
        f(z3.ForAll([x], Implies(And(pc, member(x)), And(AT(x) >= 0, AT(x) < N, SP(AT(x)) == x)), patterns=[AT(x)]))
        sv = eng.st
        eng.st = S0
        eng.store(s.sortLoc, eng.load(s.sortLoc).put(('el', 'i0'), L(1, lambda k: SP(k))))
        eng.st = sv
        S0.store[root] = S0.store[root].put(('has', 'el', 'e'), L(1, lambda y: SEL(y)))
        return SEL, AT

    def bijections(S0, t, j, pc=()):
        """an injective map of the places into the individuals, of which there are as many, has an inverse (pigeonhole)"""
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.arg(t.num_args() - 1).eq(j) and t.decl().name() not in eng.inverses:
            i = z3.Int('inv!i')
            h = lambda y: t.decl()(*(list(t.children())[:-1] + [y]))
            ok = all(eng.check_valid(eng.facts, S0.pc + pc, g, 10000) for g in (Implies(And(j >= 0, j < N), member(h(j))), Implies(And(j >= 0, i > j, i < N), h(i) != h(j))))
            if ok:
                hi = eng.fresh('placeIn', I, 1)
                f1 = lambda y: Implies(And(y >= 0, y < N), And(member(h(y)), hi(h(y)) == y))
                f2 = lambda y: Implies(member(y), And(hi(y) >= 0, hi(y) < N, h(hi(y)) == y))
                pc = And(*S0.pc, *pc)
                eng.fact(z3.ForAll([j], Implies(pc, f1(j)), patterns=[h(j)]))
                eng.fact(z3.ForAll([j], Implies(pc, f2(j)), patterns=[hi(j)]))
                eng.inverses[t.decl().name()] = (lambda pre, k, X: And(member(k), *([hi(k) < X] if X is not None else [])), lambda pre, k: hi(k))
            elif DBG:
                print('not a bijection', t, file=sys.stderr)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            dep = lambda u: u.eq(j) or any(dep(k) for k in u.children())
            g = () if dep(c) else (c,)
            bijections(S0, a, j, pc + g)
            bijections(S0, b, j, pc + tuple(z3.Not(u) for u in g))
        else:
            for k in t.children():
                bijections(S0, k, j, pc)

    def hint(eng_, S0, H, rest, it, st, nxt):
        sp = tuple([s.sortLoc.root] + [k for _, k in s.sortLoc.path]) + ('el', 'i0')
        if sp not in rest:
            return []
        w = lambda S: at_state(eng, S, s.sortLoc).get('el', 'i0')
        nu = lambda S: at_state(eng, S, s.sortLoc).get('el', 'null')
        i, j = z3.Int('hi!i'), z3.Int('hi!j')
        rng = lambda y: And(y >= 0, y < N)
        return [('places hold individuals', lambda S, t: z3.ForAll([j], Implies(rng(j), member(w(S)(j))))),
                ('places hold no null', lambda S, t: z3.ForAll([j], Implies(rng(j), Not(nu(S)(j))))),
                ('places hold different individuals', lambda S, t: z3.ForAll([i, j], Implies(And(rng(j), i > j, i < N), w(S)(i) != w(S)(j))))]
    eng.hints = [hint]
    s.erasing = None
    eng.guesses = [guess]
    eng.noseries = eng.nocount = True
