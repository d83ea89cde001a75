"""A02: binding states and energies are the means the algorithm is defined by."""
from spec import *
from list_ import alive, D_, N_, LEN
COMPLETE = True

ASSUMPTIONS = ['real numbers stand for doubles (means up to rounding)', 'the electron list is taken with all its elements alive; all states have the dimension of the problem (A01, B01)']
NAMES = {'sv': 'std::vector', 'sa': 'std::array', 'ea': 'fixed Eigen array', 'ex': 'dynamic Eigen array', 'l': 'less is better', 'g': 'greater is better'}
I, R = z3.IntSort(), z3.RealSort()


class Ao:
    def __init__(s, eng, n):
        s.eng, s.n = eng, n
        f = eng.P.one('vroot::%s_atom' % n)
        s.T = eng.P.ty(f['params'][0]['t'])['to']
        s.obj = eng.new('solver', eng.sym(s.T, 's'))
        s.pop, s.bs, s.lay = s.get('pop'), s.get('bs'), s.get('lay')
        s.P0 = eng.load(s.pop)
        s.N = N_(s.P0)
        s.d = {'sa': z3.IntVal(4), 'ea': z3.IntVal(3)}.get(n[:2])
        if s.d is None:
            s.d = z3.Int('dimension')
            eng.assume(And(s.d >= 1, s.d < (1 << 31)))
            d = s.d
            s.P0 = s.P0.put(('slot', 'el', 'state', 'n'), L(1, lambda i: d))
            eng.store(s.pop, s.P0)
        eng.assume(And(s.N >= 1, s.N < (1 << 31)))

    def get(s, what, *a):
        e = s.eng
        e.quiet += 1
        try:
            r = e.call_fn(e.P.one('vroot::%s_%s' % (s.n, what))['id'], [ptr_of(s.obj)] + list(a))
        finally:
            e.quiet -= 1
        return r if isinstance(r, Loc) else r.kids['e']

    def state(s, i, k):
        return s.P0.get('slot', 'el', 'state', 'el', 'e')(i, k)

    def energy(s, i):
        return s.P0.get('slot', 'el', 'energy', 'e')(i)

    def better(s, a, b):
        return a < b if s.n[-1] == 'l' else a > b


def atom(n):
    def f(eng):
        s = Ao(eng, n)
        b0 = z3.Int('best0')
        eng.assume(And(b0 >= 0, b0 < s.N))
        bl = s.obj.f('_atomBestPtr')
        eng.store(bl, ptr_of(s.pop.f('slot').i(b0)))
        es0 = s.get('es')
        eng.assume(And(es0 >= 0, es0 < (1 << 62)))
        # partial sums
        SS, SE = z3.Function('sumStates', I, I, R), z3.Function('sumEnergies', I, R)
        i, k = z3.Int('i'), z3.Int('k')
        z = z3.IntVal(0)
        eng.fact(z3.ForAll([k], SS(0, k) == 0, patterns=[SS(0, k)]))
        eng.fact(z3.ForAll([i, k], Implies(i >= 0, SS(i + 1, k) == SS(i, k) + s.state(i, k)), patterns=[SS(i + 1, k)]))
        eng.fact(SE(0) == 0)
        eng.fact(z3.ForAll([i], Implies(i >= 0, SE(i + 1) == SE(i) + s.energy(i)), patterns=[SE(i + 1)]))
        eng.noseries = True
        jh = z3.Int('hj')

        def hint(eng_, S0, H, rest, it, st, nxt):
            out = []
            out.append(('state sums', lambda S, x: z3.ForAll([jh], Implies(And(jh >= 0, jh < s.d), at_state(eng, S, s.bs).get('el', 'e')(jh) == SS(x, jh)))))
            out.append(('energy sum', lambda S, x: at_state(eng, S, s.obj.f('_bindingEnergy')).kids['e'] == SE(x)))
            return out
        eng.hints = [hint, best_hint(lambda eng, S, j: s.energy(j), s.better)]
        eng.call_fn(eng.P.one('vroot::%s_atom' % n)['id'], [ptr_of(s.obj)])
        P1 = eng.load(s.pop)
        B1 = eng.load(s.bs)
        eng.oblige('binding state has the dimension of the problem', B1.kids['n'] == s.d, '', 'post')
        eng.oblige('binding state is the mean of the states', Implies(And(k >= 0, k < s.d), B1.get('el', 'e')(k) == SS(s.N, k) / z3.ToReal(s.N)), '', 'post')
        eng.oblige('binding energy is the mean of the energies', s.get('be') == SE(s.N) / z3.ToReal(s.N), '', 'post')
        b1 = s.get('best').path[-1][1]
        eng.oblige('the best electron is an electron', And(b1 >= 0, b1 < s.N, z3.BoolVal(s.get('best').path[:-1] == s.pop.f('slot').path)), '', 'post')
        eng.oblige('no electron is better than the best one', Implies(And(i >= 0, i < s.N), Not(s.better(s.energy(i), s.energy(b1)))), '', 'post')
        eng.oblige('the early-stop counter grows by one exactly when the best energy did not change, else it is reset',
                   s.get('es') == If(s.energy(b1) == s.energy(b0), es0 + 1, z3.IntVal(0)), '', 'post')
        eng.oblige('electrons are not changed', And(N_(P1) == s.N, LEN(P1) == s.N, Implies(And(i >= 0, i < s.N), And(
            P1.get('slot', 'el', 'energy', 'e')(i) == s.energy(i), P1.get('slot', 'el', 'state', 'el', 'e')(i, k) == s.state(i, k),
            P1.get('slot', 'el', 'isComputed', 'e')(i) == s.P0.get('slot', 'el', 'isComputed', 'e')(i)))), '', 'post')
    return f


def layers(n):
    def f(eng):
        s = Ao(eng, n)
        LY = eng.load(s.lay)
        NL = LY.kids['n']
        LS = lambda l: LY.get('el', '$seq', 'n')(l)                  # size of a layer
        PT = z3.Function('member', I, I, I)                          # electron of a layer
        l, q, k, i = z3.Int('l'), z3.Int('q'), z3.Int('k'), z3.Int('i')
        eng.assume(And(NL >= 0, NL < (1 << 31)))
        eng.fact(z3.ForAll([l], And(LS(l) >= 1, LS(l) < (1 << 31))))
        eng.fact(z3.ForAll([l, q], And(PT(l, q) >= 0, PT(l, q) < s.N), patterns=[PT(l, q)]))
        p = ptr_of(s.pop.f('slot').i(z3.Int('x')))
        seq = LY.get('el', '$seq')
        kids = {a: (L(2, lambda l, q: PT(l, q)) if a.startswith('i') else L(2, lambda l, q: b) if not isinstance(b, L) else b) for a, b in p.kids.items()}
        seq = Node('arr', seq.static, dict(seq.kids, el=Node('ptr', p.static, kids)))
        LY = LY.put(('el', '$seq'), seq)
        eng.store(s.lay, LY)
        # partial sums over the members of a layer
        SS, SE = z3.Function('layerStates', I, I, I, R), z3.Function('layerEnergies', I, I, R)
        eng.fact(z3.ForAll([l, k], SS(l, 1, k) == s.state(PT(l, 0), k), patterns=[SS(l, 1, k)]))
        eng.fact(z3.ForAll([l, q, k], Implies(q >= 1, SS(l, q + 1, k) == SS(l, q, k) + s.state(PT(l, q), k)), patterns=[SS(l, q + 1, k)]))
        eng.fact(z3.ForAll([l], SE(l, 1) == s.energy(PT(l, 0)), patterns=[SE(l, 1)]))
        eng.fact(z3.ForAll([l, q], Implies(q >= 1, SE(l, q + 1) == SE(l, q) + s.energy(PT(l, q))), patterns=[SE(l, q + 1)]))
        eng.noseries = True
        jh = z3.Int('hj')

        def hint(eng_, S0, H, rest, it, st, nxt):
            li = eng.ghosts[-1] if eng.ghosts else None
            if li is None:
                return []
            if li.eq(it):
                if len(eng.ghosts) < 2:
                    return []
                li = eng.ghosts[-2]
            lay = lambda S: select(at_state(eng, S, s.lay).kids['el'], li)
            bi = lambda S: lay(S).get('layerBestIdx', 'e')
            en = lambda q: s.energy(PT(li, q))
            return [('state sums', lambda S, x: z3.ForAll([jh], Implies(And(jh >= 0, jh < s.d), lay(S).get('bindingState', 'el', 'e')(jh) == SS(li, x + 1, jh)))),
                    ('state size', lambda S, x: lay(S).get('bindingState', 'n') == s.d),
                    ('energy sum', lambda S, x: lay(S).get('bindingEnergy', 'e') == SE(li, x + 1)),
                    ('best index', lambda S, x: And(bi(S) >= 0, bi(S) <= x, bi(S) < LS(li))),
                    ('best so far', lambda S, x: z3.ForAll([jh], Implies(And(jh >= 0, jh <= x), Not(s.better(en(jh), en(bi(S)))))))]
        eng.hints = [hint]
        eng.call_fn(eng.P.one('vroot::%s_layer' % n)['id'], [ptr_of(s.obj)])
        L1 = eng.load(s.lay)
        ins = And(l >= 0, l < NL)
        g = lambda *a: L1.get('el', *a)
        eng.oblige('the layers and their members are not changed', And(L1.kids['n'] == NL, Implies(And(ins, q >= 0, q < LS(l)), And(g('$seq', 'n')(l) == LS(l), g('$seq', 'el', 'i0')(l, q) == PT(l, q)))), '', 'post')
        eng.oblige('binding states have the dimension of the problem', Implies(ins, g('bindingState', 'n')(l) == s.d), '', 'post')
        eng.oblige('binding states are the means of the members', Implies(And(ins, k >= 0, k < s.d), g('bindingState', 'el', 'e')(l, k) == SS(l, LS(l), k) / z3.ToReal(LS(l))), '', 'post')
        eng.oblige('binding energies are the means of the members', Implies(ins, g('bindingEnergy', 'e')(l) == SE(l, LS(l)) / z3.ToReal(LS(l))), '', 'post')
        b = g('layerBestIdx', 'e')
        eng.oblige('the best member is a member', Implies(ins, And(b(l) >= 0, b(l) < LS(l))), '', 'post')
        eng.oblige('no member is better than the best one', Implies(And(ins, q >= 0, q < LS(l)), Not(s.better(s.energy(PT(l, q)), s.energy(PT(l, b(l)))))), '', 'post')
        P1 = eng.load(s.pop)
        eng.oblige('electrons are not changed', And(N_(P1) == s.N, LEN(P1) == s.N, Implies(And(i >= 0, i < s.N), And(
            P1.get('slot', 'el', 'energy', 'e')(i) == s.energy(i), P1.get('slot', 'el', 'state', 'el', 'e')(i, k) == s.state(i, k)))), '', 'post')
    return f


def build(spec):
    for v in ('sv', 'sa', 'ea', 'ex'):
        for d in 'lg':
            spec.case('atom means (%s, %s)' % (NAMES[v], NAMES[d]), atom(v + d))
            spec.case('layer means (%s, %s)' % (NAMES[v], NAMES[d]), layers(v + d))
