"""R02: logistic chaos stays in the unit interval and its sequences are consistent (rounded arithmetic)."""
from spec import *
COMPLETE = True
import fp_
import R01

ASSUMPTIONS = ['IEEE-754 rounding: a monotone projection, exact for multiplication by four, with at most half a unit error in [-1,1] (engine/fp_.py)']


def obj(eng, x):
    T = eng.P.ty(eng.P.one('vroot::step')['params'][0]['t'])['to']
    v = eng.sym(T, 'c')
    (p, leaf), = list(v.leaves())
    return eng.new('chaos', v.put(p, x)), p


def rep(eng, nm):
    x = z3.Real(nm)
    eng.fact(fp_.F(64)(x) == x)
    return x


def value(eng, c):
    return eng.call_fn(eng.P.one('vroot::val')['id'], [ptr_of(c)]).kids['e']


def step(eng):
    fp_.axioms(eng)
    x = rep(eng, 'x')
    eng.assume(And(x >= 0, x <= 1))
    c, p = obj(eng, x)
    r = eng.call_fn(eng.P.one('vroot::step')['id'], [ptr_of(c)]).kids['e']
    f = fp_.F(64)
    u = f(1 - x)
    fp_.near(eng, 1 - x, 64)
    eng.fact(Implies(x >= z3.Q(1, 2), u == 1 - x))      # Sterbenz
    fp_.near(eng, 4 * x * u, 64)
    lem = And(u >= 0, u <= 1)
    eng.oblige('1-x is in [0,1]', lem, '', 'lemma')
    eng.fact(Implies(And(x >= 0, x <= 1), lem))
    # exact real value 4x(1-x) <= 1, moved by the rounding of 1-x
    t = 4 * x * u
    e = u - (1 - x)
    eng.oblige('4xu = 4x(1-x) + 4xe', t == 4 * x * (1 - x) + 4 * x * e, '', 'lemma')
    eng.oblige('4xu rounds into the interval', And(t >= 0, t <= 1 + fp_.U[64]), '', 'lemma')
    eng.fact(Implies(And(x >= 0, x <= 1), And(t >= 0, t <= 1 + fp_.U[64])))
    eng.oblige('the value stays in [0,1]', And(r >= 0, r <= 1), '', 'post')
    eng.oblige('the value is 4x(1-x) up to rounding', And(r - 4 * x * (1 - x) <= 4 * fp_.U[64], 4 * x * (1 - x) - r <= 4 * fp_.U[64]), '', 'post')
    eng.oblige('value() is the value returned', value(eng, c) == r, '', 'post')


def start(eng):
    x = rep(eng, 'x')
    eng.assume(And(x > 0, x < 1))
    r = eng.call_fn(eng.P.one('vroot::start')['id'], [sc(x)]).kids['e']
    eng.oblige('the first value is the seed', r == x, '', 'post')


def dstart(eng):
    r = eng.call_fn(eng.P.one('vroot::dstart')['id'], []).kids['e']
    eng.oblige('in [0,1)', And(r >= 0, r < 1), '', 'post')


def orbit(eng):
    """O(k): the state after k single steps, defined by the real step function"""
    x = rep(eng, 'x')
    c, p = obj(eng, x)
    eng.quiet += 1
    r = eng.call_fn(eng.P.one('vroot::step')['id'], [ptr_of(c)]).kids['e']
    eng.quiet -= 1
    O = z3.Function('orbit', I, R)
    k = z3.Int('ko')
    f = fp_.F(64)
    eng.fact(z3.ForAll([k], f(O(k)) == O(k), patterns=[O(k)]))
    eng.fact(z3.ForAll([k], Implies(k >= 0, O(k + 1) == z3.simplify(z3.substitute(r, (x, O(k))))), patterns=[O(k)]))
    return O


def skip(eng):
    O = orbit(eng)
    c, p = obj(eng, O(z3.IntVal(0)))
    n = z3.Int('n')
    eng.assume(And(n >= 0, n < (1 << 64)))
    eng.hints.append(lambda eng, S0, H, rest, it, s, nxt: [('orbit+%d' % d, lambda S, x, q=q, d=d: eng.leaf_at(S, q) == O(x + d))
                                                       for q in rest for d in (0, 1) if not isinstance(eng.leaf_at(S0, q), L)])
    eng.call_fn(eng.P.one('vroot::skip')['id'], [ptr_of(c), sc(n)])
    eng.oblige('skipping n steps equals n single steps', value(eng, c) == O(n), '', 'post')


def seq(eng):
    O = orbit(eng)
    c, p = obj(eng, O(z3.IntVal(0)))
    N, off, n, k = z3.Ints('cap off n k')
    fn = eng.P.one('vroot::seq')
    D = eng.P.ty(eng.P.strip(fn['params'][1]['t']))['to']
    v0 = Node('arr', (D, 'array', None), {'n': N, 'el': eng.sym(D, 'buf', 1)})
    l = eng.new('buf', v0)
    eng.assume(And(N >= 0, N < (1 << 60), off >= 0, n >= 0, off + n <= N))

    def hint(eng, S0, H, rest, it, s, nxt):
        out = []
        j = z3.Int('jh')
        for q in rest:
            v = eng.leaf_at(S0, q)
            for d in (0, 1):
                if isinstance(v, L) and v.ar == 1 and eng.leafsort(v) == R:
                    out.append(('batch+%d' % d, lambda S, x, q=q, d=d: z3.ForAll([j], Implies(And(j >= off, j < off + x + d), eng.leaf_at(S, q)(j) == O(j - off + 1)))))
                    out.append(('last+%d' % d, lambda S, x, q=q, d=d: eng.leaf_at(S, q)(off + x + d - 1) == O(x + d)))
                    if d == 0:
                        out.append(('frame', lambda S, x, q=q: z3.ForAll([j], Implies(Or(j < off, j >= off + n), eng.leaf_at(S, q)(j) == v0.get('el', 'e')(j)))))
                elif not isinstance(v, L) and v.sort() == R:
                    out.append(('orbit+%d' % d, lambda S, x, q=q, d=d: eng.leaf_at(S, q) == O(x + d)))
        return out
    eng.hints.append(hint)
    eng.call_fn(fn['id'], [ptr_of(c), ptr_of(l.i(off)), sc(n)])
    x1 = eng.load(l).get('el', 'e')
    eng.oblige('element k of the batch is the value after k+1 single steps', Implies(And(k >= off, k < off + n), x1(k) == O(k - off + 1)), '', 'post')
    eng.oblige('nothing else is written', Implies(And(k >= 0, k < N, Or(k < off, k >= off + n)), x1(k) == v0.get('el', 'e')(k)), '', 'post')
    eng.oblige('the state is the same as after that many single steps', value(eng, c) == O(n), '', 'post')


def build(spec):
    kw = dict(fpmode='rnd', contracts={'heu::randD': R01.randD0})
    spec.case('construction from a seed', start, **kw)
    spec.case('default construction', dstart, **kw)
    spec.case('one step', step, **kw)
    spec.case('iterate(n)', skip, overflow=True, **kw)
    spec.case('makeSequence(dst,n)', seq, overflow=True, **kw)
