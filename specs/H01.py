"""H01: numeric helpers compute their mathematical definitions."""
from spec import *
COMPLETE = True
import math

ASSUMPTIONS = ['floating-point arithmetic is modelled by real numbers; integer arithmetic is exact machine arithmetic with overflow excluded',
               'exp is positive, sqrt of a positive number is positive (library functions)',
               'lemma: C(m+i,i)*i = C(m+i-1,i-1)*(m+i) and C(N,K)=C(N,N-K) define the binomial coefficient']
W = {'int': (32, 1), 'size': (64, 0), 'uint': (32, 0), 'int64': (64, 1), 'short': (16, 1), 'uint8': (8, 0)}


def rng(t):
    w, s = W[t]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def arg(t, n):
    if t in W:
        return z3.Int(n)
    return z3.Real(n)


def dom(eng, t, *xs):
    if t in W:
        lo, hi = rng(t)
        eng.assume(And(*[And(x >= lo, x <= hi) for x in xs]))


def call(eng, n, *xs):
    return eng.call_fn(eng.P.one('vroot::' + n)['id'], [sc(x) for x in xs]).kids['e']


def square(t):
    def f(eng):
        a = arg(t, 'a')
        dom(eng, t, a)
        if t in W:
            eng.assume(a * a <= rng(t)[1])
        eng.oblige('the square', call(eng, t + '_sq', a) == a * a, '', 'post')
    return f


def sign(t):
    def f(eng):
        a = arg(t, 'a')
        dom(eng, t, a)
        r = call(eng, t + '_sg', a)
        eng.oblige('the sign', r == If(a > 0, r.sort().cast(1), If(a < 0, r.sort().cast(-1), r.sort().cast(0))), '', 'post')
    return f


def minmax(t, n, what):
    def f(eng):
        xs = [arg(t, 'x%d' % i) for i in range(n)]
        dom(eng, t, *xs)
        r = call(eng, '%s_%s%d' % (t, what, n), *xs)
        eng.oblige('no argument is beyond the result', And(*[r <= x if what == 'mn' else r >= x for x in xs]), '', 'post')
        eng.oblige('the result is one of the arguments', Or(*[r == x for x in xs]), '', 'post')
    return f


def factorial(t):
    def f(eng):
        S = I if t in W else R
        F = z3.Function('fact', I, S)
        n = z3.Int('n')
        eng.assume(n >= 0)
        N = n if t in W else z3.ToReal(n)
        if t in W:
            eng.assume(And(F(n) <= rng(t)[1], n <= rng(t)[1]))
        cast = lambda x: x if t in W else z3.ToReal(x)
        eng.fact(Implies(n >= 1, F(n) == cast(n) * F(n - 1)))
        eng.fact(And(F(z3.IntVal(0)) == 1, F(z3.IntVal(1)) == 1))
        eng.fact(And(Implies(n >= 1, And(F(n - 1) >= 1, cast(n) * F(n - 1) >= F(n - 1)))))

        def rec(eng, e):
            m = eng.ev(e['args'][0]).kids['e']
            eng.oblige('recursion: the argument decreases and stays a natural number', And(m >= 0, m < N), e.get('loc', ''), 'decreases')
            eng.oblige('recursion: the argument is the predecessor', m == N - 1, e.get('loc', ''), 'pre')
            r = eng.fresh('facm', S)
            eng.pcfact(r == F(n - 1))
            return sc(r)
        # the call made by the root is the function under contract; calls inside it use the contract
        fn = eng.P.one('vroot::%s_f' % t)
        top = []

        def h(eng, e):
            if not top:
                top.append(1)
                return NotImplemented
            return rec(eng, e)
        eng.contracts['heu::fractorial'] = h
        r = call(eng, t + '_f', N)
        eng.oblige('n!', r == F(n), '', 'post')
    return f


def choose(t):
    def f(eng):
        S = I if t in W else R
        eng.noseries = True    # the loop is described by its own invariant below
        C = z3.Function('choose', I, I, S)
        B = z3.Function('prodform', I, S)     # C(N-K+i, i)
        n, k = z3.Ints('n k')
        eng.assume(And(k >= 0, k <= n))
        cast = (lambda x: x) if t in W else z3.ToReal
        j = z3.Int('jb')
        if t in W:
            hi = rng(t)[1]
            eng.assume(And(n <= hi, C(n, k) <= hi))
        eng.fact(C(n, k) == C(n, n - k))
        # the product form
        eng.fact(B(z3.IntVal(0)) == 1)
        eng.fact(z3.ForAll([j], Implies(And(j >= 1, j <= k), And(cast(j) * B(j) == B(j - 1) * cast(n - k + j), B(j) >= 1)), patterns=[B(j)]))
        eng.fact(C(n, k) == B(k))
        if t in W:
            # precondition: the intermediates of the product form are representable
            iw = max(W[t][0], 32)
            hi2 = (1 << (iw - 1)) - 1 if W[t][1] or W[t][0] < 32 else (1 << iw) - 1
            eng.fact(z3.ForAll([j], Implies(And(2 * k <= n, j >= 1, j <= k), And(B(j - 1) * (n - k + j) <= hi2, B(j) <= hi)), patterns=[B(j)]))
            a, b, x = z3.Ints('la lb lx')
            eng.oblige('lemma: an exact product divides back', Implies(And(a >= 1, a * b == x), x / a == b), '', 'lemma')
            eng.fact(z3.ForAll([j], Implies(And(j >= 1, j <= k), (B(j - 1) * (n - k + j)) / j == B(j)), patterns=[B(j)]))
        else:
            eng.fact(z3.ForAll([j], Implies(And(j >= 1, j <= k), (B(j - 1) * cast(n - k + j)) / cast(j) == B(j)), patterns=[B(j)]))
        top = []

        def h(eng, e):
            if not top:
                top.append(1)
                return NotImplemented
            a, b = [eng.ev(x).kids['e'] for x in e['args']]
            eng.oblige('recursion: the other half of the same row', And(a == cast(n), b == cast(n - k)), e.get('loc', ''), 'pre')
            eng.oblige('recursion terminates: the smaller half', 2 * b < a, e.get('loc', ''), 'decreases')
            r = eng.fresh('half', S)
            eng.pcfact(r == C(n, n - k))
            return sc(r)
        eng.contracts['heu::NchooseK'] = h
        eng.hints.append(lambda eng, S0, H, rest, it, s, nxt: [('product form+%d' % d, lambda S, x, q=q, d=d: eng.leaf_at(S, q) == B(x + d))
                                                           for q in rest for d in (0, 1) if not isinstance(eng.leaf_at(S0, q), L)] +
                         [('trigger', lambda S, x: And(x >= 0, Implies(x + 1 <= k, B(x + 1) >= 1)))])
        r = call(eng, t + '_c', cast(n), cast(k))
        eng.oblige('the binomial coefficient', r == C(n, k), '', 'post')
    return f


def gauss(eng):
    x, m, s = z3.Reals('x mu sigma')
    eng.assume(s > 0)
    eng.mathfacts = True
    y = call(eng, 'gc', x, m, s)
    eng.quiet += 1
    y2 = call(eng, 'gc', 2 * m - x, m, s)
    eng.quiet -= 1
    rt = z3.Real('root')
    import lib
    t = lib.munary(eng, 'exp', -((x - m) * (x - m)) / (2 * (s * s)))
    twopi = z3.Q(*(2 * math.pi).as_integer_ratio())
    eng.oblige('positive', y > 0, '', 'post')
    eng.oblige('symmetric about its mean', y == y2, '', 'post')
    # y = t / (sigma*r) with r the non-negative root of 2 pi
    eng.oblige('the normal density', Implies(And(rt > 0, rt * rt == twopi), y * s * rt == t), '', 'post')


def gauss1(eng):
    x = z3.Real('x')
    y = call(eng, 'gc1', x)
    eng.quiet += 1
    z = call(eng, 'gc', x, z3.RealVal(0), z3.RealVal(1))
    eng.quiet -= 1
    eng.oblige('the defaults are mean 0 and deviation 1', y == z, '', 'post')


def build(spec):
    for t in list(W) + ['double', 'float']:
        kw = dict(overflow=True)
        spec.case('square (%s)' % t, square(t), **kw)
        spec.case('sign (%s)' % t, sign(t), **kw)
        for n in (2, 3, 4, 5):
            spec.case('min of %d (%s)' % (n, t), minmax(t, n, 'mn'), **kw)
            spec.case('max of %d (%s)' % (n, t), minmax(t, n, 'mx'), **kw)
        spec.case('factorial (%s)' % t, factorial(t), **kw)
        if t != 'float':
            spec.case('binomial (%s)' % t, choose(t), **kw)
    spec.case('gaussianCurve', gauss)
    spec.case('gaussianCurve defaults', gauss1)
