"""F01: single-objective benchmark functions return their published formula's value (arithmetic over the reals)."""
from spec import *
import eqr
COMPLETE = True
ASSUMPTIONS = ['floating-point arithmetic is treated as arithmetic over the reals, decimal constants as the numbers they are written as; pi and e are the doubles the code names M_PI and M_E',
               'sin, cos, exp, sqrt, pow with a non-integral or large exponent are uninterpreted functions shared by code and formula; Eigen sum() adds all elements in some order',
               'equality of two real terms is decided by engine/eqr.py, engine/poly.py (polynomial normal form, sums compared element by element) or z3',
               'the value 1/0 is left open']
PI = z3.RealVal('3.141592653589793')
EE = z3.RealVal('2.718281828459045')
q = z3.RealVal
sin, cos, exp, sqrt = [lib.fun(n) for n in ('sin', 'cos', 'exp', 'sqrt')]
pow_ = lib.fun('pow', 2)
ab = lib.mabs
sq = lambda x: x * x


def goldstein(x, y):
    return (1 + sq(x + y + 1) * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y)) * \
        (30 + sq(2 * x - 3 * y) * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y))


TWO = {
    'ackley': lambda x, y: -20 * exp(q('-0.2') * sqrt(q('0.5') * (x * x + y * y))) - exp(q('0.5') * (cos(2 * PI * x) + cos(2 * PI * y))) + EE + 20,
    'beale': lambda x, y: sq(q('1.5') - x + x * y) + sq(q('2.25') - x + x * y * y) + sq(q('2.625') - x + x * y * y * y),
    'GoldsteinPrice': goldstein,
    'booth': lambda x, y: sq(x + 2 * y - 7) + sq(2 * x + y - 5),
    'bukin': lambda x, y: 100 * sqrt(ab(y - q('0.01') * x * x)) + q('0.01') * ab(x + 10),
    'matyas': lambda x, y: q('0.26') * (x * x + y * y) - q('0.48') * x * y,
    'levy': lambda x, y: sq(sin(3 * PI * x)) + sq(x - 1) * (1 + sq(sin(3 * PI * y))) + sq(y - 1) * (1 + sq(sin(2 * PI * y))),
    'himmelblau': lambda x, y: sq(x * x + y - 11) + sq(x + y * y - 7),
    'threeHumpCamel': lambda x, y: 2 * x * x - q('1.05') * x * x * x * x + x * x * x * x * x * x / 6 + x * y + y * y,
    'easom': lambda x, y: -cos(x) * cos(y) * exp(-(sq(x - PI) + sq(y - PI))),
    'crossInTray': lambda x, y: q('-0.0001') * pow_(ab(sin(x) * sin(y) * exp(ab(100 - sqrt(x * x + y * y) / PI))) + 1, q('0.1')),
    'eggHolder': lambda x, y: -(y + 47) * sin(sqrt(ab(x / 2 + (y + 47)))) - x * sin(sqrt(ab(x - (y + 47)))),
    'holderTable': lambda x, y: -ab(sin(x) * cos(y) * exp(ab(1 - sqrt(x * x + y * y) / PI))),
    'McCormick': lambda x, y: sin(x + y) + sq(x - y) - q('1.5') * x + q('2.5') * y + 1,
    'schaffer2': lambda x, y: q('0.5') + (sq(sin(x * x - y * y)) - q('0.5')) / sq(1 + q('0.001') * (x * x + y * y)),
    'schaffer4': lambda x, y: q('0.5') + (sq(cos(sin(ab(x * x - y * y)))) - q('0.5')) / sq(1 + q('0.001') * (x * x + y * y)),
}
# value = A*n + sum of the terms over i < n - skip
ANY_N = {
    'rastrigin': lambda eng, n, x: 10 * z3.ToReal(n) + lib.psum(eng, n, lambda i: sq(x(i)) - 10 * cos(2 * PI * x(i))),
    'sphere': lambda eng, n, x: lib.psum(eng, n, lambda i: sq(x(i))),
    'rosenbrock': lambda eng, n, x: lib.psum(eng, z3.simplify(n - 1), lambda i: 100 * sq(x(z3.simplify(i + 1)) - sq(x(i))) + sq(1 - x(i))),
    'styblinskiTang': lambda eng, n, x: lib.psum(eng, n, lambda i: sq(sq(x(i))) - 16 * sq(x(i)) + 5 * x(i)) / 2,
}
NAMES = {'a1': 'std::array<1>', 'a2': 'std::array<2>', 'a7': 'std::array<7>', 'ax': 'std::vector', 'e2': 'Eigen::Array2d', 'e7': 'Eigen::Array<7>', 'ex': 'Eigen::ArrayXd', 'm2': 'Eigen::Vector2d', 'mx': 'Eigen::VectorXd'}


def equal(eng, name, a, b):
    ok = eqr.equal(eng, list(eng.facts) + list(eng.st.pc), a, b)
    eng.oblige(name, z3.BoolVal(True) if ok else a == b, '', 'post')


def value(v, fn, arg):
    def f(eng):
        F = eng.P.one('vroot::%s_%s%s' % (v, fn, '_a' if arg else ''))
        T = eng.P.ty(F['params'][0]['t'])['to']
        x = eng.new('x', eng.sym(T, 'x'))
        out = eng.new('f', sc(z3.Real('f0')))
        X0 = eng.load(x)
        n = X0.kids['n']
        if fn in TWO:
            eng.assume(n == 2)
        else:
            eng.assume(And(n >= (1 if fn == 'rosenbrock' else 0), n < (1 << 31)))
        xs = lambda i: X0.get('el', 'e')(i)
        a = [ptr_of(x)]
        if arg:
            A = eng.P.ty(F['params'][1]['t'])['to']
            ar = eng.new('arg', eng.sym(A, 'arg'))
            A0 = eng.load(ar)
            a.append(ptr_of(ar))
        eng.call_fn(F['id'], a + [ptr_of(out)])
        r = eng.load(out).kids['e']
        if fn in TWO:
            w = TWO[fn](xs(z3.IntVal(0)), xs(z3.IntVal(1)))
        else:
            w = ANY_N[fn](eng, n, xs)
        equal(eng, 'the value is the published formula\'s', r, w)
        X1 = eng.load(x)
        i = z3.Int('i')
        eng.oblige('the point is not modified', And(X1.kids['n'] == n, X1.get('el', 'e')(i) == xs(i)), '', 'post')
        if arg:
            eng.oblige('the argument is not modified', eng.load(ar).get('k', 'e') == A0.get('k', 'e'), '', 'post')
    return f


def build(spec):
    kw = dict(overflow=True, decimal=True)
    for fn in TWO:
        for v in ('a2', 'ax', 'e2', 'ex', 'm2', 'mx'):
            for arg in (0, 1):
                spec.case('%s, %s%s' % (fn, NAMES[v], ', with arguments' if arg else ''), value(v, fn, arg), **kw)
    for fn in ANY_N:
        for v in NAMES:
            for arg in (0, 1):
                spec.case('%s, %s%s' % (fn, NAMES[v], ', with arguments' if arg else ''), value(v, fn, arg), **kw)
