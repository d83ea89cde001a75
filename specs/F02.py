"""F02: multi-objective benchmark functions write their published formulas' values (arithmetic over the reals)."""
from spec import *
import math
import poly
from fractions import Fraction
from F01 import PI, q, sin, cos, exp, sqrt, pow_, ab, sq, equal
COMPLETE = True
ASSUMPTIONS = ['floating-point arithmetic is treated as arithmetic over the reals, decimal constants as the numbers they are written as; pi is the double the code names M_PI; two published constants of Poloni\'s function are compared to 4 ulp',
               'sin, cos, exp, sqrt, pow with a non-integral or large exponent are uninterpreted functions shared by code and formula; Eigen sum() adds all elements in some order',
               'equality of two real terms is decided by engine/eqr.py, engine/poly.py (polynomial normal form, sums compared element by element) or z3',
               'the value 1/0 is left open',
               'DTLZ8, DTLZ9: number of variables times (number of objectives + 1) below 2^31; DTLZ1-7: at most 20 million variables',
               'DTLZ8: the sum of any two objectives is less than infinity',
               'DTLZ8 with run-time fitness size: 3, 4 and 6 objectives, every number of variables (the number of objectives is unbounded in all others)']
Z = lambda x: z3.IntVal(x)
toR = lib.toR


def penal(f, g, big):
    """constraint violations are added to the objective they belong to"""
    return If(g > 0, f + big + g, f)


def schaffer1(eng, x, n, m):
    v = x(Z(0))
    return [v * v, sq(v - 2)]


def schaffer2(eng, x, n, m):
    v = x(Z(0))
    return [If(v <= 1, -v, If(v <= 3, v - 2, If(v <= 4, 4 - v, v - 4))), sq(v - 5)]


def binh(eng, p, n, m):
    x, y = p(Z(0)), p(Z(1))
    return [penal(4 * x * x + 4 * y * y, sq(x - 5) + y * y - 25, 100000), penal(sq(x - 5) + sq(y - 5), q('7.7') - sq(x - 8) - sq(y + 3), 100000)]


def chankong(eng, p, n, m):
    x, y = p(Z(0)), p(Z(1))
    return [penal(2 + sq(x - 2) + sq(y - 1), x * x + y * y - 225, 100000), penal(9 * x - sq(y - 1), x - 3 * y + 10, 100000)]


def poloni(eng, p, n, m):
    x, y = p(Z(0)), p(Z(1))
    b1 = q('0.5') * sin(x) - 2 * cos(x) + sin(y) - q('1.5') * cos(y)
    b2 = q('1.5') * sin(x) - cos(x) + 2 * sin(y) - q('0.5') * cos(y)
    one, two = z3.RealVal(1), z3.RealVal(2)
    a1 = [q('0.5') * sin(one) - 2 * cos(one) + sin(two) - q('1.5') * cos(two)]
    a2 = [q('1.5') * sin(one) - cos(one) + 2 * sin(two) - q('0.5') * cos(two)]
    for l, v in ((a1, 0.5 * math.sin(1) - 2 * math.cos(1) + math.sin(2) - 1.5 * math.cos(2)), (a2, 1.5 * math.sin(1) - math.cos(1) + 2 * math.sin(2) - 0.5 * math.cos(2))):
        for k in range(-4, 5):
            w = v
            for _ in range(abs(k)):
                w = math.nextafter(w, math.inf if k > 0 else -math.inf)
            l.append(z3.RealVal(str(Fraction(repr(w)))))
    return [[1 + sq(u - b1) + sq(w - b2) for u in a1 for w in a2], sq(x + 3) + sq(y + 1)]


def viennet(eng, p, n, m):
    x, y = p(Z(0)), p(Z(1))
    r = x * x + y * y
    return [r / 2 + sin(r), sq(3 * x - 2 * y + 4) / 8 + sq(x - y + 1) / 27 + 15, 1 / (r + 1) - q('1.1') * exp(-r)]


def fonseca(eng, x, n, m):
    k = 1 / sqrt(toR(n))
    return [1 - exp(-lib.psum(eng, n, lambda i: sq(x(i) - k))), 1 - exp(-lib.psum(eng, n, lambda i: sq(x(i) + k)))]


def kursawe(eng, x, n, m):
    return [lib.psum(eng, z3.simplify(n - 1), lambda i: -10 * exp(q('-0.2') * sqrt(sq(x(i)) + sq(x(z3.simplify(i + 1)))))),
            lib.psum(eng, n, lambda i: pow_(ab(x(i)), q('0.8')) + 5 * sin(x(i) * x(i) * x(i)))]


def tail(eng, x, n, m, f):
    """sum of f over the last n-m+1 variables"""
    return lib.psum(eng, z3.simplify(n - m + 1), lambda i: f(x(z3.simplify(m - 1 + i))))


def gmulti(eng, x, n, m):
    return 100 * (toR(z3.simplify(n - m + 1)) + tail(eng, x, n, m, lambda v: sq(v - q('0.5')) - cos(20 * PI * (v - q('0.5')))))


def gsphere(eng, x, n, m):
    return tail(eng, x, n, m, lambda v: sq(v - q('0.5')))


def chain(eng, m, head, c, s):
    """objective j: head * c(0) * ... * c(m-2-j), and for j > 0 times s(m-1-j)"""
    def f(j):
        p = head * lib.psum(eng, z3.simplify(m - 1 - j), lambda i: c(i), '*')
        return p if num(j) == 0 else p * s(z3.simplify(m - 1 - j))
    return f


def spherical(eng, m, g, th):
    return chain(eng, m, 1 + g, lambda i: cos(th(i)), lambda i: sin(th(i)))


def dtlz1(eng, x, n, m):
    return chain(eng, m, (1 + gmulti(eng, x, n, m)) / 2, x, lambda i: 1 - x(i))


def dtlz2(eng, x, n, m):
    return spherical(eng, m, gsphere(eng, x, n, m), lambda i: x(i) * PI / 2)


def dtlz3(eng, x, n, m):
    return spherical(eng, m, gmulti(eng, x, n, m), lambda i: x(i) * PI / 2)


def dtlz4(eng, x, n, m):
    return spherical(eng, m, gsphere(eng, x, n, m), lambda i: pow_(x(i), z3.RealVal(100)) * PI / 2)


def theta5(eng, x, n, m):
    r = tail(eng, x, n, m, sq)

    def th(i):
        a, b = x(i) * PI / 2, PI / (4 * (1 + r)) * (1 + 2 * r * x(i))
        return (a if num(i) == 0 else b if num(i) is not None else If(i == 0, a, b)) * PI / 2
    return th


def dtlz5(eng, x, n, m):
    return spherical(eng, m, gsphere(eng, x, n, m), theta5(eng, x, n, m))


def dtlz6(eng, x, n, m):
    return spherical(eng, m, tail(eng, x, n, m, lambda v: pow_(v, q('0.1'))), theta5(eng, x, n, m))


def dtlz7(eng, x, n, m):
    g = 1 + q(9) / toR(z3.simplify(n - m + 1)) * tail(eng, x, n, m, lambda v: v)
    h = toR(m) - lib.psum(eng, z3.simplify(m - 1), lambda i: x(i) / (1 + g) * (1 + sin(3 * PI * x(i))))
    last = (1 + g) * h

    def f(j):
        if num(j) is not None and num(m) is not None:
            return last if num(j) == num(m) - 1 else x(j)
        return If(j == m - 1, last, x(j))
    return f


def parts(eng, x, n, m, t):
    """objective j: sum of t over variables floor(j n/m) .. min(n-1, floor((j+1) n/m))"""
    def f(j):
        lo, hi = z3.IntVal(0) if num(j) == 0 else z3.simplify(j * n / m), z3.simplify((j + 1) * n / m)
        hi = z3.simplify(If(hi < n - 1, hi, n - 1))
        return lib.psum(eng, z3.simplify(hi - lo + 1), lambda i: t(x(z3.simplify(lo + i))))
    return f


def dtlz8(eng, x, n, m):
    p = parts(eng, x, n, m, lambda v: v)
    M = num(m)
    f = [p(Z(j)) / toR(z3.simplify(n / m)) for j in range(M)]
    eng.names = getattr(eng, 'names', [])
    mn = None
    for a in range(M - 1):
        for b in range(a + 1, M - 1):
            s = f[a] + f[b]
            eng.assume(s < z3.Real('INF'))
            mn = s if mn is None else If(s < mn, s, mn)
    g = [f[-1] + 4 * f[j] - 1 for j in range(M - 1)] + [2 * f[-1] + mn - 1]
    return [penal(f[j], -g[j], 1000) for j in range(M)]


def dtlz9(eng, x, n, m):
    p = parts(eng, x, n, m, lambda v: pow_(v, q('0.1')))

    def f(j):
        last, me = p(z3.simplify(m - 1)), p(j)
        r = penal(me, 1 - sq(last) - sq(me), 1000)
        if num(j) is not None and num(m) is not None:
            return last if num(j) == num(m) - 1 else r
        return If(j == m - 1, last, r)
    return f


FIX = {'Schaffer1': (schaffer1, 1, 2), 'Schaffer2': (schaffer2, 1, 2), 'BinhKorn': (binh, 2, 2), 'ChangkongHaimes': (chankong, 2, 2), 'Poloni': (poloni, 2, 2), 'viennet': (viennet, 2, 3)}
ANY2 = {'FonsecaFleming': fonseca, 'Kursawe': kursawe}
DTLZ = {'DTLZ1': dtlz1, 'DTLZ2': dtlz2, 'DTLZ3': dtlz3, 'DTLZ4': dtlz4, 'DTLZ5': dtlz5, 'DTLZ6': dtlz6, 'DTLZ7': dtlz7}
FRAC = {'DTLZ8': dtlz8, 'DTLZ9': dtlz9}
PAIRS = ('aa', 'ee', 'ae', 'ea', 'ef', 'ab', 'ba', 'fe')
RT = ('bb', 'ff', 'bf', 'fb')
CN = {'a': 'std::array', 'b': 'std::vector', 'e': 'fixed Eigen', 'f': 'dynamic Eigen'}


def ints(t):
    """integer sub-terms that are divisions get a name"""
    return t


def value(fname, fn, ref, n0, m0, arg, resized):
    def f(eng):
        F = eng.P.one('vroot::%s_%s%s' % (fname, fn, '_a' if arg else ''))
        ps = F['params']
        VT, FT = [eng.P.ty(ps[i]['t'])['to'] for i in (0, 2 if arg else 1)]
        xv, fv = eng.sym(VT, 'x'), eng.sym(FT, 'f')
        if n0 is not None and num(xv.kids['n']) is None:
            xv.kids['n'] = z3.IntVal(n0)
        if m0 is not None and num(fv.kids['n']) is None and not resized:
            fv.kids['n'] = z3.IntVal(m0)
        x, out = eng.new('x', xv), eng.new('f', fv)
        X0 = eng.load(x)
        n = X0.kids['n']
        m = z3.IntVal(m0) if resized else eng.load(out).kids['n']
        big = (1 << 31) - 1
        if fn in DTLZ:
            eng.assume(And(m >= 2, n - m + 1 > 0, n <= 20000000))
        elif fn in FRAC:
            eng.assume(And(m >= (3 if fn == 'DTLZ8' else 2), n > m))
            eng.assume(n * (m + 1) <= big)
        elif fn in ANY2:
            eng.assume(n >= 1)
        eng.assume(And(n >= 1, n < big, m < big, eng.load(out).kids['n'] >= 0, eng.load(out).kids['n'] < big))
        xs = lambda i: X0.get('el', 'e')(i)
        a = [ptr_of(x)]
        if arg:
            A = eng.P.ty(ps[1]['t'])['to']
            ar = eng.new('arg', eng.sym(A, 'arg'))
            A0 = eng.load(ar)
            a.append(ptr_of(ar))
        eng.call_fn(F['id'], a + [ptr_of(out)])
        F1 = eng.load(out)
        eng.oblige('one value per objective', F1.kids['n'] == m, '', 'post')
        w = ref(eng, xs, n, m)
        fe = lambda j: F1.get('el', 'e')(j)
        if isinstance(w, list):
            for j, v in enumerate(w):
                if isinstance(v, list):
                    ok = [u for u in v if poly.same(fe(Z(j)), u)]
                    equal(eng, 'objective %d is the published formula\'s value' % j, fe(Z(j)), (ok or v)[0])
                else:
                    equal(eng, 'objective %d is the published formula\'s value' % j, fe(Z(j)), v)
        elif num(m) is not None:
            for j in range(num(m)):
                equal(eng, 'objective %d is the published formula\'s value' % j, fe(Z(j)), w(Z(j)))
        else:
            equal(eng, 'objective 0 is the published formula\'s value', fe(Z(0)), w(Z(0)))
            j = z3.Int('j')
            eng.st = eng.st.fork(And(j >= 1, j < m))
            eng.ghosts.append(j)
            v = w(j)
            eng.ghosts.pop()
            equal(eng, 'every other objective is the published formula\'s value', fe(j), v)
        X1 = eng.load(x)
        i = z3.Int('i')
        eng.oblige('the variables are not modified', And(X1.kids['n'] == n, X1.get('el', 'e')(i) == xs(i)), '', 'post')
        if arg:
            eng.oblige('the argument is not modified', eng.load(ar).get('k', 'e') == A0.get('k', 'e'), '', 'post')
    return f


def build(spec):
    def go(fn, ref, v, n, m, tag, resized=False):
        kw = dict(overflow=True, decimal=True)
        for arg in (0, 1):
            if arg and spec.tier == 'quick' and not resized and (v not in ('aa', 'ee', 'bb', 'ff') or (v not in RT and (n, m) not in ((7, 3), (7, 2), (9, 3)))):
                continue
            spec.case('%s, %s -> %s, %s%s' % (fn, CN[v[0]], CN[v[1]], tag, ', with arguments' if arg else ''),
                      value(v if v in RT else v + '%dx%d' % (n, m), fn, ref, n if v[0] in 'ae' or resized else None, m if v[1] in 'ae' or resized or fn in ANY2 or fn == 'DTLZ8' else None, arg, resized), **kw)
    for fn, (ref, n, m) in FIX.items():
        for v in PAIRS + RT:
            go(fn, ref, v, n, m, '%d -> %d' % (n, m), True)
    for fn, ref in ANY2.items():
        for n, m in ((1, 2), (2, 2), (7, 2)) if fn == 'FonsecaFleming' else ((2, 2), (7, 2)):
            for v in PAIRS:
                go(fn, ref, v, n, m, '%d -> %d' % (n, m))
        for v in RT:
            go(fn, ref, v, None, 2, 'any -> 2')
    for fn, ref in DTLZ.items():
        for n, m in ((3, 2), (3, 3), (7, 3), (9, 5)):
            for v in PAIRS:
                go(fn, ref, v, n, m, '%d -> %d' % (n, m))
        for v in RT:
            go(fn, ref, v, None, None, 'any -> any')
    for fn, ref in FRAC.items():
        for n, m in ((4, 3), (9, 3), (11, 4)):
            for v in PAIRS:
                go(fn, ref, v, n, m, '%d -> %d' % (n, m))
        for v in RT:
            if fn == 'DTLZ8':
                for m in (3, 4, 6):
                    go(fn, ref, v, None, m, 'any -> %d' % m)
            else:
                go(fn, ref, v, None, None, 'any -> any')
