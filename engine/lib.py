"""Models (trusted contracts) of the std and Eigen operations the library uses."""
import z3
from fractions import Fraction
from ast_ import Unsupported
from val import *
import poly

I = z3.IntSort()
R = z3.RealSort()
LIB = {}


def reg(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


# ---------------------------------------------------------------- helpers
def recv(eng, e):
    """location of the object a member/operator call is applied to, and remaining argument exprs"""
    if e.get('obj') is not None:
        return eng.objloc(e), e['args']
    return eng.lv(e['args'][0]), e['args'][1:]


def sval(eng, x):
    return eng.ev(x).kids['e']


def ival(eng, x):
    v = sval(eng, x)
    return eng.toidx(v)


def vsize(eng, n, e):
    """int result of a size call"""
    if eng.intmode == 'bv':
        if z3.is_bv(n):
            return n
        if num(n) is not None:
            return z3.BitVecVal(num(n), 64)
        return z3.Int2BV(n, 64)
    return n


def arr1(sq, n, fn):
    """array of scalars with element function fn(k)"""
    return Node('arr', sq, {'n': n, 'el': sc(L(1, fn))})


EIG = (None, 'eigen', None)


def el(a, k):
    return a.kids['el'].kids['e'](k)


def elementwise(f, *args):
    """args: arr nodes or scalar terms"""
    n = None
    for a in args:
        if isinstance(a, Node) and a.kind == 'arr':
            if n is None or num(n) is None:
                n = a.kids['n']
    r = arr1(EIG, n, lambda k: f(*[(el(a, k) if isinstance(a, Node) else a) for a in args]))
    for a in args:
        if isinstance(a, Node) and 'r' in a.kids:
            r.kids['r'], r.kids['c'] = a.kids['r'], a.kids['c']
            break
    return r


def unwrap(v):
    if v.kind == 'sc':
        return v.kids['e']
    if v.kind == 'arr':
        return v
    raise Unsupported('Eigen operand ' + v.kind)


def samesize(eng, vs, e):
    arrs = [v for v in vs if isinstance(v, Node)]
    for a in arrs[1:]:
        g = Eq(arrs[0].kids['n'], a.kids['n'])
        if not is_true(z3.simplify(g)):
            eng.oblige('operands have equal size', g, e.get('loc', ''), 'bounds')


def toR(x):
    if z3.is_int(x):
        return z3.ToReal(x)
    if z3.is_bool(x):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    return x


# ---------------------------------------------------------------- std containers
@reg('std::array::size', 'std::vector::size', 'Eigen::EigenBase::size', 'Eigen::DenseBase::size',
     'std::queue::size', 'std::deque::size', 'Eigen::EigenBase::rows', 'Eigen::PlainObjectBase::rows', 'std::size')
def h_size(eng, e):
    l, _ = recv(eng, e)
    v = eng.load(l, ('n', 'r'))
    if 'r' in v.kids and e['callee']['base'].endswith('rows'):
        return sc(v.kids['r'])
    if v.kind != 'arr':
        raise Unsupported('size of ' + v.kind)
    return sc(vsize(eng, v.kids['n'], e))


@reg('Eigen::EigenBase::cols', 'Eigen::PlainObjectBase::cols')
def h_cols(eng, e):
    l, _ = recv(eng, e)
    v = eng.load(l, ('c',))
    if v.kind != 'arr':
        raise Unsupported('cols')
    if 'c' in v.kids:
        return sc(v.kids['c'])
    return sc(z3.IntVal(1))


@reg('std::array::empty', 'std::vector::empty')
def h_empty(eng, e):
    l, _ = recv(eng, e)
    return sc(Eq(eng.load(l, ('n',)).kids['n'], z3.IntVal(0)))


@reg('std::array::operator[]', 'std::vector::operator[]', 'std::array::at', 'std::vector::at',
     'Eigen::DenseCoeffsBase::operator[]', 'Eigen::DenseCoeffsBase::operator()', 'Eigen::PlainObjectBase::coeffRef',
     'Eigen::DenseCoeffsBase::coeff', 'Eigen::PlainObjectBase::coeff')
def h_index(eng, e):
    l, a = recv(eng, e)
    if len(a) != 1:
        if len(a) == 2:
            v = eng.load(l, ('r', 'c', 'n'))
            i, j = ival(eng, a[0]), ival(eng, a[1])
            if v.kind == 'arr' and 'r' in v.kids:
                eng.bound(i, v.kids['r'], e.get('loc', ''))
                eng.bound(j, v.kids['c'], e.get('loc', ''))
                return l.i(z3.simplify(i + v.kids['r'] * j))
            if v.kind == 'arr' and num(j) == 0:
                eng.bound(i, v.kids['n'], e.get('loc', ''))
                return l.i(i) if isinstance(l, Loc) else select(v.kids['el'], i)
            if v.kind == 'arr' and num(i) == 0:
                eng.bound(j, v.kids['n'], e.get('loc', ''))
                return l.i(j) if isinstance(l, Loc) else select(v.kids['el'], j)
        raise Unsupported('2-d index')
    i = ival(eng, a[0])
    v = eng.load(l, ('n',))
    if v.kind != 'arr':
        raise Unsupported('index into ' + v.kind)
    eng.bound(i, v.kids['n'], e.get('loc', ''))
    if isinstance(l, View):
        return l.base.i(l.fwd(i))
    return l.i(i)


@reg('std::array::front', 'std::vector::front')
def h_front(eng, e):
    l, _ = recv(eng, e)
    v = eng.load(l, ('n',))
    eng.bound(z3.IntVal(0), v.kids['n'], e.get('loc', ''))
    return l.i(z3.IntVal(0))


@reg('std::array::back', 'std::vector::back')
def h_back(eng, e):
    l, _ = recv(eng, e)
    v = eng.load(l, ('n',))
    n = v.kids['n']
    eng.bound(n - 1, n, e.get('loc', ''))
    return l.i(z3.simplify(n - 1))


@reg('std::array::begin', 'std::vector::begin', 'std::array::data', 'std::vector::data', 'std::array::cbegin',
     'std::vector::cbegin', 'Eigen::PlainObjectBase::data', 'Eigen::DenseBase::begin')
def h_begin(eng, e):
    l, _ = recv(eng, e)
    return ptr_of(l.i(z3.IntVal(0)))


@reg('std::array::end', 'std::vector::end', 'std::array::cend', 'std::vector::cend', 'Eigen::DenseBase::end')
def h_end(eng, e):
    l, _ = recv(eng, e)
    return ptr_of(l.i(eng.load(l, ('n',)).kids['n']))


def setn(eng, l, n):
    v = eng.load(l)
    eng.store(l.f('n') if False else l, v.put(('n',), n))


def set_size(eng, l, n):
    """change only the length component (keeps element leaf identity)"""
    eng.store_n(l, n)


@reg('std::vector::resize')
def h_vresize(eng, e):
    l, a = recv(eng, e)
    n = ival(eng, a[0])
    v = eng.load(l)
    old = v.kids['n']
    et = v.static[0]
    if len(a) > 1:
        d = eng.ev(a[1])
    else:
        d = eng.zero(et)
    if d.kind != 'any' and v.kids['el'].kind != 'any':
        def f(x, y):
            if isinstance(x, Node):
                return Node(x.kind, x.static, {k: f(x.kids[k], y.kids[k]) for k in x.kids})
            if isinstance(y, L):
                return L(x.ar, lambda *i: If(z3.And(i[0] >= old, i[0] < n), y(*i[1:]), x(*i)))
            return L(x.ar, lambda *i: If(z3.And(i[0] >= old, i[0] < n), y, x(*i)))
        try:
            nel = f(v.kids['el'], d)
        except KeyError:
            nel = v.kids['el']
    else:
        nel = v.kids['el']
    eng.store(l, Node('arr', v.static, {'n': n, 'el': nel}))
    return None


@reg('Eigen::PlainObjectBase::resize', 'Eigen::DenseBase::resize')
def h_eresize(eng, e):
    l, a = recv(eng, e)
    v = eng.load(l)
    ns = [ival(eng, x) for x in a]
    if 'r' in v.kids:
        if len(ns) != 2:
            raise Unsupported('resize of a matrix with one argument')
        n = z3.simplify(ns[0] * ns[1])
        if v.static[2] is not None:
            eng.oblige('fixed size resize keeps size', And(ns[0] == v.kids['r'], ns[1] == v.kids['c']), e.get('loc', ''), 'bounds')
            return None
        eng.oblige('non-negative size', And(ns[0] >= 0, ns[1] >= 0), e.get('loc', ''), 'bounds')
        keep = Eq(n, v.kids['n'])
        fr = v.kids['el'].map(lambda leaf: lite(keep, leaf, eng.fresh_like(leaf, 'resized')))
        eng.store(l, Node('arr', v.static, {'n': n, 'el': fr, 'r': ns[0], 'c': ns[1]}))
        return None
    n = ns[0] if len(ns) == 1 else (ns[0] if num(ns[1]) == 1 else ns[1] if num(ns[0]) == 1 else None)
    if n is None:
        raise Unsupported('2-d resize')
    if v.static[2] is not None:
        eng.oblige('fixed size resize keeps size', n == v.kids['n'], e.get('loc', ''), 'bounds')
        return None
    keep = Eq(n, v.kids['n'])
    fr = v.kids['el'].map(lambda leaf: lite(keep, leaf, eng.fresh_like(leaf, 'resized')))
    eng.store(l, Node('arr', v.static, {'n': n, 'el': fr}))
    return None


@reg('std::vector::reserve', 'std::vector::shrink_to_fit')
def h_reserve(eng, e):
    recv(eng, e)
    for a in e['args']:
        eng.ev(a)
    return None


@reg('std::vector::clear')
def h_clear(eng, e):
    l, _ = recv(eng, e)
    eng.store_leaf(l, 'n', z3.IntVal(0))
    return None


@reg('std::vector::push_back', 'std::vector::emplace_back')
def h_push(eng, e):
    l, a = recv(eng, e)
    v0 = eng.load(l)
    if len(a) == 0:
        x = eng.zero(v0.static[0])
    elif len(a) == 1:
        x = eng.ev(a[0])
    else:
        et = v0.static[0]
        f = [g for g, _, _ in eng.P.fields(et)] if 'id' in eng.P.ty(et) else ['first', 'second']
        x = Node('st', et, {g: eng.ev(y) for g, y in zip(f, a)})
    v = eng.load(l)
    n = v.kids['n']
    x = fit(eng, x, v.kids['el'], v.static[0])
    eng.store(l.i(n), x)
    v = eng.load(l)
    eng.store_leaf(l, 'n', z3.simplify(n + 1))
    return l.i(n)


def fit(eng, x, elnode, et):
    if x.kind == 'sc' and elnode.kind == 'sc':
        w = elnode.kids['e']
        p = w(*[z3.Int('p!%d' % j) for j in range(w.ar)]) if isinstance(w, L) else w
        xx = x.kids['e']
        if p.sort() == R and xx.sort() == I:
            return sc(z3.ToReal(xx))
    if x.kind == 'arr' and elnode.kind == 'arr':
        return Node('arr', elnode.static, dict(x.kids))
    return x


@reg('std::vector::pop_back')
def h_pop(eng, e):
    l, _ = recv(eng, e)
    v = eng.load(l)
    n = v.kids['n']
    eng.bound(n - 1, n, e.get('loc', ''))
    eng.store_leaf(l, 'n', z3.simplify(n - 1))
    return None


@reg('std::array::fill')
def h_fill(eng, e):
    l, a = recv(eng, e)
    x = eng.ev(a[0])
    v = eng.load(l)
    eng.store(l, Node('arr', v.static, {'n': v.kids['n'], 'el': lift(x)}))
    return None


@reg('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref')
def h_id(eng, e):
    a = e['args'][0]
    return eng.lv(a)


@reg('std::vector::operator=', 'std::array::operator=', 'Eigen::Array::operator=', 'Eigen::Matrix::operator=',
     'Eigen::PlainObjectBase::operator=', 'Eigen::DenseBase::operator=', 'Eigen::ArrayBase::operator=',
     'Eigen::Block::operator=', 'Eigen::VectorBlock::operator=', 'std::pair::operator=', 'std::function::operator=')
def h_assign(eng, e):
    args = e['args']
    if e.get('obj') is not None:
        l, src = eng.objloc(e), args[0]
    else:
        l, src = args[0], args[1]
        v = eng.ev(src)
        l = eng.lv(l)
        return do_assign(eng, l, v, e)
    return do_assign(eng, l, eng.ev(src), e)


def do_assign(eng, l, v, e):
    if isinstance(l, View):
        if v.kind == 'sc':
            n = l.n
            v = arr1(EIG, n, lambda k, x=v.kids['e']: x)
        eng.store(l, v)
        return l
    old = eng.load(l)
    if v.kind == 'sc' and old.kind == 'arr':
        x = v.kids['e']
        v = arr1(old.static, old.kids['n'], lambda k: x)
    if old.kind == 'arr' and v.kind == 'arr':
        if old.static[2] is not None:
            g = Eq(old.kids['n'], v.kids['n'])
            if not is_true(z3.simplify(g)):
                eng.oblige('assignment of equal size', g, e.get('loc', ''), 'bounds')
            w = {'n': old.kids['n'], 'el': v.kids['el']}
        else:
            w = {'n': v.kids['n'], 'el': v.kids['el']}
        if 'r' in old.kids:
            src = old if old.static[2] is not None else v
            if 'r' not in src.kids:
                raise Unsupported('assignment of a vector to a matrix')
            w['r'], w['c'] = src.kids['r'], src.kids['c']
        v = Node('arr', old.static, w)
    eng.store(l, v)
    return l


# ---------------------------------------------------------------- numeric functions
def fun(name, nargs=1):
    return z3.Function(name, *([R] * (nargs + 1)))


def msqrt(eng, x):
    s = fun('sqrt')
    return s(x)


UNARY = ['sin', 'cos', 'tan', 'exp', 'log', 'log10', 'log2', 'sqrt', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh',
         'floor', 'ceil', 'round', 'trunc', 'cbrt', 'exp2']


def munary(eng, name, x):
    x = toR(x)
    if name in ('floor', 'ceil'):
        n = z3.ToReal(z3.ToInt(x))
        return n if name == 'floor' else -z3.ToReal(z3.ToInt(-x))
    f = fun(name)
    x = z3.simplify(x, som=False)
    if eng.mathfacts:
        if name == 'exp':
            eng.fact(f(x) > 0)
        if name == 'sqrt':
            eng.fact(Implies(x >= 0, And(f(x) >= 0, f(x) * f(x) == x)))
            eng.fact(Implies(x > 0, f(x) > 0))
    return f(x)


def mabs(x):
    if z3.is_fp(x):
        return z3.fpAbs(x)
    return z3.If(x >= 0, x, -x)


def mpow(eng, x, y):
    x, y = toR(x), toR(y)
    ys = z3.simplify(y)
    if z3.is_rational_value(ys) and ys.denominator_as_long() == 1 and 0 <= ys.numerator_as_long() <= 16:
        r = z3.RealVal(1)
        n = ys.numerator_as_long()
        if n == 0:
            return r
        r = x
        for _ in range(n - 1):
            r = r * x
        return r
    return fun('pow', 2)(x, y)


for _n in UNARY:
    def _mk(n):
        def h(eng, e):
            return sc(munary(eng, n, sval(eng, e['args'][0])))
        return h
    for _q in (_n, 'std::' + _n, _n + 'f', '__builtin_' + _n):
        LIB[_q] = _mk(_n)


@reg('std::abs', 'abs', 'std::fabs', 'fabs', '__builtin_fabs', 'labs')
def h_abs(eng, e):
    return sc(mabs(sval(eng, e['args'][0])))


@reg('std::pow', 'pow', '__builtin_pow')
def h_pow(eng, e):
    return sc(mpow(eng, sval(eng, e['args'][0]), sval(eng, e['args'][1])))


def _minmax(eng, e, less):
    if len(e['args']) == 1:
        v = eng.ev(e['args'][0])
        raise Unsupported('min of initializer list')
    a, b = eng.ev(e['args'][0]), eng.ev(e['args'][1])
    x, y = a.kids['e'], b.kids['e']
    d = eng.P.ty(eng.P.strip(e['args'][0]['t']))
    if less:
        return sc(If(eng.cmp('<', y, x, d), y, x))
    return sc(If(eng.cmp('<', x, y, d), y, x))


@reg('std::min')
def h_min(eng, e):
    return _minmax(eng, e, True)


@reg('std::max')
def h_max(eng, e):
    return _minmax(eng, e, False)


@reg('std::isnan', 'isnan', '__builtin_isnan')
def h_isnan(eng, e):
    x = sval(eng, e['args'][0])
    if z3.is_fp(x):
        return sc(z3.fpIsNaN(x))
    return sc(z3.BoolVal(False))


@reg('std::isinf', 'isinf', '__builtin_isinf_sign')
def h_isinf(eng, e):
    x = sval(eng, e['args'][0])
    if z3.is_fp(x):
        return sc(z3.fpIsInf(x))
    return sc(z3.Or(x == z3.Real('INF'), x == -z3.Real('INF')))


@reg('std::swap')
def h_swap(eng, e):
    a, b = eng.lv(e['args'][0]), eng.lv(e['args'][1])
    x, y = eng.load(a), eng.load(b)
    eng.store(a, y)
    eng.store(b, x)
    return None


@reg('__assert_fail')
def h_assert_fail(eng, e):
    eng.oblige('assertion', z3.BoolVal(False), e.get('loc', ''), 'assert')
    eng.assume(z3.BoolVal(False))
    return None


@reg('exit', 'std::exit', 'abort', 'std::abort')
def h_exit(eng, e):
    eng.oblige('no abnormal exit', z3.BoolVal(False), e.get('loc', ''), 'assert')
    eng.assume(z3.BoolVal(False))
    return None


@reg('std::operator<<', 'std::basic_ostream::operator<<')
def h_out(eng, e):
    return ANY


@reg('omp_get_max_threads', 'omp_get_num_procs', 'omp_get_num_threads', 'std::thread::hardware_concurrency')
def h_thr(eng, e):
    x = eng.fresh('threads', I)
    eng.fact(And(x >= 1, x < (1 << 31)))
    return sc(x)


# ---------------------------------------------------------------- Eigen
def ebin(op):
    def h(eng, e):
        if e.get('obj') is not None:
            a, b = eng.load(eng.objloc(e)), eng.ev(e['args'][0])
        elif len(e['args']) == 1:
            a = unwrap(eng.ev(e['args'][0]))
            if op == '-':
                return elementwise(lambda x: -x, a)
            if op == '!':
                return elementwise(lambda x: Not(x), a)
            raise Unsupported('unary Eigen ' + op)
        else:
            a, b = eng.ev(e['args'][0]), eng.ev(e['args'][1])
        a, b = unwrap(a), unwrap(b)
        samesize(eng, [a, b], e)

        def f(x, y):
            if op in ('+', '-', '*', '/'):
                if x.sort() != y.sort():
                    x, y = toR(x), toR(y)
                if x.sort() == R:
                    return eng.farith(op, x, y, 64)
                return eng.iarith(op, x, y, {'k': 'int', 'sg': True, 'w': 64})
            if op in ('<', '<=', '>', '>=', '==', '!='):
                if x.sort() != y.sort():
                    x, y = toR(x), toR(y)
                return eng.cmp(op, x, y, {'sg': True})
            if op == '&&':
                return And(x, y)
            if op == '||':
                return Or(x, y)
            raise Unsupported('Eigen operator ' + op)
        if not isinstance(a, Node) and not isinstance(b, Node):
            return sc(f(a, b))
        return elementwise(f, a, b)
    return h


for _o in ('+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!=', '&&', '||', '!'):
    for _c in ('Eigen::', 'Eigen::ArrayBase::', 'Eigen::MatrixBase::', 'Eigen::DenseBase::'):
        LIB[_c + 'operator' + _o] = ebin(_o)


def ecompound(op):
    def h(eng, e):
        if e.get('obj') is not None:
            l, s = eng.objloc(e), e['args'][0]
        else:
            l, s = eng.lv(e['args'][0]), e['args'][1]
        b = unwrap(eng.ev(s))
        a = eng.load(l)
        samesize(eng, [a, b], e)
        r = elementwise(lambda x, y: eng.farith(op, toR(x), toR(y), 64), a, b)
        return do_assign(eng, l, Node('arr', a.static, {'n': a.kids['n'], 'el': r.kids['el']}), e)
    return h


for _o in ('+', '-', '*', '/'):
    for _c in ('Eigen::ArrayBase::', 'Eigen::MatrixBase::', 'Eigen::DenseBase::'):
        LIB[_c + 'operator' + _o + '='] = ecompound(_o)

EXPAND = 24


def conc(n):
    k = num(z3.simplify(n))
    return k if k is not None and k <= EXPAND else None


@reg('Eigen::DenseBase::all')
def h_all(eng, e):
    a = eng.load(recv(eng, e)[0])
    n = conc(a.kids['n'])
    if n is not None:
        return sc(And(*[el(a, z3.IntVal(i)) for i in range(n)]))
    k = z3.Int(eng.name('k'))
    return sc(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < a.kids['n']), el(a, k))))


@reg('Eigen::DenseBase::any')
def h_any(eng, e):
    a = eng.load(recv(eng, e)[0])
    n = conc(a.kids['n'])
    if n is not None:
        return sc(Or(*[el(a, z3.IntVal(i)) for i in range(n)]))
    k = z3.Int(eng.name('k'))
    return sc(z3.Exists([k], z3.And(k >= 0, k < a.kids['n'], el(a, k))))


def psum(eng, n, f, op='+'):
    """sum of f(0..n-1)"""
    c = conc(n)
    unit = z3.RealVal(0 if op == '+' else 1)
    if c is not None:
        r = None
        for i in range(c):
            t = toR(f(z3.IntVal(i)))
            r = t if r is None else (r + t if op == '+' else r * t)
        return unit if r is None else r
    S = sumfun(eng, f, op)
    return S(n)


def sumfun(eng, f, op='+'):
    """x -> sum (product) of f(0..x-1), x >= 0. A sum is the linear combination of the sums of its monomials."""
    d = eng.__dict__.setdefault('sumdepth', 0)
    k = z3.Int('sk!') if d == 0 else z3.Int('sk!%d' % d)
    eng.sumdepth = d + 1
    try:
        body = toR(f(k))
    finally:
        eng.sumdepth = d
    try:
        p = poly.nf(body)
    except poly.TooBig:
        p = poly.var(z3.simplify(body))
    if op == '*':
        return sum1(eng, poly.build(p), k, op)
    parts = []
    for co, pt in poly.split(p, k):
        parts.append((poly.build(co), None if list(pt) == [()] else sum1(eng, poly.build(pt), k, op)))

    def S(x):
        r = z3.RealVal(0)
        for co, g in parts:
            t = z3.ToReal(x) if g is None else g(x)
            t = t if num(co) == 1 else co * t
            r = t if num(r) == 0 else r + t
        return r
    return S


def sum1(eng, body, k, op):
    from sym import consts_in
    if consts_in(body, lambda nm: nm.startswith('sk!') and nm != k.decl().name()):
        raise Unsupported('nested sum')
    if k.decl().name() != 'sk!':
        body = z3.substitute(body, (k, z3.Int('sk!')))
        k = z3.Int('sk!')
    gs = [g for g in eng.ghosts if consts_in(body, lambda nm: nm == g.decl().name())]
    gk = [z3.Int('sg!%d' % i) for i in range(len(gs))]
    gen = poly.build(poly.nf(z3.substitute(body, *zip(gs, gk)))) if gs else body
    key = (op, len(gs), gen.sexpr())
    reg_ = eng.__dict__.setdefault('sums', {})
    if key not in reg_:
        reg_[key] = (z3.Function('%sPS%d' % ('' if op == '+' else 'P', len(reg_)), *([I] * (len(gs) + 1)), R), gen, k, gk)
    F, gen, k, gk = reg_[key]
    unit = z3.RealVal(0 if op == '+' else 1)
    zero = F(*gk, z3.IntVal(0)) == unit
    S = lambda x: F(*gk, x)
    step = z3.ForAll(gk + [k], z3.Implies(k >= 0, S(k + 1) == (S(k) + gen if op == '+' else S(k) * gen)), patterns=[S(k + 1)])
    for a in (z3.ForAll(gk, zero, patterns=[F(*gk, z3.IntVal(0))]) if gs else zero, step):
        if not any(a.eq(x) for x in eng.facts):
            eng.facts.append(a)
    return lambda x: F(*gs, x)


@reg('Eigen::DenseBase::sum')
def h_sum(eng, e):
    a = eng.load(recv(eng, e)[0])
    return sc(psum(eng, a.kids['n'], lambda k: el(a, k)))


@reg('Eigen::DenseBase::prod')
def h_prod(eng, e):
    a = eng.load(recv(eng, e)[0])
    return sc(psum(eng, a.kids['n'], lambda k: el(a, k), '*'))


@reg('Eigen::DenseBase::mean')
def h_mean(eng, e):
    a = eng.load(recv(eng, e)[0])
    return sc(psum(eng, a.kids['n'], lambda k: el(a, k)) / z3.ToReal(a.kids['n']))


@reg('Eigen::MatrixBase::squaredNorm')
def h_sqn(eng, e):
    a = eng.load(recv(eng, e)[0])
    return sc(psum(eng, a.kids['n'], lambda k: el(a, k) * el(a, k)))


@reg('Eigen::MatrixBase::norm')
def h_norm(eng, e):
    a = eng.load(recv(eng, e)[0])
    return sc(munary(eng, 'sqrt', psum(eng, a.kids['n'], lambda k: el(a, k) * el(a, k))))


@reg('Eigen::MatrixBase::dot')
def h_dot(eng, e):
    a = eng.load(recv(eng, e)[0])
    b = eng.ev(e['args'][0])
    return sc(psum(eng, a.kids['n'], lambda k: el(a, k) * el(b, k)))


def eunary(f):
    def h(eng, e):
        if e.get('obj') is not None:
            a = eng.load(eng.objloc(e))
        else:
            a = eng.ev(e['args'][0])
        return elementwise(lambda x: f(eng, x), a)
    return h


for _n in UNARY:
    for _c in ('Eigen::ArrayBase::', 'Eigen::MatrixBase::', 'Eigen::', 'Eigen::DenseBase::'):
        LIB[_c + _n] = eunary(lambda eng, x, n=_n: munary(eng, n, x))
for _c in ('Eigen::ArrayBase::', 'Eigen::MatrixBase::', 'Eigen::'):
    LIB[_c + 'square'] = eunary(lambda eng, x: x * x)
    LIB[_c + 'abs2'] = eunary(lambda eng, x: x * x)
    LIB[_c + 'cube'] = eunary(lambda eng, x: x * x * x)
    LIB[_c + 'abs'] = eunary(lambda eng, x: mabs(x))
    LIB[_c + 'cwiseAbs'] = eunary(lambda eng, x: mabs(x))
    LIB[_c + 'inverse'] = eunary(lambda eng, x: 1 / x)


@reg('Eigen::ArrayBase::pow', 'Eigen::pow')
def h_epow(eng, e):
    if e.get('obj') is not None:
        a, b = eng.load(eng.objloc(e)), unwrap(eng.ev(e['args'][0]))
    else:
        a, b = eng.ev(e['args'][0]), unwrap(eng.ev(e['args'][1]))
    return elementwise(lambda x, y: mpow(eng, x, y), unwrap(a), b)


@reg('Eigen::ArrayBase::min', 'Eigen::DenseBase::cwiseMin', 'Eigen::MatrixBase::cwiseMin')
def h_emin(eng, e):
    a, b = eng.load(eng.objloc(e)), unwrap(eng.ev(e['args'][0]))
    return elementwise(lambda x, y: If(toR(x) < toR(y), x, y), a, b)


@reg('Eigen::ArrayBase::max', 'Eigen::DenseBase::cwiseMax', 'Eigen::MatrixBase::cwiseMax')
def h_emax(eng, e):
    a, b = eng.load(eng.objloc(e)), unwrap(eng.ev(e['args'][0]))
    return elementwise(lambda x, y: If(toR(x) > toR(y), x, y), a, b)


def _coeff(sign):
    def h(eng, e):
        a = eng.load(eng.objloc(e))
        n = a.kids['n']
        m = eng.fresh('coeff', R)
        w = eng.fresh('argc', I)
        k = z3.Int(eng.name('k'))
        rel = (lambda x: toR(x) >= m) if sign < 0 else (lambda x: toR(x) <= m)
        eng.pcfact(z3.And(w >= 0, w < n, toR(el(a, w)) == m,
                          z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), rel(el(a, k))))))
        if e['args']:
            p = eng.ev(e['args'][0])
            eng.store(loc_of(p), sc(w))
        return sc(m)
    return h


LIB['Eigen::DenseBase::minCoeff'] = _coeff(-1)
LIB['Eigen::DenseBase::maxCoeff'] = _coeff(1)


@reg('Eigen::MatrixBase::array', 'Eigen::ArrayBase::matrix', 'Eigen::ArrayBase::array', 'Eigen::MatrixBase::matrix',
     'Eigen::DenseBase::eval', 'Eigen::EigenBase::derived', 'Eigen::MatrixBase::noalias', 'Eigen::EigenBase::const_cast_derived',
     'Eigen::DenseBase::derived')
def h_eid(eng, e):
    return eng.objloc(e)


@reg('Eigen::DenseBase::transpose')
def h_transpose(eng, e):
    l = eng.objloc(e)
    v = eng.load(l)
    if v.kind == 'arr':
        return l
    raise Unsupported('transpose')


def view(eng, l, off, n):
    if isinstance(l, View):
        b, f0, i0 = l.base, l.fwd, l.inv
        return View(b, n, None, None, lambda k: f0(k + off),
                    lambda j: (And(i0(j)[0], i0(j)[1] - off >= 0, i0(j)[1] - off < n), i0(j)[1] - off))
    return View(l, n, None, None, lambda k: z3.simplify(k + off),
                lambda j: (And(j - off >= 0, j - off < n), z3.simplify(j - off)))


def tint(e, i=0):
    ta = e['callee'].get('targs')
    if ta and len(ta) > i and 'i' in ta[i]:
        return z3.IntVal(int(ta[i]['i']))
    return None


def vcheck(eng, v, off, n, e):
    eng.oblige('block inside the vector', And(off >= 0, n >= 0, off + n <= v.kids['n']), e.get('loc', ''), 'bounds')


@reg('Eigen::DenseBase::head', 'Eigen::DenseBase::topRows')
def h_head(eng, e):
    l = eng.objloc(e)
    n = ival(eng, e['args'][0]) if e['args'] else tint(e)
    v = eng.load(l)
    vcheck(eng, v, z3.IntVal(0), n, e)
    return view(eng, l, z3.IntVal(0), n)


@reg('Eigen::DenseBase::tail', 'Eigen::DenseBase::bottomRows')
def h_tail(eng, e):
    l = eng.objloc(e)
    n = ival(eng, e['args'][0]) if e['args'] else tint(e)
    v = eng.load(l)
    off = z3.simplify(v.kids['n'] - n)
    vcheck(eng, v, off, n, e)
    return view(eng, l, off, n)


@reg('Eigen::DenseBase::segment', 'Eigen::DenseBase::middleRows')
def h_segment(eng, e):
    l = eng.objloc(e)
    off = ival(eng, e['args'][0])
    n = ival(eng, e['args'][1]) if len(e['args']) > 1 else tint(e)
    v = eng.load(l)
    vcheck(eng, v, off, n, e)
    return view(eng, l, off, n)


@reg('Eigen::DenseBase::block')
def h_block(eng, e):
    l = eng.objloc(e)
    v = eng.load(l)
    if v.kind != 'arr':
        raise Unsupported('block')
    a = [ival(eng, x) for x in e['args']]
    if len(a) == 4:
        r, c, h, w = a
    else:
        r, c = a
        h, w = tint(e, 0), tint(e, 1)
    if num(c) == 0 and num(w) == 1:
        vcheck(eng, v, r, h, e)
        return view(eng, l, r, h)
    if num(r) == 0 and num(h) == 1:
        vcheck(eng, v, c, w, e)
        return view(eng, l, c, w)
    raise Unsupported('2-d block')


@reg('Eigen::DenseBase::col', 'Eigen::DenseBase::row')
def h_col(eng, e):
    l = eng.objloc(e)
    v = eng.load(l)
    if v.kind == 'arr' and num(ival(eng, e['args'][0])) == 0 and e['callee']['base'].endswith('col'):
        return l
    raise Unsupported('col of matrix')


@reg('Eigen::DenseBase::setConstant', 'Eigen::PlainObjectBase::setConstant', 'Eigen::DenseBase::fill',
     'Eigen::DenseBase::setZero', 'Eigen::PlainObjectBase::setZero', 'Eigen::DenseBase::setOnes', 'Eigen::PlainObjectBase::setOnes')
def h_setc(eng, e):
    l = eng.objloc(e)
    v = eng.load(l)
    a = e['args']
    nm = e['callee']['base'].rsplit('::', 1)[1]
    if nm in ('setConstant', 'fill'):
        x = sval(eng, a[-1])
        a = a[:-1]
    else:
        x = None
    n = v.kids['n']
    if a:
        ns = [ival(eng, y) for y in a]
        n = ns[0] if len(ns) == 1 else (ns[0] if num(ns[1]) == 1 else ns[1])
        if 'r' in v.kids:
            n = z3.simplify(ns[0] * ns[1])
    leaf = v.kids['el'].kids['e'] if v.kids['el'].kind == 'sc' else None
    srt = eng.leafsort(leaf) if leaf is not None else R
    if x is None:
        c = 0 if nm == 'setZero' else 1
        x = z3.BoolVal(bool(c)) if srt == z3.BoolSort() else srt.cast(c)
    if srt == R:
        x = toR(x)
    r = arr1(v.static, n, lambda k: x)
    if 'r' in v.kids:
        r.kids['r'], r.kids['c'] = (ns[0], ns[1]) if a else (v.kids['r'], v.kids['c'])
    eng.store(l, r)
    return l


def econst(c):
    def h(eng, e):
        a = e['args']
        ns = [ival(eng, y) for y in a]
        t = e['callee'].get('rec')
        n = None
        if ns:
            n = ns[0] if len(ns) == 1 else (ns[0] if num(ns[1]) == 1 else ns[1])
        else:
            raise Unsupported('static Eigen constant')
        return arr1(EIG, n, lambda k: z3.RealVal(c))
    return h


LIB['Eigen::DenseBase::Zero'] = econst(0)
LIB['Eigen::DenseBase::Ones'] = econst(1)


@reg(('ctor', 'Eigen::Array'), ('ctor', 'Eigen::Matrix'))
def c_eigen(eng, e, t):
    sq = eng.seqinfo(t)
    if not sq:
        raise Unsupported('Eigen matrix construction')
    a = e['args']
    if not a:
        return eng.default(t)
    vs = [eng.ev(x) for x in a]
    if sq[1] == 'mat' and not (len(vs) == 1 and vs[0].kind == 'arr'):
        if len(vs) == 2 and sq[2] is None and all(v.kind == 'sc' for v in vs):
            r_ = eng.sym(t, 'undef')
            p, q = vs[0].kids['e'], vs[1].kids['e']
            return r_.put(('n',), z3.simplify(p * q)).put(('r',), p).put(('c',), q)
        raise Unsupported('Eigen matrix construction')
    if len(vs) == 1:
        v = vs[0]
        if v.kind == 'arr':
            w = {'n': v.kids['n'] if sq[2] is None else z3.IntVal(sq[2]), 'el': v.kids['el']}
            if sq[1] == 'mat':
                if 'r' not in v.kids:
                    raise Unsupported('matrix from a vector')
                w['r'], w['c'] = v.kids['r'], v.kids['c']
            return Node('arr', sq, w)
        d = eng.P.ty(eng.P.strip(a[0]['t']))
        if v.kind == 'sc' and d['k'] in ('int', 'enum') and sq[2] is None:
            r = eng.sym(t, 'undef')
            return r.put(('n',), eng.toidx(v.kids['e']))
    if sq[2] is not None and len(vs) == sq[2]:
        node = eng.default(t)
        for i, v in enumerate(vs):
            node = update(node, (('i', z3.IntVal(i)),), sc(toR(v.kids['e'])), (), eng.adopt_fresh)
        return node
    if sq[2] is None and len(vs) == 2:
        r = eng.sym(t, 'undef')
        n0, n1 = vs[0].kids['e'], vs[1].kids['e']
        return r.put(('n',), n0 if num(n1) == 1 else n1)
    raise Unsupported('Eigen constructor')


@reg(('ctor', 'std::vector'))
def c_vector(eng, e, t):
    sq = eng.seqinfo(t)
    a = e['args']
    if not a:
        return eng.default(t)
    vs = [eng.ev(x) for x in a]
    if vs[0].kind == 'arr':
        return Node('arr', sq, dict(vs[0].kids))
    if vs[0].kind == 'sc' and len(vs) <= 3:
        n = eng.toidx(vs[0].kids['e'])
        x = vs[1] if len(vs) > 1 and vs[1].kind != 'any' else eng.zero(sq[0])
        return Node('arr', sq, {'n': n, 'el': lift(x)})
    raise Unsupported('vector constructor')


@reg(('ctor', 'std::array'), ('ctor', 'std::pair'))
def c_array(eng, e, t):
    a = e['args']
    if not a:
        return eng.default(t)
    if eng.P.ty(t)['name'] == 'std::pair' and len(a) == 2:
        return Node('st', t, {'first': eng.ev(a[0]), 'second': eng.ev(a[1])})
    v = eng.ev(a[0])
    return v


@reg('std::make_pair')
def h_mkpair(eng, e):
    return Node('st', eng.P.strip(e['t']), {'first': eng.ev(e['args'][0]), 'second': eng.ev(e['args'][1])})


# globals
LIB[('global', 'std::cout')] = lambda eng, e: eng.new('cout', ANY)
LIB['prefixes'] = []


# ---------------------------------------------------------------- raw storage
def elem_type(eng, e):
    r = e['callee'].get('rec')
    return eng.P.ty(r)['args'][0]['t']


@reg('std::__new_allocator::allocate', 'std::allocator::allocate', '__gnu_cxx::new_allocator::allocate', 'std::allocator_traits::allocate')
def h_allocate(eng, e):
    t = eng.P.strip(elem_type(eng, e))
    l = eng.heap(t)
    n = ival(eng, e['args'][1 if 'traits' in e['callee']['base'] else 0])
    eng.oblige('allocation size is not negative', And(n >= 0, n < (1 << 60)), e.get('loc', ''), 'memory')
    h = eng.load(l)
    i = h.get('next', 'e')
    eng.store(l.f('next'), sc(i + 1))
    b = l.f('obj').i(i)
    eng.store(b.f('live'), sc(z3.BoolVal(True)))
    d = eng.load(b.f('d'))
    raw = eng.raw.get(t)
    el_ = raw(eng) if raw else d.kids['el']
    eng.store(b.f('d'), Node('arr', d.static, dict(d.kids, n=n, el=el_)))
    return ptr_of(b.f('d').i(z3.IntVal(0)))


@reg('std::__new_allocator::deallocate', 'std::allocator::deallocate', '__gnu_cxx::new_allocator::deallocate', 'std::allocator_traits::deallocate')
def h_deallocate(eng, e):
    a = e['args'][-2:]
    p = eng.ev(a[0])
    n = ival(eng, a[1])
    if p.kind == 'ptr' and p.static is None:
        return None
    l = loc_of(p)
    if not l.root.startswith('heap<'):
        raise Unsupported('deallocation of foreign storage')
    b = Loc(l.root, l.path[:2])
    v = eng.load(b)
    eng.oblige('deallocation of a live block with its own size', Or(p.kids['null'], And(v.get('live', 'e'), l.path[-1][1] == 0, n == v.get('d', 'n'))), e.get('loc', ''), 'memory')
    chk = getattr(eng, 'dead_check', None)
    if chk:
        chk(eng, v, p, e)
    eng.store(b.f('live'), sc(And(p.kids['null'], v.get('live', 'e'))))
    return None


def mem_count(eng, t, bytes_, e):
    d = eng.P.ty(eng.P.strip(t))
    sz = d['w'] // 8 if 'w' in d else None
    if d['k'] == 'bool':
        sz = 1
    if sz is None:
        raise Unsupported('memory operation on ' + d['s'])
    c = z3.simplify(bytes_ / sz)
    eng.oblige('whole number of elements', bytes_ == c * sz, e.get('loc', ''), 'memory')
    return c


def mem_range(eng, p, c, e, what):
    l = loc_of(p)
    par = Loc(l.root, l.path[:-1])
    v = eng.load(par)
    k = l.path[-1][1]
    g = And(k >= 0, k + c <= v.kids['n'])
    if l.root.startswith('heap<'):
        g = And(g, eng.load(Loc(l.root, l.path[:2])).get('live', 'e'))
    eng.oblige(what + ' within allocated storage', Or(c == 0, And(Not(p.kids['null']), g)), e.get('loc', ''), 'memory')
    return par, v, k


@reg('memset', 'std::memset', '__builtin_memset')
def h_memset(eng, e):
    p = eng.ev(e['args'][0])
    v0 = sval(eng, e['args'][1])
    by = ival(eng, e['args'][2])
    if num(v0) != 0:
        raise Unsupported('memset of a non-zero value')
    if p.static is None:
        eng.oblige('memset of nothing', by == 0, e.get('loc', ''), 'memory')
        return p
    l = loc_of(p)
    t = eng.load(Loc(l.root, l.path[:-1])).static[0]
    c = mem_count(eng, t, by, e)
    par, v, k = mem_range(eng, p, c, e, 'memset')
    z = eng.zero(t).kids['e']
    old = v.get('el', 'e')
    nw = L(1, lambda j: If(And(j >= k, j < k + c), z, old(j)))
    eng.store(par, Node('arr', v.static, dict(v.kids, el=sc(nw))))
    return p


@reg('memcpy', 'std::memcpy', '__builtin_memcpy', 'memmove', 'std::memmove')
def h_memcpy(eng, e):
    p, q = eng.ev(e['args'][0]), eng.ev(e['args'][1])
    by = ival(eng, e['args'][2])
    if p.static is None or q.static is None:
        eng.oblige('memcpy of nothing', by == 0, e.get('loc', ''), 'memory')
        return p
    l = loc_of(p)
    t = eng.load(Loc(l.root, l.path[:-1])).static[0]
    c = mem_count(eng, t, by, e)
    par, v, k = mem_range(eng, p, c, e, 'memcpy target')
    spar, sv, sk = mem_range(eng, q, c, e, 'memcpy source')
    if par.root == spar.root and 'move' not in e['callee']['base']:
        same = And(*[x[1] == y[1] for x, y in zip(par.path, spar.path) if x[0] == 'i'])
        eng.oblige('memcpy regions do not overlap', Or(c == 0, Not(same), k + c <= sk, sk + c <= k), e.get('loc', ''), 'memory')
    old, src = v.get('el', 'e'), sv.get('el', 'e')
    nw = L(1, lambda j: If(And(j >= k, j < k + c), src(sk + (j - k)), old(j)))
    eng.store(par, Node('arr', v.static, dict(v.kids, el=sc(nw))))
    return p


def find_ctor(eng, t, nargs, rvalue):
    best = None
    for fid, f in eng.P.fns.items():
        if f['base'].endswith('::ctor') and f.get('rec') is not None and eng.P.strip(f['rec']) == t and len(f['params']) == nargs and 'body' in f:
            if nargs == 0:
                return fid
            mv = eng.P.ty(f['params'][0]['t']).get('rv', False)
            if mv == rvalue:
                return fid
            best = fid if best is None else best
    return best


@reg('std::allocator_traits::construct', 'std::__new_allocator::construct')
def h_construct(eng, e):
    a = e['args']
    if len(a) < 2:
        raise Unsupported('construct')
    p = eng.ev(a[1])
    l = loc_of(p)
    eng.deref(l, e.get('loc', ''))
    old = eng.load(l)
    t = None
    par = eng.load(Loc(l.root, l.path[:-1]))
    t = eng.P.strip(par.static[0])
    if eng.is_scalar(t):
        eng.store(l, eng.ev(a[2]) if len(a) > 2 else eng.zero(t))
        return None
    c = find_ctor(eng, t, len(a) - 2, len(a) > 2 and 'move' in ((a[2].get('callee') or {}).get('base') or ''))
    if c is None:
        raise Unsupported('constructor for construct()')
    eng.call_fn(c, [eng.lv(a[2])] if len(a) > 2 else [], this=l)
    return None
