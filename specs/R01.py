"""R01: random helpers respect their ranges (rounded arithmetic)."""
from spec import *
COMPLETE = True
import fp_

ASSUMPTIONS = ['std::uniform_real_distribution(a,b) yields a representable value in [a,b) (dependency contract; libstdc++ 13 clamps to the largest value below b)',
               'IEEE-754 rounding is a monotone projection; max-min does not overflow; the scaling lemma of engine/fp_.py']
RANGES = {'int': (-1 << 31, (1 << 31) - 1), 'size_t': (0, (1 << 64) - 1), 'short': (-1 << 15, (1 << 15) - 1), 'int64': (-1 << 63, (1 << 63) - 1),
          'unsigned': (0, (1 << 32) - 1), 'uint8': (0, 255), 'int8': (-128, 127), 'uint16': (0, 65535)}


def dist_ctor(eng, e, t):
    a = e['args']
    w = eng.P.ty(eng.P.ty(t)['args'][0]['t'])['w']
    v = [eng.ev(x).kids['e'] for x in a[:2]]
    while len(v) < 2:
        v.append(z3.RealVal(len(v)))
    v = [z3.ToReal(x) if x.sort() == I else x for x in v]
    return Node('st', t, {'a': sc(v[0]), 'b': sc(v[1]), 'w': sc(z3.IntVal(w))})


def dist_call(eng, e):
    l = eng.lv(e['args'][0]) if e.get('op') or not e.get('obj') else eng.objloc(e)
    d = eng.load(l)
    w = num(d.get('w', 'e'))
    a, b = d.get('a', 'e'), d.get('b', 'e')
    r = eng.fresh('u', R)
    eng.pcfact(And(r >= a, r < b, fp_.F(w)(r) == r, Implies(b == 1, r <= 1 - fp_.U[w])))
    return sc(r)


LIBX = {('ctor', 'std::uniform_real_distribution'): dist_ctor, 'std::uniform_real_distribution::operator()': dist_call,
        'heu::internal::global_mt19937': lambda eng, e: ANY}


def randD0(eng, e):
    if e['args']:
        return NotImplemented
    r = eng.fresh('randD', R)
    eng.pcfact(And(r >= 0, r <= 1 - fp_.U[64], fp_.F(64)(r) == r))
    return sc(r)


def randD2(eng, e):
    if len(e['args']) == 0:
        return randD0(eng, e)
    if len(e['args']) != 2:
        return NotImplemented
    a, b = [eng.ev(x).kids['e'] for x in e['args']]
    eng.oblige('randD(min,max): min <= max', a <= b, e.get('loc', ''), 'pre')
    r = eng.fresh('randD', R)
    eng.pcfact(And(r >= a, r <= b))
    return sc(r)


def randF0(eng, e):
    r = eng.fresh('randF', R)
    eng.pcfact(And(r >= 0, r <= 1 - fp_.U[32], fp_.F(32)(r) == r))
    return sc(r)


def unit(n, w):
    def f(eng):
        r = eng.call_fn(eng.P.one('vroot::' + n)['id'], []).kids['e']
        eng.oblige('in [0,1)', And(r >= 0, r < 1), '', 'post')
        eng.oblige('at most the largest number below 1', r <= 1 - fp_.U[w], '', 'post')
    return f


def ranged(eng):
    fp_.axioms(eng)
    a, b = [eng.sym(eng.P.one('vroot::d2')['params'][0]['t'], x).kids['e'] for x in 'ab']
    eng.assume(a <= b)
    r = eng.call_fn(eng.P.one('vroot::d2')['id'], [sc(a), sc(b)]).kids['e']
    eng.oblige('at least min', r >= a, '', 'post')
    eng.oblige('at most max', r <= b, '', 'post')


def fill(n):
    def f(eng):
        fn = eng.P.one('vroot::' + n)
        D = eng.P.ty(eng.P.strip(fn['params'][0]['t']))['to']
        N = z3.Int('cap')
        off = z3.Int('off')
        num_ = z3.Int('num')
        v0 = Node('arr', (D, 'array', None), {'n': N, 'el': eng.sym(D, 'buf', 1)})
        l = eng.new('buf', v0)
        eng.assume(And(N >= 0, N < (1 << 62), off >= 0, num_ < (1 << 31), num_ >= -(1 << 31), off + If(num_ > 0, num_, z3.IntVal(0)) <= N))
        a = [ptr_of(l.i(off)), sc(num_)]
        lo, hi = z3.RealVal(0), z3.RealVal(1)
        if n == 'dn2':
            lo, hi = [eng.sym(fn['params'][2]['t'], x).kids['e'] for x in 'ab']
            eng.assume(lo <= hi)
            a += [sc(lo), sc(hi)]
        eng.call_fn(fn['id'], a)
        k = z3.Int('k')
        x0, x1 = v0.get('el', 'e')(k), eng.load(l).get('el', 'e')(k)
        ins = And(k >= off, k < off + num_)
        eng.oblige('each requested element is in range', Implies(ins, And(x1 >= lo, x1 <= hi if n == 'dn2' else x1 < hi)), '', 'post')
        eng.oblige('no other element is written', Implies(And(k >= 0, k < N, Not(ins)), x1 == x0), '', 'post')
    return f


def index(t):
    lo, hi = RANGES[t]

    def f(eng):
        fp_.axioms(eng, 32)
        s = z3.Int('size')
        eng.assume(And(s >= 1, s <= hi))
        r = eng.call_fn(eng.P.one('vroot::%s_i' % t)['id'], [sc(s)]).kids['e']
        eng.oblige('in {0..size-1}', And(r >= 0, r < s), '', 'post')
    return f


def indexr(t):
    lo, hi = RANGES[t]

    def f(eng):
        fp_.axioms(eng, 32)
        a, b = z3.Ints('min max1')
        eng.assume(And(a >= lo, b <= hi, a < b, b - a <= max(hi, (1 << 31) - 1)))
        r = eng.call_fn(eng.P.one('vroot::%s_r' % t)['id'], [sc(a), sc(b)]).kids['e']
        eng.oblige('in {min..max-1}', And(r >= a, r < b), '', 'post')
    return f


def build(spec):
    kw = dict(fpmode='rnd', lib=LIBX)
    spec.case('randD()', unit('d0', 64), **kw)
    spec.case('randF()', unit('f0', 32), **kw)
    spec.case('randD(min,max)', ranged, contracts={'heu::randD': randD0}, **kw)
    spec.case('randD(dst,num)', fill('dn'), contracts={'heu::randD': randD0}, overflow=True, **kw)
    spec.case('randD(dst,num,min,max)', fill('dn2'), contracts={'heu::randD': randD2}, overflow=True, **kw)
    for t in RANGES:
        spec.case('randIdx(%s)' % t, index(t), contracts={'heu::randF': randF0}, overflow=True, **kw)
        spec.case('randIdx(%s,%s)' % (t, t), indexr(t), contracts={'heu::randF': randF0}, overflow=True, **kw)
