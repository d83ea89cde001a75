"""P01: particles never leave the search range nor exceed the velocity limit."""
from spec import *
COMPLETE = True
import rand_

ASSUMPTIONS = ['real numbers stand for doubles in the movement formula; the clamps use only comparisons and copies, for which this is exact',
               'randD() in [0,1) and randD(a,b) in [a,b]: contracts verified under R01', 'std::vector / std::array / Eigen element access and coefficient-wise expressions as modelled in engine/lib.py']
KINDS = ['sasq', 'sare', 'svsq', 'svre', 'easq', 'eare', 'exsq', 'exre']
NAMES = {'sa': 'std::array', 'sv': 'std::vector', 'ea': 'fixed Eigen array', 'ex': 'dynamic Eigen array', 'sq': 'scalar limits', 're': 'limits per dimension'}


class Sw:
    """a solver with arbitrary content, seen through its public accessors"""

    def __init__(s, eng, n):
        s.eng, s.n = eng, n
        f = eng.P.one('vroot::%s_lo' % n)
        T = eng.P.ty(f['params'][0]['t'])['to']
        s.obj = eng.new('solver', eng.sym(T, 's'))
        k = z3.Int('k?')
        t = {x: s.get(x, sc(k)) for x in ('lo', 'hi', 'vm')}
        at = lambda x: (lambda i: z3.substitute(t[x], (k, i)) if not z3.is_int_value(i) or True else None)
        s.lo, s.hi, s.vm = at('lo'), at('hi'), at('vm')
        s.dim = s.get('dim')
        s.popLoc, s.gbLoc, s.optLoc = s.get('pop'), s.get('gb'), s.get('opt')

    def get(s, what, *a):
        e = s.eng
        e.quiet += 1
        try:
            r = e.call_fn(e.P.one('vroot::%s_%s' % (s.n, what))['id'], [ptr_of(s.obj)] + list(a))
        finally:
            e.quiet -= 1
        return r if isinstance(r, Loc) else r.kids['e']

    def box(s):
        """the class invariant of a configured box"""
        k = z3.Int('kb')
        e = s.eng
        e.assume(And(s.dim >= 1, s.dim < (1 << 31)))
        if s.n.endswith('re'):
            for f in e.load(s.obj).kids:
                v = e.load(s.obj).kids[f]
                if v.kind == 'arr' and f in ('_posMinV', '_posMaxV', '_maxVelocityV'):
                    e.assume(v.kids['n'] == s.dim)
        e.assume(z3.ForAll([k], Implies(And(k >= 0, k < s.dim), And(s.lo(k) <= s.hi(k), s.vm(k) >= 0))))


def clamp(x, lo, hi):
    return If(x < lo, lo, If(x > hi, hi, x))


def constraint(n, what):
    def f(eng):
        s = Sw(eng, n)
        s.box()
        fn = eng.P.one('vroot::%s_%s' % (n, what))
        V = eng.P.ty(fn['params'][1]['t'])['to']
        p = eng.new('p', eng.sym(V, 'p'))
        eng.assume(eng.load(p).kids['n'] == s.dim)
        a = eng.load(p).kids['el'].kids['e']
        o0 = eng.load(s.obj)
        eng.call_fn(fn['id'], [ptr_of(s.obj), ptr_of(p)])
        b = eng.load(p).kids['el'].kids['e']
        k = z3.Int('k')
        lo, hi = (s.lo(k), s.hi(k)) if what == 'pos' else (-s.vm(k), s.vm(k))
        ins = And(k >= 0, k < s.dim)
        eng.oblige('size unchanged', eng.load(p).kids['n'] == s.dim, '', 'post')
        eng.oblige('every component moves to the nearest point of its interval', Implies(ins, b(k) == clamp(a(k), lo, hi)), '', 'post')
    return f


def init(n):
    def f(eng):
        s = Sw(eng, n)
        s.box()
        fn = eng.P.one('vroot::%s_dflt' % n)
        V = eng.P.ty(fn['params'][1]['t'])['to']
        p, v = eng.new('p', eng.sym(V, 'p')), eng.new('v', eng.sym(V, 'v'))
        eng.call_fn(fn['id'], [ptr_of(s.obj), ptr_of(p), ptr_of(v)])
        P, W = eng.load(p), eng.load(v)
        k = z3.Int('k')
        ins = And(k >= 0, k < s.dim)
        eng.oblige('position has the configured size', P.kids['n'] == s.dim, '', 'post')
        eng.oblige('velocity has the configured size', W.kids['n'] == s.dim, '', 'post')
        x = P.kids['el'].kids['e'](k)
        eng.oblige('initial position inside the range', Implies(ins, And(s.lo(k) <= x, x <= s.hi(k))), '', 'post')
        eng.oblige('initial velocity is zero', Implies(ins, W.kids['el'].kids['e'](k) == 0), '', 'post')
    return f


def move(n):
    def f(eng):
        s = Sw(eng, n)
        s.box()
        i, k = z3.Int('i'), z3.Int('k')
        P0, G0, O = eng.load(s.popLoc), eng.load(s.gbLoc), eng.load(s.optLoc)
        N = P0.kids['n']
        part = P0.kids['el']
        iv = z3.Int('iv')
        eng.assume(N < (1 << 31))
        if n[:2] in ('sv', 'ex'):
            eng.assume(z3.ForAll([iv], Implies(And(iv >= 0, iv < N), And(part.get('position', 'n')(iv) == s.dim, part.get('velocity', 'n')(iv) == s.dim,
                                                                         part.get('pBest', 'position', 'n')(iv) == s.dim))))
            eng.assume(G0.get('position', 'n') == s.dim)
        eng.call_fn(eng.P.one('vroot::%s_upd' % n)['id'], [ptr_of(s.obj)])
        P1, G1 = eng.load(s.popLoc), eng.load(s.gbLoc)
        q = P1.kids['el']
        ins = And(i >= 0, i < N, k >= 0, k < s.dim)
        x0, v0 = part.get('position', 'el', 'e')(i, k), part.get('velocity', 'el', 'e')(i, k)
        x1, v1 = q.get('position', 'el', 'e')(i, k), q.get('velocity', 'el', 'e')(i, k)
        pb, gb = part.get('pBest', 'position', 'el', 'e')(i, k), G0.get('position', 'el', 'e')(k)
        eng.oblige('number of particles unchanged', P1.kids['n'] == N, '', 'post')
        eng.oblige('position inside the range', Implies(ins, And(s.lo(k) <= x1, x1 <= s.hi(k))), '', 'post')
        eng.oblige('velocity within its limit', Implies(ins, And(v1 <= s.vm(k), -v1 <= s.vm(k))), '', 'post')
        eng.oblige('position is the clamped sum of position and new velocity', Implies(ins, x1 == clamp(x0 + v1, s.lo(k), s.hi(k))), '', 'post')
        w, cp, cg = (O.get(x, 'e') for x in ('inertiaFactor', 'learnFactorP', 'learnFactorG'))
        ds = [d.decl()(i) if d.num_args() == 1 else d for d in getattr(eng, 'draws', [])]
        seen = []
        for d in ds:
            if not any(d.eq(y) for y in seen):
                seen.append(d)
        m = num(simp(s.dim))
        for kk in ([k] if m is None else [z3.IntVal(j) for j in range(m)]):
            at = lambda t: z3.substitute(t, (k, kk))
            alts = []
            for a in seen:
                for b in seen:
                    if not a.eq(b):
                        alts.append(at(v1) == clamp(w * at(v0) + cp * a * (at(pb) - at(x0)) + cg * b * (at(gb) - at(x0)), -at(s.vm(k)), at(s.vm(k))))
            eng.oblige('velocity is the clamped inertia and attraction formula with one pair of draws per particle', Implies(at(ins), Or(*alts)), '', 'post')
        eng.oblige('own best positions unchanged', Implies(ins, q.get('pBest', 'position', 'el', 'e')(i, k) == pb), '', 'post')
        eng.oblige('global best position unchanged', Implies(ins, G1.get('position', 'el', 'e')(k) == gb), '', 'post')
        eng.oblige('sizes unchanged', Implies(ins, And(q.get('position', 'n')(i) == part.get('position', 'n')(i), q.get('velocity', 'n')(i) == part.get('velocity', 'n')(i))), '', 'post')
    return f


def setrange(n):
    def f(eng):
        s = Sw(eng, n)
        fn = eng.P.one('vroot::%s_set' % n)
        V = eng.P.strip(fn['params'][1]['t'])
        vs = [eng.new(x, eng.sym(V, x)) for x in 'abc']
        if n.endswith('sq'):
            a, b, c = [eng.load(x).kids['e'] for x in vs]
            eng.assume(And(a < b, c > 0))
            A = B = C = None
            al, bl, cl = (lambda k: a), (lambda k: b), (lambda k: c)
            m = None
        else:
            A = [eng.load(x) for x in vs]
            m = A[0].kids['n']
            al, bl, cl = [x.kids['el'].kids['e'] for x in A]
            kb = z3.Int('kc')
            eng.assume(And(m == A[1].kids['n'], m == A[2].kids['n'], m < (1 << 31)))
            eng.assume(z3.ForAll([kb], Implies(And(kb >= 0, kb < m), And(al(kb) < bl(kb), cl(kb) > 0))))
        eng.call_fn(fn['id'], [ptr_of(s.obj)] + vs)
        k = z3.Int('k')
        ins = k >= 0 if m is None else And(k >= 0, k < m)
        g = lambda w: s.get(w, sc(k))
        eng.oblige('configured limits are the given ones', Implies(ins, And(g('lo') == al(k), g('hi') == bl(k), g('vm') == cl(k))), '', 'post')
        if m is not None:
            eng.quiet += 0
            d = s.get('dim')
            eng.oblige('dimension is the limits\' size', d == m, '', 'post')
    return f


def build(spec):
    for n in KINDS:
        t = NAMES[n[:2]] + ', ' + NAMES[n[2:]]
        c = dict(contracts=dict(rand_.CONTRACTS), overflow=True)
        spec.case('applyConstraint4Position (%s)' % t, constraint(n, 'pos'), **c)
        spec.case('applyConstraint4Velocity (%s)' % t, constraint(n, 'vel'), **c)
        spec.case('defaultInitialize (%s)' % t, init(n), **c)
        spec.case('updatePopulation (%s)' % t, move(n), **c)
        spec.case('setPVRange (%s)' % t, setrange(n), **c)
