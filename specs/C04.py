"""C04: matrices hold independent column-major data and never touch foreign memory."""
from spec import *

COMPLETE = True
ASSUMPTIONS = ['std::allocator provides fresh, disjoint blocks (engine model); element copies and moves of the class element are its own operators, a moved-from element keeps its value',
               'sizes are non-negative and the number of elements of a matrix is representable in int']
MAXI = (1 << 31) - 1
ELT = {'p': 'double', 'q': 'class'}


class Mem:
    """the storage of all matrices of one element type"""
    def __init__(s, eng, p):
        s.eng, s.p = eng, p
        f = eng.P.one('vroot::%s_types' % p)
        s.TD, s.TF, s.TM, s.E = [eng.P.strip(eng.P.ty(a['t'])['to']) for a in f['params']]
        s.cls = p == 'q'
        if s.cls:
            eng.raw[s.E] = s.fresh_raw
            eng.dead_check = s.dead_check
            o = eng.sym(s.E, 'obj')
            eng.rawobj[s.E] = o.put(('alive', 'e'), z3.BoolVal(False))
            eng.defobj[s.E] = o.put(('alive', 'e'), z3.BoolVal(True)).put(('v', 'e'), z3.IntVal(0))
        s.h = eng.heap(s.E)
        s.nm = s.h.root
        s.next0 = s.next()
        eng.contracts['vroot::need'] = s.need

    def need(s, eng, e):
        eng.oblige('objects are created in empty storage, used and destroyed while they live', eng.ev(e['args'][0]).kids['e'], e.get('loc', ''), 'memory')

    def fresh_raw(s, eng):
        v = eng.sym(s.E, 'raw', 1)
        return v.put(('alive', 'e'), L(1, lambda j: z3.BoolVal(False)))

    def dead_check(s, eng, blk, p, e):
        k = eng.fresh('dk', I)
        n = blk.get('d', 'n')
        eng.oblige('storage is given back only after its objects are destroyed', Or(p.kids['null'], Implies(And(k >= 0, k < n), Not(blk.get('d', 'el', 'alive', 'e')(k)))), e.get('loc', ''), 'memory')

    def next(s):
        return s.eng.load(s.h).get('next', 'e')

    def blk(s, i):
        return s.eng.load(s.h.f('obj').i(i))

    def val(s, i, k):
        """content of element k of block i"""
        e = select(s.blk(i).get('d', 'el'), k)
        return e.get('v', 'e') if s.cls else e.kids['e']

    def alive(s, i, k):
        return select(s.blk(i).get('d', 'el'), k).get('alive', 'e') if s.cls else z3.BoolVal(True)

    def quantified(s, i, n):
        k = z3.Int('k!al')
        if not s.cls:
            return z3.BoolVal(True)
        t = s.alive(i, k)
        return z3.ForAll([k], Implies(And(k >= 0, k < n), t))


class Dyn:
    def __init__(s, mem, name):
        eng = mem.eng
        s.m, s.eng, s.name = mem, eng, name
        v = eng.sym(mem.TD, name)
        s.b = z3.Int(name + '.block')
        s.null = z3.Bool(name + '.null')
        s.loc = eng.new(name, v)
        eng.store(s.loc.f('dataPtr'), eng.heap_ptr(mem.E, s.b, z3.IntVal(0), s.null))
        s.r, s.c, s.cap = s.f('rowNum'), s.f('colNum'), s.f('_capacity')
        s.n = s.r * s.c
        blk = mem.blk(s.b)
        eng.assume(And(s.r >= 0, s.c >= 0, s.cap <= MAXI, s.r <= MAXI, s.c <= MAXI, s.n >= 0, s.n <= s.cap))
        eng.assume(And(s.b >= 0, s.b < mem.next0))
        eng.assume(If(s.null, s.cap == 0, And(blk.get('live', 'e'), blk.get('d', 'n') == s.cap)))
        if mem.cls:
            eng.assume(Implies(Not(s.null), mem.quantified(s.b, s.cap)))
        s.el0 = lambda k, st=eng.st: s.at(st, k)

    def at(s, st, k):
        sv = s.eng.st
        s.eng.st = st
        try:
            return s.m.val(s.b, k)
        finally:
            s.eng.st = sv

    def f(s, nm):
        return s.eng.load(s.loc.f(nm)).kids['e']

    def ptr(s):
        return s.eng.load(s.loc.f('dataPtr'))


def post(mem, v, r, c, val, what, owner=None, others=(), capmin=None):
    """the value v of a dynamic matrix is a legal matrix of the given shape and content; k is any element"""
    eng = mem.eng
    k = z3.Int('k')
    p = v.get('dataPtr')
    R_, C_, cap = v.get('rowNum', 'e'), v.get('colNum', 'e'), v.get('_capacity', 'e')
    eng.oblige(what + ': shape', And(R_ == r, C_ == c), '', 'post')
    if p.static is None:
        eng.oblige(what + ': no storage, no capacity', And(cap == 0, r * c == 0), '', 'post')
        return None, z3.BoolVal(True)
    l = loc_of(p)
    null = p.kids['null']
    eng.oblige(what + ': storage is a block of this heap', z3.BoolVal(l.root == mem.nm), '', 'post')
    b = l.path[1][1]
    blk = mem.blk(b)
    eng.oblige(what + ': capacity is the size of the block and holds the elements', And(r * c <= cap, If(null, cap == 0, And(l.path[3][1] == 0, blk.get('live', 'e'), blk.get('d', 'n') == cap, b >= 0, b < mem.next()))), '', 'post')
    eng.oblige(what + ': all storage holds objects', Implies(And(Not(null), k >= 0, k < cap), mem.alive(b, k)), '', 'post')
    if val is not None:
        eng.oblige(what + ': elements', Implies(And(Not(null), k >= 0, k < r * c), mem.val(b, k) == val(k)), '', 'post')
    if capmin is not None:
        eng.oblige(what + ': capacity as requested', cap >= capmin, '', 'post')
    return b, null


def frame(mem, owned, touched):
    """blocks not belonging to the operands are as before; allocated blocks are owned or given back; nothing owned leaks"""
    eng = mem.eng
    x, k = z3.Int('x'), z3.Int('k')
    b0, b1 = select(mem.obj0, x), mem.blk(x)
    old = And(x >= 0, x < mem.next0, *[Not(And(x == b, Not(nu))) for b, nu in touched])
    eng.oblige('other storage is not touched', Implies(old, And(b0.get('live', 'e') == b1.get('live', 'e'), b0.get('d', 'n') == b1.get('d', 'n'),
               Implies(And(k >= 0, k < b0.get('d', 'n')), samev(mem, select(b0.get('d', 'el'), k), select(b1.get('d', 'el'), k))))), '', 'post')
    mine = Or(*[And(x == b, Not(nu)) for b, nu in owned])
    eng.oblige('no storage leaks', Implies(And(Or(And(x >= mem.next0, x < mem.next()), *[And(x == b, Not(nu)) for b, nu in touched]), b1.get('live', 'e')), mine), '', 'post')


def samev(mem, a, b):
    return And(*[u == w for (_, u), (_, w) in zip(a.leaves(), b.leaves())])


def setup(p):
    def mk(eng):
        m = Mem(eng, p)
        return m
    return mk


def call(eng, nm, *a):
    return eng.call_fn(eng.P.one('vroot::' + nm)['id'], list(a))


def freeze(mem):
    mem.obj0 = mem.eng.load(mem.h).get('obj', 'el')


def dyn_ctor0(p):
    def f(eng):
        m = Mem(eng, p)
        freeze(m)
        v = call(eng, p + 'D_ctor0')
        post(m, v, z3.IntVal(0), z3.IntVal(0), None, 'default constructed')
        frame(m, [], [])
    return f


def dyn_ctor(p):
    def f(eng):
        m = Mem(eng, p)
        freeze(m)
        r, c = z3.Ints('r c')
        eng.assume(And(r >= 0, c >= 0, r <= MAXI, c <= MAXI, r * c <= MAXI, r * c >= 0))
        v = call(eng, p + 'D_ctor', sc(r), sc(c))
        b, nu = post(m, v, r, c, None, 'constructed')
        frame(m, [(b, nu)], [])
    return f


def dyn_copy(p):
    def f(eng):
        m = Mem(eng, p)
        s = Dyn(m, 's')
        freeze(m)
        v = call(eng, p + 'D_copy', s.loc)
        b, nu = post(m, v, s.r, s.c, s.el0, 'copy')
        src_same(m, s)
        eng.oblige('the copy has storage of its own', Or(nu, b != s.b, s.null), '', 'post')
        frame(m, [(b, nu)], [])
    return f


def src_same(m, s):
    v = s.eng.load(s.loc)
    post(m, v, s.r, s.c, s.el0, 'source')
    p = v.get('dataPtr')
    s.eng.oblige('source keeps its storage', And(p.kids['null'] == s.null, Or(s.null, p.kids['i0'] == s.b)), '', 'post')


def dyn_move(p):
    def f(eng):
        m = Mem(eng, p)
        s = Dyn(m, 's')
        freeze(m)
        v = call(eng, p + 'D_move', s.loc)
        b, nu = post(m, v, s.r, s.c, s.el0, 'moved')
        b2, nu2 = post(m, eng.load(s.loc), z3.IntVal(0), z3.IntVal(0), None, 'moved-from')
        frame(m, [(b, nu)] + ([(b2, nu2)] if b2 is not None else []), [(s.b, s.null)])
        if b2 is not None:
            eng.oblige('the storage belongs to one of them', Or(nu, nu2, b != b2), '', 'post')
    return f


def dyn_dtor(p):
    def f(eng):
        m = Mem(eng, p)
        s = Dyn(m, 's')
        freeze(m)
        call(eng, p + 'D_dtor', ptr_of(s.loc))
        frame(m, [], [(s.b, s.null)])
    return f


def two(m):
    d, s = Dyn(m, 'd'), Dyn(m, 's')
    m.eng.assume(Or(d.null, s.null, d.b != s.b))
    return d, s


def dyn_asg(p):
    def f(eng):
        m = Mem(eng, p)
        d, s = two(m)
        freeze(m)
        call(eng, p + 'D_asg', ptr_of(d.loc), ptr_of(s.loc))
        b, nu = post(m, eng.load(d.loc), s.r, s.c, s.el0, 'assigned')
        src_same(m, s)
        eng.oblige('the copy has storage of its own', Or(nu, s.null, b != s.b), '', 'post')
        frame(m, [(b, nu)], [(d.b, d.null)])
    return f


def dyn_self(p, w):
    def f(eng):
        m = Mem(eng, p)
        d = Dyn(m, 'd')
        freeze(m)
        call(eng, p + 'D_' + w, ptr_of(d.loc), ptr_of(d.loc))
        src_same(m, d)
        frame(m, [(d.b, d.null)], [(d.b, d.null)])
    return f


def dyn_masg(p):
    def f(eng):
        m = Mem(eng, p)
        d, s = two(m)
        freeze(m)
        call(eng, p + 'D_masg', ptr_of(d.loc), ptr_of(s.loc))
        b, nu = post(m, eng.load(d.loc), s.r, s.c, s.el0, 'moved into')
        b2, nu2 = post(m, eng.load(s.loc), z3.IntVal(0), z3.IntVal(0), None, 'moved-from')
        if b2 is not None:
            eng.oblige('the storage belongs to one of them', Or(nu, nu2, b != b2), '', 'post')
        frame(m, [(b, nu)] + ([(b2, nu2)] if b2 is not None else []), [(d.b, d.null), (s.b, s.null)])
    return f


def dyn_reserve(p):
    def f(eng):
        m = Mem(eng, p)
        d = Dyn(m, 'd')
        freeze(m)
        n = z3.Int('n')
        eng.assume(And(n >= 0, n <= MAXI))
        call(eng, p + 'D_reserve', ptr_of(d.loc), sc(n))
        b, nu = post(m, eng.load(d.loc), d.r, d.c, d.el0, 'after reserve', capmin=n)
        frame(m, [(b, nu)], [(d.b, d.null)])
    return f


def dyn_resize(p):
    def f(eng):
        m = Mem(eng, p)
        d = Dyn(m, 'd')
        freeze(m)
        r, c = z3.Ints('r c')
        eng.assume(And(r >= 0, c >= 0, r <= MAXI, c <= MAXI, r * c <= MAXI, r * c >= 0))
        call(eng, p + 'D_resize', ptr_of(d.loc), sc(r), sc(c))
        v = eng.load(d.loc)
        b, nu = post(m, v, r, c, None, 'after resize')
        k = z3.Int('k')
        eng.oblige('resizing within capacity keeps the linear contents', Implies(And(r * c <= d.cap, Not(d.null), k >= 0, k < r * c), m.val(b, k) == d.el0(k)), '', 'post')
        eng.oblige('resizing within capacity keeps the storage', Implies(And(r * c <= d.cap), And(v.get('_capacity', 'e') == d.cap, nu == d.null, Or(nu, b == d.b))), '', 'post')
        frame(m, [(b, nu)], [(d.b, d.null)])
    return f


class Map:
    """a matrix mapped onto part of a block that belongs to someone else"""
    def __init__(s, mem, name):
        eng = mem.eng
        s.m, s.eng, s.name = mem, eng, name
        s.b, s.o = z3.Int(name + '.block'), z3.Int(name + '.offset')
        s.null = z3.BoolVal(False)
        s.loc = eng.new(name, eng.sym(mem.TM, name))
        eng.store(s.loc.f('p'), eng.heap_ptr(mem.E, s.b, s.o))
        s.r, s.c = s.f('r'), s.f('c')
        s.n = s.r * s.c
        blk = mem.blk(s.b)
        eng.assume(And(s.b >= 0, s.b < mem.next0, s.o >= 0, s.r >= 0, s.c >= 0, s.r <= MAXI, s.c <= MAXI, s.n >= 0, s.n <= MAXI, s.o + s.n <= blk.get('d', 'n'), blk.get('d', 'n') <= MAXI, blk.get('live', 'e')))
        if mem.cls:
            eng.assume(mem.quantified(s.b, blk.get('d', 'n')))
        s.el0 = lambda k, st=eng.st: s.at(st, k)

    f = Dyn.f

    def at(s, st, k):
        sv = s.eng.st
        s.eng.st = st
        try:
            return s.m.val(s.b, s.o + k)
        finally:
            s.eng.st = sv

    def now(s, k):
        return s.m.val(s.b, s.o + k)

    def shape(s):
        return s.f('r'), s.f('c')

    def same(s, what):
        eng = s.eng
        p = eng.load(s.loc.f('p'))
        eng.oblige(what + ' keeps its place', And(p.kids['i0'] == s.b, p.kids['i1'] == s.o), '', 'post')


class Fix:
    R, C = 3, 4

    def __init__(s, mem, name):
        eng = mem.eng
        s.m, s.eng, s.name = mem, eng, name
        s.loc = eng.new(name, eng.sym(mem.TF, name))
        s.r, s.c, s.n = z3.IntVal(3), z3.IntVal(4), z3.IntVal(12)
        if mem.cls:
            eng.store(s.loc.f('array').f('el').f('alive') if False else s.loc.f('array'), s.all_alive(eng.load(s.loc.f('array'))))
        s.el0 = lambda k, st=eng.st: s.at(st, k)

    @staticmethod
    def all_alive(v):
        return v.put(('el', 'alive', 'e'), L(1, lambda j: z3.BoolVal(True)))

    def elem(s, k, v=None):
        v = s.eng.load(s.loc) if v is None else v
        return select(v.get('array', 'el'), k)

    def val(s, k, v=None):
        x = s.elem(k, v)
        return x.get('v', 'e') if s.m.cls else x.kids['e']

    def at(s, st, k):
        sv = s.eng.st
        s.eng.st = st
        try:
            return s.val(k)
        finally:
            s.eng.st = sv


def fix_post(m, v, el, what):
    k = z3.Int('k')
    x = select(v.get('array', 'el'), k)
    ins = And(k >= 0, k < 12)
    m.eng.oblige(what + ': elements', Implies(ins, (x.get('v', 'e') if m.cls else x.kids['e']) == el(k)), '', 'post')
    if m.cls:
        m.eng.oblige(what + ': all storage holds objects', Implies(ins, x.get('alive', 'e')), '', 'post')


def source(m, kind):
    s = {'D': Dyn, 'M': Map, 'F': Fix}[kind](m, 's')
    if isinstance(s, Dyn):
        m.eng.assume(Implies(s.n > 0, Not(s.null)))
    return s


def src_post(m, s):
    k = z3.Int('k')
    ins = And(k >= 0, k < s.n)
    if isinstance(s, Dyn):
        src_same(m, s)
    elif isinstance(s, Map):
        s.same('source')
        m.eng.oblige('source: shape', And(s.shape()[0] == s.r, s.shape()[1] == s.c), '', 'post')
        m.eng.oblige('source: elements', Implies(ins, s.now(k) == s.el0(k)), '', 'post')
    else:
        m.eng.oblige('source: elements', Implies(ins, s.val(k) == s.el0(k)), '', 'post')


def dyn_mix(p, kind):
    def f(eng):
        m = Mem(eng, p)
        d, s = Dyn(m, 'd'), source(m, kind)
        if kind == 'M':
            eng.assume(Or(d.null, d.b != s.b))
        freeze(m)
        call(eng, p + 'D_asg' + kind, ptr_of(d.loc), ptr_of(s.loc))
        b, nu = post(m, eng.load(d.loc), s.r, s.c, s.el0, 'assigned')
        src_post(m, s)
        frame(m, [(b, nu)], [(d.b, d.null)])
    return f


def fix_copy(p):
    def f(eng):
        m = Mem(eng, p)
        s = Fix(m, 's')
        freeze(m)
        v = call(eng, p + 'F_copy', s.loc)
        fix_post(m, v, s.el0, 'copy')
        src_post(m, s)
        frame(m, [], [])
    return f


def fix_asg(p, kind):
    def f(eng):
        m = Mem(eng, p)
        d = Fix(m, 'd')
        s = source(m, kind)
        eng.assume(And(s.r == 3, s.c == 4))
        eng.assume(s.n == 12)
        freeze(m)
        call(eng, p + 'F_asg' + ('' if kind == 'F' else kind), ptr_of(d.loc), ptr_of(s.loc))
        fix_post(m, eng.load(d.loc), s.el0, 'assigned')
        src_post(m, s)
        frame(m, [], [])
    return f


def fix_self(p):
    def f(eng):
        m = Mem(eng, p)
        d = Fix(m, 'd')
        freeze(m)
        call(eng, p + 'F_asg', ptr_of(d.loc), ptr_of(d.loc))
        fix_post(m, eng.load(d.loc), d.el0, 'assigned to itself')
        frame(m, [], [])
    return f


def map_frame(m, d):
    """outside the mapped elements nothing changes"""
    eng = m.eng
    x, k = z3.Int('x'), z3.Int('k')
    b0, b1 = select(m.obj0, x), m.blk(x)
    eng.oblige('no storage is allocated or given back', And(m.next() == m.next0, b0.get('live', 'e') == b1.get('live', 'e'), b0.get('d', 'n') == b1.get('d', 'n')), '', 'post')
    eng.oblige('nothing but the elements is written', Implies(And(x >= 0, x < m.next0, k >= 0, k < b0.get('d', 'n'), Not(And(x == d.b, k >= d.o, k < d.o + d.n))),
               samev(m, select(b0.get('d', 'el'), k), select(b1.get('d', 'el'), k))), '', 'post')


def map_asg(p, kind, self=False):
    def f(eng):
        m = Mem(eng, p)
        d = Map(m, 'd')
        s = d if self else source(m, kind)
        if not self:
            eng.assume(And(s.r == d.r, s.c == d.c))
            if kind == 'M':
                eng.assume(Or(d.b != s.b, d.o + d.n <= s.o, s.o + s.n <= d.o))
            elif kind == 'D':
                eng.assume(Or(s.null, d.b != s.b))
            else:
                eng.assume(d.n == 12)
        freeze(m)
        call(eng, p + 'M_asg' + ('' if kind == 'M' else kind), ptr_of(d.loc), ptr_of(s.loc))
        k = z3.Int('k')
        d.same('target')
        eng.oblige('assigned: shape', And(d.shape()[0] == s.r, d.shape()[1] == s.c), '', 'post')
        eng.oblige('assigned: elements', Implies(And(k >= 0, k < d.n), d.now(k) == s.el0(k)), '', 'post')
        if m.cls:
            eng.oblige('assigned: all storage holds objects', Implies(And(k >= 0, k < d.n), m.alive(d.b, d.o + k)), '', 'post')
        src_post(m, s)
        map_frame(m, d)
    return f


def map_ctor(p):
    def f(eng):
        m = Mem(eng, p)
        s = Map(m, 's')
        freeze(m)
        for v in (call(eng, p + 'M_ctor', eng.load(s.loc.f('p')), sc(s.r), sc(s.c)), call(eng, p + 'M_copy', s.loc)):
            q = v.get('p')
            eng.oblige('a map refers to the storage it is given', And(Not(q.kids['null']), q.kids['i0'] == s.b, q.kids['i1'] == s.o, v.get('r', 'e') == s.r, v.get('c', 'e') == s.c), '', 'post')
        d0 = type('z', (), {'b': s.b, 'o': s.o, 'n': z3.IntVal(0)})
        map_frame(m, d0)
    return f


def place(m, s, kind, q):
    """(same storage as the matrix, linear index) of an element pointer"""
    l = loc_of(m.eng.resolve_ptr(q))
    if kind == 'D':
        return And(z3.BoolVal(l.root == m.nm), l.path[1][1] == s.b), l.path[-1][1]
    if kind == 'M':
        return And(z3.BoolVal(l.root == m.nm), l.path[1][1] == s.b), l.path[-1][1] - s.o
    base = s.loc.f('array')
    return z3.BoolVal(l.root == base.root and l.path[:-1] == base.path), l.path[-1][1]


def access(p, kind):
    def f(eng):
        m = Mem(eng, p)
        s = source(m, kind)
        r, c, n, r2, c2 = z3.Ints('r c n r2 c2')
        inr = And(r >= 0, r < s.r, c >= 0, c < s.c)
        pre = p + kind + '_'
        # an element's linear index is below the number of elements, different coordinates have different ones
        lin = r + s.r * c
        inr2 = And(r2 >= 0, r2 < s.r, c2 >= 0, c2 < s.c)
        if kind != 'F':
            R_, C_ = s.r, s.c
            eng.oblige('rows times a smaller number', Implies(And(R_ >= 0, c < c2), R_ * c + R_ <= R_ * c2), '', 'lemma')
            mono = lambda u, w: Implies(And(R_ >= 0, u < w), R_ * u + R_ <= R_ * w)
            for u, w in ((c, C_), (c, c2), (c2, c)):
                eng.fact(mono(u, w))
            eng.oblige('a product of non-negative numbers', Implies(And(R_ >= 0, c >= 0), R_ * c >= 0), '', 'lemma')
            eng.fact(Implies(And(R_ >= 0, c >= 0), R_ * c >= 0))
        eng.oblige('in-range coordinates have an in-range linear index', Implies(inr, And(lin >= 0, lin < s.n)), '', 'post')
        eng.oblige('different coordinates have different linear indices', Implies(And(inr, inr2, Or(r != r2, c != c2)), lin != r2 + s.r * c2), '', 'post')
        st0 = eng.st
        for w, pre_, args, idx in (('at', inr, (r, c), s.r * c + r), ('cat', inr, (r, c), s.r * c + r), ('lin', And(n >= 0, n < s.n), (n,), n), ('clin', And(n >= 0, n < s.n), (n,), n),
                                   ('idx', And(n >= 0, n < s.n), (n,), n), ('cidx', And(n >= 0, n < s.n), (n,), n)):
            eng.st = st0.fork()
            eng.assume(pre_)
            mem_, i = place(m, s, kind, call(eng, pre + w, ptr_of(s.loc), *[sc(a) for a in args]))
            eng.oblige('element %s is at its column-major place' % w, And(mem_, i == idx), '', 'post')
        eng.st = st0
        if kind == 'D':
            eng.assume(Not(s.null))
        for w, idx in (('data', 0), ('cdata', 0), ('begin', 0), ('end', s.n)) + ((('cend', s.n),) if kind != 'x' else ()):
            mem_, i = place(m, s, kind, call(eng, pre + w, ptr_of(s.loc)))
            eng.oblige('%s() is at its place' % w, And(mem_, i == idx), '', 'post')
        for w, x in (('rows', s.r), ('cols', s.c), ('size', s.n)) + ((('capacity', s.cap),) if kind == 'D' else ()):
            eng.oblige('%s() tells the %s' % (w, w), call(eng, pre + w, ptr_of(s.loc)).kids['e'] == x, '', 'post')
    return f


def fill(p, kind):
    def f(eng):
        m = Mem(eng, p)
        s = source(m, kind)
        x = eng.new('value', eng.sym(m.E, 'x'))
        if m.cls:
            eng.store(x.f('alive'), sc(z3.BoolVal(True)))
        xv = eng.load(x).get('v', 'e') if m.cls else eng.load(x).kids['e']
        freeze(m)
        call(eng, p + kind + '_fill', ptr_of(s.loc), ptr_of(x))
        k = z3.Int('k')
        if kind == 'F':
            fix_post(m, eng.load(s.loc), lambda k: xv, 'filled')
            frame(m, [], [])
            return
        d = s if kind == 'M' else type('z', (), {'b': s.b, 'o': z3.IntVal(0), 'n': s.n})
        eng.oblige('filled: elements', Implies(And(k >= 0, k < s.n), m.val(d.b, d.o + k) == xv), '', 'post')
        if kind == 'D':
            post(m, eng.load(s.loc), s.r, s.c, None, 'filled')
        if m.cls:
            eng.oblige('filled: all storage holds objects', Implies(And(k >= 0, k < s.n), m.alive(d.b, d.o + k)), '', 'post')
        map_frame(m, d)
    return f


def build(spec):
    for p in 'pq':
        w = ELT[p]
        spec.case('dynamic, %s: default constructor' % w, dyn_ctor0(p))
        spec.case('dynamic, %s: constructor' % w, dyn_ctor(p))
        spec.case('dynamic, %s: copy constructor' % w, dyn_copy(p))
        spec.case('dynamic, %s: move constructor' % w, dyn_move(p))
        spec.case('dynamic, %s: destructor' % w, dyn_dtor(p))
        spec.case('dynamic, %s: copy assignment' % w, dyn_asg(p))
        spec.case('dynamic, %s: self assignment' % w, dyn_self(p, 'asg'))
        spec.case('dynamic, %s: move assignment' % w, dyn_masg(p))
        spec.case('dynamic, %s: self move assignment' % w, dyn_self(p, 'masg'))
        spec.case('dynamic, %s: reserve' % w, dyn_reserve(p))
        spec.case('dynamic, %s: resize' % w, dyn_resize(p))
        for k, n in (('F', 'fixed-size'), ('M', 'mapped')):
            spec.case('dynamic, %s: assignment from %s' % (w, n), dyn_mix(p, k))
        spec.case('fixed-size, %s: copy constructor' % w, fix_copy(p))
        spec.case('fixed-size, %s: self assignment' % w, fix_self(p))
        spec.case('mapped, %s: constructors' % w, map_ctor(p))
        spec.case('mapped, %s: self assignment' % w, map_asg(p, 'M', True))
        for k, n in (('D', 'dynamic'), ('F', 'fixed-size'), ('M', 'mapped')):
            spec.case('fixed-size, %s: assignment from %s' % (w, n), fix_asg(p, k))
            spec.case('mapped, %s: assignment from %s' % (w, n), map_asg(p, k))
            spec.case('%s, %s: element access' % (n, w), access(p, k))
            spec.case('%s, %s: fill' % (n, w), fill(p, k))
