"""C03: packed bit containers behave like arrays of small unsigned numbers."""
from spec import *

COMPLETE = True
CASE_LIMIT = 200
ASSUMPTIONS = ['std::allocator provides fresh, disjoint blocks (engine model); the storage of one container is smaller than 2^56 blocks',
               'an index is within the capacity of the container (the callers assert it)']


def combos(P):
    """the template instances of the container found in the current source"""
    out = {}
    for f in P.fns.values():
        if f['base'].startswith('vroot::Ops::') and f.get('rec') is not None and 'body' in f:
            d = P.ty(f['rec'])
            w = int(d['args'][0]['i'])
            bt = P.strip(d['args'][1]['t'])
            c = out.setdefault((w, P.ty(bt)['w']), {'block': bt})
            c[f['base'].split('::')[-1]] = f['id']
            if f['base'].endswith('::dtor'):
                c['rec'] = P.strip(P.ty(f['params'][0]['t'])['to'])
    return {k: c for k, c in out.items() if 'rec' in c}


B_ = z3.BoolSort()
BV = z3.BitVecSort(64)


def bits(w, B, c):
    def f(eng):
        i, X = z3.BitVecs('i bit_i', 64)
        n = z3.BitVec('blocks', 64)

        def mul(x, y):
            for k, u in ((x, y), (y, x)):
                k = z3.simplify(k)
                if z3.is_bv_value(k) and k.as_long() == w and k.size() == 64:
                    d = z3.simplify(u - i)
                    if z3.is_bv_value(d):
                        return X + z3.BitVecVal(w * d.as_long(), 64)
            return None
        eng.mulabs = mul
        mem = z3.Function('mem', BV, z3.BitVecSort(B))
        eng.st.store['blocks'] = Node('arr', (c['block'], 'vector', None), {'n': n, 'el': sc(L(1, lambda k: mem(k)))})
        o = eng.new('set', eng.sym(c['rec'], 's'))
        eng.store(o.f('_data'), ptr_of(Loc('blocks').i(z3.BitVecVal(0, 64))))
        lim = z3.BitVecVal(1 << 56, 64)
        nb = n * B
        wv = z3.BitVecVal(w, 64)
        # integer facts about products with the width: element i occupies the bits w*i to w*i+w-1
        a, b = z3.Ints('a b')
        eng.oblige('elements occupy disjoint bits', Implies(And(a >= 0, a < b), w * a + w <= w * b), '', 'lemma')
        eng.assume(And(z3.ULE(n, lim), z3.ULE(X, z3.BitVecVal(1 << 62, 64)), z3.ULE(X + wv, nb)))
        v = z3.BitVec('v', B)
        t = z3.BitVec('t', 64)
        sh = B.bit_length() - 1

        def bit(m, t):
            """bit number t of the storage: block t/B, most significant bit first"""
            return z3.Extract(0, 0, z3.LShR(m(z3.LShR(t, sh)), (lambda o: z3.Extract(B - 1, 0, o))(z3.BitVecVal(B - 1, 64) - (t & z3.BitVecVal(B - 1, 64)))))

        def vbit(u, e):
            """bit e of a value"""
            n = u.size()
            return z3.Extract(0, 0, z3.LShR(u, z3.Extract(n - 1, 0, e) if n < 64 else e))
        cells = lambda: eng.st.store['blocks'].get('el', 'e')
        S0 = eng.st.fork()
        r = eng.call_fn(c['set'], [ptr_of(o), sc(i), sc(v)]).kids['e']
        vm = z3.Extract(w - 1, 0, v)
        red = lambda t: z3.ZeroExt(t.size() - w, vm) if t.size() > w else vm
        eng.oblige('writing gives back the value reduced to the width', r == red(r), '', 'post')
        m1 = cells()
        ins = And(z3.ULE(X, t), z3.ULT(t, X + wv))
        inm = z3.ULT(t, nb)
        eng.oblige('the bits of the element are those of the value', Implies(ins, bit(m1, t) == vbit(v, X + wv - 1 - t)), '', 'post')
        eng.oblige('no other bit is written', Implies(And(inm, Not(ins)), bit(m1, t) == bit(mem, t)), '', 'post')
        eng.st = S0
        g = eng.call_fn(c['get'], [ptr_of(o), sc(i)]).kids['e']
        e = z3.BitVec('e', 64)
        eng.oblige('reading gives the bits of the element', Implies(z3.ULT(e, wv), vbit(g, e) == bit(mem, X + wv - 1 - e)), '', 'post')
        if g.size() > w:
            eng.oblige('reading gives no further bits', z3.LShR(g, w) == 0, '', 'post')
        k = z3.BitVec('k', 64)
        eng.oblige('reading changes nothing', cells()(k) == mem(k), '', 'post')
        # from these: what is read after a write (any bit e of any element)
        x, y, e_ = z3.Ints('x y e')
        fb = z3.Function('bit_before', I, B_)
        fa = z3.Function('bit_after', I, B_)
        fv = z3.Function('bit_of_value', I, B_)
        tt = y + w - 1 - e_
        wr = And(Implies(And(x <= tt, tt < x + w), fa(tt) == fv(x + w - 1 - tt)), Implies(Or(tt < x, tt >= x + w), fa(tt) == fb(tt)))
        rng = And(0 <= e_, e_ < w, wr)
        eng.oblige('reading gives the value last written', Implies(And(rng, x == y), fa(tt) == fv(e_)), '', 'lemma')
        eng.oblige('every other element keeps its value', Implies(And(rng, Or(x + w <= y, y + w <= x)), fa(tt) == fb(tt)), '', 'lemma')
    return f


BIG = 1 << 50


class Mem:
    def __init__(s, eng, c, w, B):
        s.eng, s.c, s.w, s.B = eng, c, w, B
        s.h = eng.heap(c['block'])
        s.nm = s.h.root
        s.next0 = s.next()
        s.log = []
        eng.contracts['heu::multiBitSet::setValue'] = s.set_contract
        eng.contracts['heu::multiBitSet::getValue'] = s.get_contract

    def next(s):
        return s.eng.load(s.h).get('next', 'e')

    def blk(s, i):
        return s.eng.load(s.h.f('obj').i(i))

    def val(s, i, k):
        return select(s.blk(i).get('d', 'el'), k).kids['e']

    def need(s, n):
        """blocks that n elements occupy"""
        return (n * s.w + s.B - 1) / s.B

    def access(s, eng, e, what):
        l = eng.objloc(e)
        v = eng.load(l)
        i = eng.ev(e['args'][0]).kids['e']
        p = v.get('_data')
        if p.static is None:
            eng.oblige('element access has storage', z3.BoolVal(False), e.get('loc', ''), 'memory')
            raise Unsupported('element of an empty container')
        ll = loc_of(p)
        b = ll.path[1][1]
        blk = s.blk(b)
        eng.oblige('accessed element lies within live storage', And(i >= 0, Not(p.kids['null']), ll.path[3][1] == 0, blk.get('live', 'e'), (i + 1) * s.w <= blk.get('d', 'n') * s.B), e.get('loc', ''), 'memory')
        return l, b, i

    def set_contract(s, eng, e):
        l, b, i = s.access(eng, e, 'set')
        v = eng.ev(e['args'][1]).kids['e']
        s.log.append(('set', l, b, i, v, eng.st.fork()))
        cell = s.h.f('obj').i(b).f('d')
        d = eng.load(cell)
        f = eng.fresh('written', I, 1)
        eng.store(cell, Node('arr', d.static, dict(d.kids, el=sc(L(1, f)))))
        return sc(v % (1 << s.w))

    def get_contract(s, eng, e):
        l, b, i = s.access(eng, e, 'get')
        r = eng.fresh('element', I)
        eng.fact(And(r >= 0, r < (1 << s.w)))
        s.log.append(('get', l, b, i, r, eng.st.fork()))
        return sc(r)


class Set:
    def __init__(s, mem, name):
        eng = mem.eng
        s.m, s.eng, s.name = mem, eng, name
        s.b, s.null = z3.Int(name + '.block'), z3.Bool(name + '.null')
        s.loc = eng.new(name, eng.sym(mem.c['rec'], name))
        s.nb = z3.Int(name + '.blocks')
        eng.store(s.loc.f('_data'), eng.heap_ptr(mem.c['block'], s.b, z3.IntVal(0), s.null))
        eng.store(s.loc.f('_end'), eng.heap_ptr(mem.c['block'], s.b, s.nb, s.null))
        s.n = eng.load(s.loc.f('_size')).kids['e']
        blk = mem.blk(s.b)
        eng.assume(And(s.b >= 0, s.b < mem.next0, s.nb >= 0, s.nb < BIG, s.n >= 0, s.n * mem.w <= s.nb * mem.B))
        eng.assume(If(s.null, s.nb == 0, And(blk.get('live', 'e'), blk.get('d', 'n') == s.nb)))
        s.el0 = lambda k, st=eng.st: s.at(st, k)

    def at(s, st, k):
        sv = s.eng.st
        s.eng.st = st
        try:
            return s.m.val(s.b, k)
        finally:
            s.eng.st = sv


def post(m, v, n, val, what, keep=None, same=None, cap=None):
    """v is a legal container of n elements; its first keep blocks have the content val. Returns (block, null)"""
    eng = m.eng
    k = z3.Int('k')
    p, q = v.get('_data'), v.get('_end')
    eng.oblige(what + ': size', v.get('_size', 'e') == n, '', 'post')
    if p.static is None:
        eng.oblige(what + ': no storage, no elements', And(n == 0, z3.BoolVal(q.static is None) if q.static is None else q.kids['null']), '', 'post')
        return None, z3.BoolVal(True)
    l, le = loc_of(p), loc_of(q)
    nu = p.kids['null']
    b = l.path[1][1]
    blk = m.blk(b)
    nb = le.path[3][1]
    eng.oblige(what + ': begin and end delimit one live block of this heap', And(z3.BoolVal(l.root == m.nm and le.root == m.nm), nu == q.kids['null'], Or(nu, And(
        l.path[3][1] == 0, le.path[1][1] == b, blk.get('live', 'e'), blk.get('d', 'n') == nb, b >= 0, b < m.next()))), '', 'post')
    eng.oblige(what + ': the elements fit into the storage', If(nu, n == 0, n * m.w <= nb * m.B), '', 'post')
    if val is not None:
        eng.oblige(what + ': contents', Implies(And(k >= 0, k < m.need(keep if keep is not None else n)), And(Not(nu), m.val(b, k) == val(k))), '', 'post')
    if cap is not None:
        eng.oblige(what + ': capacity as requested', Or(cap <= 0, And(Not(nu), cap * m.w <= nb * m.B)), '', 'post')
    return b, nu


def frame(m, owned, touched):
    eng = m.eng
    x, k = z3.Int('x'), z3.Int('k')
    b0, b1 = select(m.obj0, x), m.blk(x)
    old = And(x >= 0, x < m.next0, *[Not(And(x == b, Not(nu))) for b, nu in touched])
    eng.oblige('other storage is not touched', Implies(old, And(b0.get('live', 'e') == b1.get('live', 'e'), b0.get('d', 'n') == b1.get('d', 'n'),
               Implies(And(k >= 0, k < b0.get('d', 'n')), select(b0.get('d', 'el'), k).kids['e'] == select(b1.get('d', 'el'), k).kids['e']))), '', 'post')
    mine = Or(*[And(x == b, Not(nu)) for b, nu in owned if b is not None])
    eng.oblige('no storage leaks', Implies(And(Or(And(x >= m.next0, x < m.next()), *[And(x == b, Not(nu)) for b, nu in touched]), b1.get('live', 'e')), mine), '', 'post')


def freeze(m):
    m.obj0 = m.eng.load(m.h).get('obj', 'el')


def own(eng, a, b, what):
    if a[0] is not None and b[0] is not None:
        eng.oblige(what, Or(a[1], b[1], a[0] != b[0]), '', 'post')


def ops(w, B, c):
    def case(g):
        def f(eng):
            m = Mem(eng, c, w, B)
            g(eng, m, lambda nm, *a: eng.call_fn(c[nm], list(a)))
        return f

    def number(eng, nm='n'):
        n = z3.Int(nm)
        eng.assume(And(n >= 0, n < BIG))
        return n

    def create(eng, m, call):
        freeze(m)
        post(m, call('ctor0'), z3.IntVal(0), None, 'default constructed')
        frame(m, [], [])
        n = number(eng)
        b = post(m, call('ctor', sc(n)), n, lambda k: z3.IntVal(0), 'constructed with zeros', cap=n)
        frame(m, [b], [])

    def copy(eng, m, call):
        s = Set(m, 's')
        freeze(m)
        b = post(m, call('copy', s.loc), s.n, s.el0, 'copy')
        own(eng, b, (s.b, s.null), 'the copy has storage of its own')
        s2 = post(m, eng.load(s.loc), s.n, s.el0, 'source')
        frame(m, [b], [])

    def move(eng, m, call):
        s = Set(m, 's')
        freeze(m)
        b = post(m, call('move', s.loc), s.n, s.el0, 'moved')
        b2 = post(m, eng.load(s.loc), z3.IntVal(0), None, 'moved-from')
        own(eng, b, b2, 'the storage belongs to one of them')
        frame(m, [b, b2], [(s.b, s.null)])

    def dtor(eng, m, call):
        s = Set(m, 's')
        freeze(m)
        call('dtor', ptr_of(s.loc))
        frame(m, [], [(s.b, s.null)])

    def assign(nm):
        def g(eng, m, call):
            d, s = Set(m, 'd'), Set(m, 's')
            eng.assume(Or(d.null, s.null, d.b != s.b))
            freeze(m)
            call(nm, ptr_of(d.loc), ptr_of(s.loc))
            b = post(m, eng.load(d.loc), s.n, s.el0, 'assigned')
            b2 = post(m, eng.load(s.loc), s.n, s.el0, 'source') if nm == 'asg' else post(m, eng.load(s.loc), eng.load(s.loc).get('_size', 'e'), None, 'moved-from')
            own(eng, b, b2, 'the copy has storage of its own')
            frame(m, [b] + ([b2] if nm != 'asg' else []), [(d.b, d.null)] + ([(s.b, s.null)] if nm != 'asg' else []))
        return g

    def selfasg(eng, m, call):
        d = Set(m, 'd')
        freeze(m)
        call('asg', ptr_of(d.loc), ptr_of(d.loc))
        post(m, eng.load(d.loc), d.n, d.el0, 'assigned to itself')
        frame(m, [(d.b, d.null)], [])

    def resize(eng, m, call):
        d = Set(m, 'd')
        freeze(m)
        n = number(eng)
        call('resize', ptr_of(d.loc), sc(n))
        b = post(m, eng.load(d.loc), n, d.el0, 'resized', keep=If(n < d.n, n, d.n))
        frame(m, [b], [(d.b, d.null)])

    def reserve(eng, m, call):
        d = Set(m, 'd')
        freeze(m)
        n = number(eng)
        call('reserve', ptr_of(d.loc), sc(n))
        b = post(m, eng.load(d.loc), d.n, d.el0, 'reserved', cap=n)
        frame(m, [b], [(d.b, d.null)])

    def shrink(eng, m, call):
        d = Set(m, 'd')
        freeze(m)
        call('shrink', ptr_of(d.loc))
        b = post(m, eng.load(d.loc), d.n, d.el0, 'shrunk')
        eng.oblige('shrinking does not enlarge the storage', call('blocks', ptr_of(d.loc)).kids['e'] <= d.nb, '', 'post')
        frame(m, [b], [(d.b, d.null)])

    def push(nm):
        def g(eng, m, call):
            d = Set(m, 'd')
            v = z3.Int('v')
            eng.assume(And(v >= 0, v < (1 << w)))
            freeze(m)
            call(nm, ptr_of(d.loc), sc(v))
            eng.oblige('appending writes once', z3.BoolVal(len(m.log) == 1 and m.log[0][0] == 'set'), '', 'post')
            if len(m.log) == 1:
                _, l, b, i, x, st = m.log[0]
                eng.oblige('the new element is written behind the last one with the given value', And(i == d.n, x == v), '', 'post')
                now = eng.st
                eng.st = st
                k = z3.Int('k')
                eng.oblige('the elements before are kept', Implies(And(k >= 0, k < m.need(d.n)), m.val(b, k) == d.el0(k)), '', 'post')
                eng.st = now
                b1 = post(m, eng.load(d.loc), d.n + 1, None, 'appended')
                eng.oblige('the element is written into the storage of the container', b1[0] == b, '', 'post')
                frame(m, [b1], [(d.b, d.null)])
        return g

    def shorten(eng, m, call):
        d = Set(m, 'd')
        freeze(m)
        eng.assume(d.n > 0)
        st = eng.st
        eng.st = st.fork()
        call('pop', ptr_of(d.loc))
        post(m, eng.load(d.loc), d.n - 1, d.el0, 'after pop_back')
        frame(m, [(d.b, d.null)], [])
        eng.st = st
        call('clear', ptr_of(d.loc))
        post(m, eng.load(d.loc), z3.IntVal(0), None, 'cleared')
        frame(m, [], [(d.b, d.null)])

    def measure(eng, m, call):
        d = Set(m, 'd')
        eng.oblige('size() is the number of elements', call('size', ptr_of(d.loc)).kids['e'] == d.n, '', 'post')
        eng.oblige('capacity() is the number of elements that fit', call('capacity', ptr_of(d.loc)).kids['e'] == (d.nb * B) / w, '', 'post')
        eng.oblige('size does not exceed capacity', d.n <= (d.nb * B) / w, '', 'post')
        eng.oblige('blocks() is the number of blocks', call('blocks', ptr_of(d.loc)).kids['e'] == d.nb, '', 'post')

    def element(eng, m, call):
        d = Set(m, 'd')
        i, j, v = z3.Ints('i j v')
        eng.assume(And(i >= 0, i < d.n, j >= 0, j < d.n, v >= 0, v < (1 << w)))
        eng.assume(Not(d.null))
        st = eng.st
        D = ptr_of(d.loc)

        def chk(what, log):
            eng.oblige('%s: exactly the accesses expected' % what, z3.BoolVal(len(log) == len(m.log) and all(a[0] == b[0] for a, b in zip(log, m.log))), '', 'post')
            for a, b in zip(log, m.log):
                eng.oblige('%s: the right element of the container' % what, And(z3.BoolVal(b[1] == d.loc or (b[1].root == d.loc.root and not b[1].path)), b[3] == a[1], *([b[4] == a[2]] if len(a) > 2 else [])), '', 'post')
        for nm, args, idx in (('cat', (i,), i), ('cidx', (i,), i), ('cfront', (), z3.IntVal(0)), ('cback', (), d.n - 1), ('at', (i,), i), ('idx', (i,), i), ('front', (), z3.IntVal(0)), ('back', (), d.n - 1),
                              ('it', (i,), i), ('cit', (i,), i), ('rit', (i + 1,), d.n - 1 - i), ('itinc', (), z3.IntVal(1))):
            eng.st = st.fork()
            if nm == 'itinc':
                eng.assume(d.n > 1)
            m.log = []
            r = call(nm, D, *[sc(a) for a in args])
            chk(nm, [('get', idx)])
            if len(m.log) == 1:
                eng.oblige('%s: gives the element' % nm, r.kids['e'] == m.log[0][4], '', 'post')
        for nm, args, idx in (('wat', (i,), i), ('widx', (i,), i), ('wfront', (), z3.IntVal(0)), ('wback', (), d.n - 1), ('wit', (i,), i)):
            eng.st = st.fork()
            m.log = []
            call(nm, D, *[sc(a) for a in args], sc(v))
            chk(nm, [('set', idx, v)])
        eng.st = st.fork()
        m.log = []
        call('wref', D, sc(i), sc(j))
        chk('assignment of a reference', [('get', j), ('set', i)])
        if len(m.log) == 2:
            eng.oblige('assignment of a reference: copies the value', m.log[1][4] == m.log[0][4], '', 'post')
        eng.st = st
        eng.oblige('begin and end are size() apart', And(call('itend', D, sc(i)).kids['e'] == (i == d.n), call('itend', D, sc(d.n)).kids['e'], call('itne', D, sc(i)).kids['e'] == (i != d.n)), '', 'post')
    L_ = [('construction', create), ('copy construction', copy), ('move construction', move), ('destructor', dtor), ('assignment', assign('asg')), ('move assignment', assign('masg')), ('self assignment', selfasg),
          ('resize', resize), ('reserve', reserve), ('shrink_to_fit', shrink), ('push_back', push('push')), ('emplace_back', push('emplace')), ('pop_back, clear', shorten), ('size, capacity', measure), ('element access', element)]
    return [(n, case(g)) for n, g in L_]


QUICK = {8: (1, 3, 7, 8), 16: (1, 5, 11, 16), 32: (6, 11, 31, 32), 64: (1, 7, 13, 33, 37, 63, 64)}


def build(spec):
    for (w, B), c in sorted(combos(spec.P).items()):
        spec.case('%d-bit elements in %d-bit blocks: setValue, getValue' % (w, B), bits(w, B, c), intmode='bv')
    for (w, B), c in sorted(combos(spec.P).items()):
        if w in QUICK[B] or getattr(spec, 'tier', 'quick') == 'thorough':
            for n, f in ops(w, B, c):
                spec.case('%d-bit elements in %d-bit blocks: %s' % (w, B, n), f)
