"""Model (trusted contract) of std::list, its iterators, permuting algorithms and hash containers keyed by element addresses.

A list is a sequence of slots in order of insertion; elements are only ever appended, so the order of the slots is the
order of the list. 'dead' marks the erased slots, 'len' counts the living ones. An iterator is a pointer to a slot,
end() is the pointer with the null flag set. A list with erased slots is traversed through the strictly increasing
enumeration of its living slots, which exists because the list is finite."""
import z3
from ast_ import Unsupported
from val import *
from lib import LIB, reg, recv, ival, fit, samesize

I = z3.IntSort()
B = z3.BoolSort()
FALSE = z3.BoolVal(False)
TRUE = z3.BoolVal(True)
ITER = ('std::_List_iterator', 'std::_List_const_iterator')


def is_list(v):
    return v.kind == 'st' and isinstance(v.static, tuple) and v.static[0] == 'list'


def mk(et, n, elnode, dead, ln):
    return Node('st', ('list', et), {'slot': Node('arr', (et, 'vector', None), {'n': n, 'el': elnode}),
                                     'dead': Node('arr', (None, 'vector', None), {'n': n if isinstance(n, L) and False else (L(arity(n), lambda *i: z3.IntVal(0)) if isinstance(n, L) else z3.IntVal(0)), 'el': sc(dead)}),
                                     'len': sc(ln)})


def sym_list(eng, t, name, n):
    et = eng.targ(t, 0)['t']
    nn = eng.fresh(name + '.n', I, n)
    iv = [z3.Const('ri!%d' % j, I) for j in range(n)]
    f = And(app(nn, *iv) >= 0, app(nn, *iv) < (1 << 62))
    eng.fact(z3.ForAll(iv, f) if iv else f)
    return mk(et, nn, eng.sym(et, name + '[]', n + 1), L(n + 1, lambda *i: FALSE), nn)


def def_list(eng, t):
    et = eng.targ(t, 0)['t']
    return mk(et, z3.IntVal(0), eng.sym(et, 'undef', 1), L(1, lambda *i: FALSE), z3.IntVal(0))


LIB[('symrec', 'std::list')] = sym_list
LIB[('defrec', 'std::list')] = def_list
for _n in ITER:
    LIB[('symrec', _n)] = lambda eng, t, name, n: ANY
    LIB[('defrec', _n)] = lambda eng, t: ANY
    LIB[('ctor', _n)] = lambda eng, e, t: eng.ev(e['args'][0]) if e['args'] else ANY


def N_(v):
    return v.get('slot', 'n')


def D_(v):
    return v.get('dead', 'el', 'e')


def LEN(v):
    return v.get('len', 'e')


def dense(v):
    d = D_(v)
    return is_false(z3.simplify(d(z3.Int('probe!d'))))


def alive(v, s):
    return And(s >= 0, s < N_(v), Not(D_(v)(s)))


class Enum:
    """strictly increasing enumeration of the living slots of one list state"""
    def __init__(s, eng, v):
        nth = eng.fresh('nth', I, 1)
        rank = eng.fresh('rank', I, 1)
        s.v, s.nth, s.rank = v, nth, rank
        s.name = nth(z3.Int('probe!d')).decl().name()
        n, d, ln = N_(v), D_(v), LEN(v)
        j, k = z3.Int('en!j'), z3.Int('en!k')
        s.facts = [And(ln >= 0, ln <= n),
                   z3.ForAll([j], Implies(And(j >= 0, j < ln), And(nth(j) >= 0, nth(j) < n, Not(d(nth(j))), rank(nth(j)) == j)), patterns=[nth(j)]),
                   z3.ForAll([k], Implies(And(k >= 0, k < n, Not(d(k))), And(rank(k) >= 0, rank(k) < ln, nth(rank(k)) == k)), patterns=[rank(k)]),
                   z3.ForAll([j, k], Implies(And(j >= 0, j < k, k < ln), nth(j) < nth(k)), patterns=[z3.MultiPattern(nth(j), nth(k))])]
        s.pcs, s.guarded = [], {}
        eng.ground[s.name] = lambda j: Implies(And(Or(*s.pcs), j >= 0, j < ln), And(And(nth(j) >= 0, nth(j) < n, Not(d(nth(j))), rank(nth(j)) == j)))
        eng.ground[rank(z3.Int('probe!d')).decl().name()] = lambda k: Implies(And(Or(*s.pcs), k >= 0, k < n, Not(d(k))), And(rank(k) >= 0, rank(k) < ln, nth(rank(k)) == k))
        eng.inverses[s.name] = (lambda pre, k, X: And(k >= 0, k < n, Not(d(k)), *below(rank(k), X)), lambda pre, k: rank(k))

    def use(s, eng):
        pc = z3.simplify(And(*eng.st.pc)) if eng.st.pc else TRUE
        if not any(pc.eq(p) for p in s.pcs):
            s.pcs.append(pc)
        last = {f.get_id() for f in eng.facts[-4000:]}
        for f in s.facts:
            g = s.guarded.setdefault((f.get_id(), pc.get_id()), Implies(pc, f))
            if g.get_id() not in last:
                eng.facts.append(g)
        return s


def enum(eng, v):
    key = (id(D_(v)), N_(v).get_id(), LEN(v).get_id())
    c = eng.__dict__.setdefault('enums', {})
    r = c.get(key)
    if r is None or r.v.get('dead', 'el', 'e') is not D_(v):
        r = Enum(eng, v)
        c[key] = r
    return r.use(eng)


def it_of(l, i, null):
    return ptr_of(l.f('slot').i(z3.simplify(i)), z3.simplify(null))


def begin(eng, l):
    v = eng.load(l)
    z = z3.IntVal(0)
    if dense(v):
        return it_of(l, z, z >= N_(v))
    E = enum(eng, v)
    return it_of(l, E.nth(z), z >= LEN(v))


def end(eng, l):
    v = eng.load(l)
    return it_of(l, N_(v), TRUE)


def listloc(p):
    """(list location, slot) of an element pointer"""
    l = loc_of(p)
    if len(l.path) < 2 or l.path[-1][0] != 'i' or l.path[-2] != ('f', 'slot'):
        raise Unsupported('not a list iterator')
    return Loc(l.root, l.path[:-2]), l.path[-1][1]


def advance(eng, p, by=1):
    l, s = listloc(p)
    v = eng.load(l)
    if dense(v):
        if by == 1:
            return it_of(l, s + 1, s + 1 >= N_(v))
        return it_of(l, If(p.kids['null'], N_(v), s) - 1, FALSE)
    if by == 1:
        for E in [enum(eng, v)] if z3.is_app(s) and s.decl().name() in eng.inverses else []:
            if s.decl().name() == E.name:
                k = s.arg(s.num_args() - 1)
                return it_of(l, E.nth(z3.simplify(k + 1)), k + 1 >= LEN(v))
        if eng.provable(Or(s + 1 >= N_(v), Not(D_(v)(z3.simplify(s + 1)))), 400):
            return it_of(l, s + 1, s + 1 >= N_(v))
        E = enum(eng, v)
        return it_of(l, E.nth(E.rank(s) + 1), E.rank(s) + 1 >= LEN(v))
    E = enum(eng, v)
    return it_of(l, E.nth(If(p.kids['null'], LEN(v), E.rank(s)) - 1), FALSE)


@reg('std::advance')
def h_advance(eng, e):
    l = eng.lv(e['args'][0])
    p = eng.load(l)
    n = ival(eng, e['args'][1])
    if p.kind != 'ptr':
        raise Unsupported('std::advance on an iterator of unknown origin')
    if not (p.static is not None and p.static[1][-2:] == (('f', 'slot'), ('i',))):
        eng.store(l, ptr_of(eng.ptr_add_loc(p, n), p.kids['null']))
        return None
    ll, s = listloc(p)
    v = eng.load(ll)
    if dense(v):
        pos = If(p.kids['null'], N_(v), s)
        end_, at = N_(v), lambda k: k
    else:
        E = enum(eng, v)
        known = z3.is_app(s) and s.decl().name() == E.name
        pos = If(p.kids['null'], LEN(v), s.arg(s.num_args() - 1) if known else E.rank(s))
        end_, at = LEN(v), lambda k: E.nth(k)
    q = eng.resolve(z3.simplify(pos + n))
    eng.oblige('std::advance stays inside the list', And(q >= 0, q <= end_), e.get('loc', ''), 'memory')
    eng.store(l, it_of(ll, at(q), q >= end_))
    return None


def _nextprev(sign):
    def h(eng, e):
        p = eng.ev(e['args'][0])
        n = ival(eng, e['args'][1]) if len(e['args']) > 1 and e['args'][1].get('k') != 'default' else z3.IntVal(1)
        if p.kind != 'ptr' or num(z3.simplify(n)) != 1 or p.static is None or p.static[1][-2:] != (('f', 'slot'), ('i',)):
            raise Unsupported('std::next/std::prev')
        if sign > 0:
            deref_it(eng, p, e)
        return advance(eng, eng.resolve_ptr(p), sign)
    return h


LIB['std::next'] = _nextprev(1)
LIB['std::prev'] = _nextprev(-1)


def back_slot(eng, v):
    if dense(v):
        return z3.simplify(N_(v) - 1)
    s = z3.simplify(N_(v) - 1)
    if is_false(z3.simplify(D_(v)(s))) or eng.provable(And(s >= 0, Not(D_(v)(s))), 400):
        return s
    return enum(eng, v).nth(LEN(v) - 1)


def front_slot(eng, v):
    if dense(v):
        return z3.IntVal(0)
    c = z3.simplify(N_(v) - LEN(v))                 # only elements at the front have been erased so far?
    j = z3.Int('fs!j')
    if eng.provable(And(c >= 0, c < N_(v), Not(D_(v)(c)), z3.ForAll([j], Implies(And(j >= 0, j < c), D_(v)(j)))), 1000, qf=False):
        return c
    return enum(eng, v).nth(z3.IntVal(0))


@reg('std::list::size')
def h_lsize(eng, e):
    l, _ = recv(eng, e)
    return sc(LEN(eng.load(l)))


@reg('std::list::empty')
def h_lempty(eng, e):
    l, _ = recv(eng, e)
    return sc(Eq(LEN(eng.load(l)), z3.IntVal(0)))


@reg('std::list::begin', 'std::list::cbegin')
def h_lbegin(eng, e):
    l, _ = recv(eng, e)
    return begin(eng, l)


@reg('std::list::end', 'std::list::cend')
def h_lend(eng, e):
    l, _ = recv(eng, e)
    return end(eng, l)


def deref_it(eng, p, e):
    if p.kind != 'ptr':
        raise Unsupported('dereference of an iterator of unknown origin')
    eng.oblige('iterator is not the end iterator', Not(p.kids['null']), e.get('loc', ''), 'memory')
    l = loc_of(eng.resolve_ptr(p))
    eng.deref(l, e.get('loc', ''))
    return l


def oparg(eng, e):
    return e['obj'] if e.get('obj') is not None else e['args'][0]


def h_star(eng, e):
    return deref_it(eng, eng.ev(oparg(eng, e)), e)


def h_arrow(eng, e):
    return ptr_of(deref_it(eng, eng.ev(oparg(eng, e)), e))


def h_step(by):
    def h(eng, e):
        l = eng.lv(oparg(eng, e))
        p = eng.load(l)
        if p.kind != 'ptr':
            raise Unsupported('increment of an iterator of unknown origin')
        post = len(e['args']) == (1 if e.get('obj') is not None else 2)
        if len(e['args']) == (1 if e.get('obj') is not None else 2):
            post = True
        if by == 1:
            deref_it(eng, p, e)
        eng.store(l, advance(eng, eng.resolve_ptr(p), by))
        return p if post else l
    return h


def h_cmp(op):
    def h(eng, e):
        a, b = eng.ev(e['obj']) if e.get('obj') is not None else eng.ev(e['args'][0]), eng.ev(e['args'][-1])
        return eng.ptrop(op, a, b)
    return h


for _n in ITER:
    LIB[_n + '::operator*'] = h_star
    LIB[_n + '::operator->'] = h_arrow
    LIB[_n + '::operator++'] = h_step(1)
    LIB[_n + '::operator--'] = h_step(-1)
    LIB[_n + '::operator=='] = h_cmp('==')
    LIB[_n + '::operator!='] = h_cmp('!=')

    def _asg(eng, e):
        args = ([e['obj']] if e.get('obj') is not None else []) + e['args']
        v = eng.ev(args[1])
        l = eng.lv(args[0])
        eng.store(l, v)
        return l
    LIB[_n + '::operator='] = _asg


def append(eng, l, x):
    v = eng.load(l)
    n = N_(v)
    if not is_false(z3.simplify(D_(v)(n))):
        eng.pcfact(Not(D_(v)(n)))          # only slots that exist are ever erased
    x = fit(eng, x, v.get('slot', 'el'), v.static[1])
    eng.store(l.f('slot').i(n), x)
    eng.store_leaf(l.f('slot'), 'n', z3.simplify(n + 1))
    eng.store(l.f('len'), sc(z3.simplify(LEN(v) + 1)))
    return l.f('slot').i(n)


@reg('std::list::push_back', 'std::list::emplace_back')
def h_lpush(eng, e):
    l, a = recv(eng, e)
    et = eng.load(l).static[1]
    if len(a) == 0:
        x = eng.construct_default(et)
    elif len(a) == 1:
        x = eng.ev(a[0])
    else:
        f = [g for g, _, _ in eng.P.fields(et)] if 'id' in eng.P.ty(et) else ['first', 'second']
        x = Node('st', et, {g: eng.ev(y) for g, y in zip(f, a)})
    return append(eng, l, x)


def erase(eng, l, s, e):
    v = eng.load(l)
    eng.oblige('erased list element is alive', alive(v, s), e.get('loc', ''), 'memory')
    eng.store(l.f('dead').i(s), sc(TRUE))
    eng.store(l.f('len'), sc(z3.simplify(LEN(v) - 1)))


@reg('std::list::erase')
def h_lerase(eng, e):
    void = eng.voidcall is e
    l, a = recv(eng, e)
    if len(a) != 1:
        raise Unsupported('range erase')
    p = eng.ev(a[0])
    if p.kind != 'ptr':
        raise Unsupported('erase at an iterator of unknown origin')
    eng.oblige('iterator is not the end iterator', Not(p.kids['null']), e.get('loc', ''), 'memory')
    p = eng.resolve_ptr(p)
    l2, s = listloc(p)
    if (l2.root, [x for x in l2.path if x[0] == 'f']) != (l.root, [x for x in l.path if x[0] == 'f']):
        raise Unsupported('erase of an iterator of another list')
    nxt = None if void else advance(eng, p)
    erase(eng, l, s, e)
    return nxt


@reg('std::list::pop_back')
def h_lpopb(eng, e):
    l, _ = recv(eng, e)
    v = eng.load(l)
    eng.oblige('pop_back of a non-empty list', LEN(v) >= 1, e.get('loc', ''), 'memory')
    erase(eng, l, back_slot(eng, v), e)
    return None


@reg('std::list::pop_front')
def h_lpopf(eng, e):
    l, _ = recv(eng, e)
    v = eng.load(l)
    eng.oblige('pop_front of a non-empty list', LEN(v) >= 1, e.get('loc', ''), 'memory')
    erase(eng, l, front_slot(eng, v), e)
    return None


@reg('std::list::back')
def h_lback(eng, e):
    l, _ = recv(eng, e)
    v = eng.load(l)
    eng.oblige('back() of a non-empty list', LEN(v) >= 1, e.get('loc', ''), 'memory')
    return l.f('slot').i(back_slot(eng, v))


@reg('std::list::front')
def h_lfront(eng, e):
    l, _ = recv(eng, e)
    v = eng.load(l)
    eng.oblige('front() of a non-empty list', LEN(v) >= 1, e.get('loc', ''), 'memory')
    return l.f('slot').i(front_slot(eng, v))


def pointers_into(eng, l):
    """is there a live pointer to an element of the list"""
    def go(n):
        if n.kind == 'ptr' and n.static is not None and n.static[0] == l.root:
            sp = [x[1] for x in n.static[1] if x[0] == 'f']
            lp = [x[1] for x in l.path if x[0] == 'f']
            if sp[:len(lp) + 1] == lp + ['slot']:
                return True
        return any(isinstance(k, Node) and go(k) for k in n.kids.values())
    return any(go(v) for v in eng.st.store.values())


def renew(eng, l, ln, elf):
    """the list gets entirely new slots"""
    if pointers_into(eng, l):
        raise Unsupported('list is rebuilt while pointers into it exist')


@reg('std::list::clear')
def h_lclear(eng, e):
    l, _ = recv(eng, e)
    renew(eng, l, None, None)
    v = eng.load(l)
    eng.store(l, mk(v.static[1], z3.IntVal(0), v.get('slot', 'el'), L(1, lambda *i: FALSE), z3.IntVal(0)))
    return None


@reg('std::list::resize')
def h_lresize(eng, e):
    l, a = recv(eng, e)
    n = ival(eng, a[0])
    renew(eng, l, None, None)
    v = eng.load(l)
    if not dense(v):
        raise Unsupported('resize of a list after erasures')
    old = N_(v)
    d = eng.construct_default(v.static[1]) if len(a) < 2 else eng.ev(a[1])

    def f(x, y):
        if isinstance(x, Node):
            return Node(x.kind, x.static, {k: f(x.kids[k], y.kids[k]) for k in x.kids}) if x.kind == y.kind else x
        return L(x.ar, lambda *i: If(And(i[0] >= old, i[0] < n), y(*i[1:]) if isinstance(y, L) else y, x(*i)))
    eng.oblige('list size is representable', And(n >= 0, n < (1 << 62)), e.get('loc', ''), 'bounds')
    eng.store(l, mk(v.static[1], n, f(v.get('slot', 'el'), d), L(1, lambda *i: FALSE), n))
    return None


@reg('std::list::operator=')
def h_lassign(eng, e):
    args = ([e['obj']] if e.get('obj') is not None else []) + e['args']
    v = eng.ev(args[1])
    l = eng.lv(args[0])
    renew(eng, l, None, None)
    eng.store(l, v)
    return l


def rangefor(eng, s, rl):
    fr = eng.frames[-1]
    itl = eng.new('rng', begin(eng, rl))
    isref = eng.P.ty(s['var']['t'])['k'] == 'ref'

    def cond():
        return Not(eng.load(itl).kids['null'])

    def body():
        p = eng.resolve_ptr(eng.load(itl))
        l = loc_of(p)
        eng.deref(l, s.get('loc', ''))
        if isref:
            fr.env[s['var']['id']] = l
        else:
            fr.env[s['var']['id']] = eng.new(s['var']['name'], eng.load(l))
        return eng.exec(s['b'])

    def inc():
        p = eng.load(itl)
        eng.store(itl, advance(eng, eng.resolve_ptr(p)))
    return eng.loop(cond, body, inc, s)


LIB['rangefor_list'] = rangefor


# ---------------------------------------------------------------- permuting algorithms
def seq_range(eng, a, b):
    """(array location, first, last) of a pair of vector iterators"""
    if a.kind != 'ptr' or b.kind != 'ptr' or a.static != b.static:
        raise Unsupported('iterator range')
    la, lb = loc_of(a), loc_of(b)
    return Loc(la.root, la.path[:-1]), la.path[-1][1], lb.path[-1][1]


def permute(eng, l, lo, hi):
    """the elements of l in [lo,hi) are rearranged by an arbitrary permutation"""
    v = eng.load(l)
    pi, inv = eng.fresh('perm', I, 1), eng.fresh('perminv', I, 1)
    j = z3.Int('pm!j')
    ins = And(j >= lo, j < hi)
    eng.fact(z3.ForAll([j], Implies(ins, And(pi(j) >= lo, pi(j) < hi, inv(pi(j)) == j)), patterns=[pi(j)]))
    eng.fact(z3.ForAll([j], Implies(ins, And(inv(j) >= lo, inv(j) < hi, pi(inv(j)) == j)), patterns=[inv(j)]))
    def inst(x):
        return Implies(And(x >= lo, x < hi), And(pi(x) >= lo, pi(x) < hi, inv(pi(x)) == x))

    def insti(x):
        return Implies(And(x >= lo, x < hi), And(inv(x) >= lo, inv(x) < hi, pi(inv(x)) == x))
    eng.ground[pi(j).decl().name()] = inst
    eng.ground[inv(j).decl().name()] = insti
    eng.inverses[pi(j).decl().name()] = (lambda pre, k, X: And(k >= lo, k < hi, *below(inv(k), X)), lambda pre, k: inv(k))
    eng.perms.append((pi, inv, lo, hi))
    whole = is_true(z3.simplify(lo == 0)) and is_true(z3.simplify(hi == v.kids['n']))

    def g(leaf):
        return L(leaf.ar, lambda *i: If(z3.BoolVal(True) if False else And(i[0] >= lo, i[0] < hi), leaf(*((pi(i[0]),) + i[1:])), leaf(*i)))
    eng.store(l, Node('arr', v.static, dict(v.kids, el=v.kids['el'].map(g))))
    return pi, inv


@reg('std::shuffle', 'std::random_shuffle')
def h_shuffle(eng, e):
    l, lo, hi = seq_range(eng, eng.ev(e['args'][0]), eng.ev(e['args'][1]))
    permute(eng, l, lo, hi)
    return None


def comparator(eng, l, f, ij):
    return eng.apply_fn(f, [l.i(k) for k in ij]).kids['e']


@reg('std::sort', 'std::stable_sort')
def h_sort(eng, e):
    l, lo, hi = seq_range(eng, eng.ev(e['args'][0]), eng.ev(e['args'][1]))
    if len(e['args']) != 3:
        raise Unsupported('sort without comparator')
    f = eng.ev(e['args'][2])
    i, j, k = [eng.fresh('so', I) for _ in range(3)]
    ins = lambda x: And(x >= lo, x < hi)
    s0 = eng.st
    eng.st = s0.fork(ins(i), ins(j), ins(k))
    c = lambda a, b: comparator(eng, l, f, (a, b))
    # the comparator must be a strict weak order of the elements sorted
    cij, cji, cjk, cik, cki, ckj, cii = c(i, j), c(j, i), c(j, k), c(i, k), c(k, i), c(k, j), c(i, i)
    loc = e.get('loc', '')
    eng.oblige('comparator is irreflexive', Not(cii), loc, 'pre')
    eng.oblige('comparator is asymmetric', Not(And(cij, cji)), loc, 'pre')
    eng.oblige('comparator is transitive', Implies(And(cij, cjk), cik), loc, 'pre')
    eng.oblige('incomparability is transitive', Implies(And(Not(cij), Not(cji), Not(cjk), Not(ckj)), And(Not(cik), Not(cki))), loc, 'pre')
    eng.st = s0
    permute(eng, l, lo, hi)
    s0 = eng.st
    eng.st = s0.fork(ins(i), ins(j))
    eng.quiet += 1
    cji = comparator(eng, l, f, (j, i))
    eng.quiet -= 1
    eng.st = s0
    qi, qj = z3.Int('sq!i'), z3.Int('sq!j')
    body = z3.substitute(Implies(And(i >= lo, i < j, j < hi), Not(cji)), (i, qi), (j, qj))
    v = eng.load(l)
    eng.pcfact(z3.ForAll([qi, qj], body))
    pc = And(*eng.st.pc)
    eng.__dict__.setdefault('sorted_', []).append(lambda a, b: Implies(pc, z3.substitute(body, (qi, a), (qj, b))))   # instances of this fact
    return None


# ---------------------------------------------------------------- hash containers keyed by element addresses
def hset(has=None, size=None, proto=ANY, val=None, n=0):
    c = lambda x: L(n, lambda *i: x) if n else x
    kids = {'has': Node('arr', (None, 'vector', None), {'n': c(z3.IntVal(0)), 'el': sc(has if has is not None else L(n + 1, lambda *i: FALSE))}),
            'size': sc(size if size is not None else c(z3.IntVal(0))), 'proto': proto}
    if val is not None:
        kids['val'] = val
    return Node('st', ('hset',), kids)


def is_hset(v):
    return v.kind == 'st' and v.static == ('hset',)


def sym_hset(eng, t, name, n):
    size = eng.fresh(name + '.size', I, n)
    has = eng.fresh(name + '.has', B, n + 1)
    val = None
    if eng.P.ty(t)['name'] == 'std::unordered_map':
        val = Node('arr', (eng.targ(t, 1)['t'], 'vector', None), {'n': L(n, lambda *i: z3.IntVal(0)) if n else z3.IntVal(0), 'el': eng.sym(eng.targ(t, 1)['t'], name + '.val', n + 1)})
    return hset(has, size, ANY, val, n)


def def_hset(eng, t):
    val = None
    if eng.P.ty(t)['name'] == 'std::unordered_map':
        val = Node('arr', (eng.targ(t, 1)['t'], 'vector', None), {'n': z3.IntVal(0), 'el': eng.sym(eng.targ(t, 1)['t'], 'undef', 1)})
    return hset(val=val)


for _n in ('std::unordered_set', 'std::unordered_map'):
    LIB[('symrec', _n)] = sym_hset
    LIB[('defrec', _n)] = def_hset


@reg('std::unordered_set::clear', 'std::unordered_map::clear')
def h_hclear(eng, e):
    l, _ = recv(eng, e)
    v = eng.load(l)
    eng.store(l, Node('st', v.static, dict(v.kids, has=hset().kids['has'], size=sc(z3.IntVal(0)))))
    return None


@reg('std::unordered_set::reserve', 'std::unordered_map::reserve', 'std::unordered_set::max_load_factor')
def h_hreserve(eng, e):
    recv(eng, e)
    for a in e['args']:
        eng.ev(a)
    return None


@reg('std::unordered_set::size', 'std::unordered_map::size')
def h_hsize(eng, e):
    l, _ = recv(eng, e)
    return sc(eng.load(l).get('size', 'e'))


@reg('std::unordered_set::empty', 'std::unordered_map::empty')
def h_hempty(eng, e):
    l, _ = recv(eng, e)
    return sc(Eq(eng.load(l).get('size', 'e'), z3.IntVal(0)))


def hkey(eng, l, p):
    """integer key of an element address; remembers the container the addresses belong to"""
    p = eng.resolve_ptr(p)
    if p.kind != 'ptr' or p.static is None:
        raise Unsupported('hash key of kind ' + p.kind)
    ks = [k for k in p.kids if k != 'null']
    if len(ks) != 1:
        raise Unsupported('hash key with %d indices' % len(ks))
    pr = eng.load(l).kids['proto']
    if pr.kind == 'any':
        v = eng.load(l)
        proto = Node('ptr', p.static, {ks[0]: z3.IntVal(0), 'null': FALSE})
        eng.store(l, Node('st', v.static, dict(v.kids, proto=proto)))
    elif pr.static != p.static:
        raise Unsupported('hash keys into different objects')
    return p.kids[ks[0]]


def hinsert(eng, l, k):
    v = eng.load(l)
    was = v.get('has', 'el', 'e')(k)
    was = z3.simplify(was)
    if not is_true(was) and not is_false(was) and not eng.discover and eng.provable(Not(was), 300, qf=False):
        was = FALSE
    eng.store(l.f('has').i(k), sc(TRUE))
    eng.store(l.f('size'), sc(z3.simplify(v.get('size', 'e') + If(was, z3.IntVal(0), z3.IntVal(1)))))
    return was


@reg('std::unordered_set::emplace', 'std::unordered_set::insert')
def h_hins(eng, e):
    l, a = recv(eng, e)
    k = hkey(eng, l, eng.ev(a[0]))
    hinsert(eng, l, k)
    return ANY


@reg('std::unordered_map::emplace')
def h_mins(eng, e):
    l, a = recv(eng, e)
    k = hkey(eng, l, eng.ev(a[0]))
    x = eng.ev(a[1])
    was = hinsert(eng, l, k)
    old = eng.load(l.f('val').i(k))
    eng.store(l.f('val').i(k), merge(was, old, x))
    return ANY


@reg('std::unordered_map::operator[]', 'std::unordered_map::at')
def h_midx(eng, e):
    l, a = recv(eng, e)
    k = hkey(eng, l, eng.ev(a[0]))
    v = eng.load(l)
    was = z3.simplify(v.get('has', 'el', 'e')(k))
    if e['callee']['base'].endswith('::at'):
        eng.oblige('key is in the map', was, e.get('loc', ''), 'memory')
    elif not is_true(was) and not (not eng.discover and eng.provable(was, 300, qf=False)):
        hinsert(eng, l, k)
        z = eng.zero(v.kids['val'].static[0])
        eng.store(l.f('val').i(k), merge(was, eng.load(l.f('val').i(k)), z))
    return l.f('val').i(k)


@reg('std::unordered_map::erase', 'std::unordered_set::erase')
def h_herase(eng, e):
    l, a = recv(eng, e)
    k = hkey(eng, l, eng.ev(a[0]))
    v = eng.load(l)
    was = z3.simplify(v.get('has', 'el', 'e')(k))
    if not is_true(was) and not is_false(was) and not eng.discover and eng.provable(was, 300, qf=False):
        was = TRUE
    eng.store(l.f('has').i(k), sc(FALSE))
    eng.store(l.f('size'), sc(z3.simplify(v.get('size', 'e') - If(was, z3.IntVal(1), z3.IntVal(0)))))
    return sc(If(was, z3.IntVal(1), z3.IntVal(0)))


class HEnum:
    """enumeration, in an unknown order, of the keys of one hash container state"""
    def __init__(s, eng, v):
        nth = eng.fresh('hnth', I, 1)
        rank = eng.fresh('hrank', I, 1)
        s.v, s.nth, s.rank = v, nth, rank
        s.name = nth(z3.Int('probe!d')).decl().name()
        s.pcs, s.guarded = [], {}
        has, n = v.get('has', 'el', 'e'), v.get('size', 'e')
        j, k = z3.Int('en!j'), z3.Int('en!k')
        s.facts = [n >= 0,
                   z3.ForAll([j], Implies(And(j >= 0, j < n), And(has(nth(j)), rank(nth(j)) == j)), patterns=[nth(j)]),
                   z3.ForAll([k], Implies(has(k), And(rank(k) >= 0, rank(k) < n, nth(rank(k)) == k)), patterns=[rank(k)])]
        eng.inverses[s.name] = (lambda pre, k, X: And(has(k), *below(rank(k), X)), lambda pre, k: rank(k))

    use = Enum.use


def rangefor_hash(eng, s, rl):
    v = eng.load(rl)
    E = HEnum(eng, v).use(eng)
    fr = eng.frames[-1]
    ctr = eng.new('rng', sc(z3.IntVal(0)))
    mapping = 'val' in v.kids
    isref = eng.P.ty(s['var']['t'])['k'] == 'ref'
    size = v.get('size', 'e')

    def cond():
        return eng.load(ctr).kids['e'] < size

    def body():
        k = E.nth(eng.load(ctr).kids['e'])
        pr = eng.load(rl).kids['proto']
        if pr.kind != 'ptr':
            raise Unsupported('iteration over a hash container of unknown keys')
        p = Node('ptr', pr.static, {q: (k if q != 'null' else FALSE) for q in pr.kids})
        if mapping:
            fr.env[s['var']['id']] = MapPair(p, rl.f('val').i(k))
        else:
            fr.env[s['var']['id']] = eng.new(s['var']['name'], p)
        return eng.exec(s['b'])

    def inc():
        eng.store(ctr, sc(eng.load(ctr).kids['e'] + 1))
    return eng.loop(cond, body, inc, s)


class MapPair(Loc):
    """the element of a map: first is the key, second a location"""
    __slots__ = ('key', 'val')

    def __init__(s, key, val):
        Loc.__init__(s, val.root, val.path)
        s.key, s.val = key, val

    def f(s, name):
        if name == 'second':
            return s.val
        return KeyLoc(s.key)


class KeyLoc(View):
    __slots__ = ('p',)

    def __init__(s, p):
        s.p = p


LIB['rangefor_hash'] = rangefor_hash


def _opcmp(op):
    def h(eng, e):
        a, b = eng.ev(e['args'][0]), eng.ev(e['args'][1])
        if a.kind == 'ptr' and b.kind == 'ptr':
            return eng.ptrop(op, a, b)
        raise Unsupported('std::operator%s on %s' % (op, a.kind))
    return h


LIB['std::operator=='] = _opcmp('==')
LIB['std::operator!='] = _opcmp('!=')


@reg('std::unordered_set::find', 'std::unordered_set::count', 'std::unordered_set::contains')
def h_hfind(eng, e):
    """position of a key in a set: a pointer to its membership flag, null if it is not a member"""
    l, a = recv(eng, e)
    p = eng.resolve_ptr(eng.ev(a[0]))
    v = eng.load(l)
    if v.kids['proto'].kind == 'any' and p.kind == 'ptr' and is_false(z3.simplify(v.get('has', 'el', 'e')(z3.Int('probe!d')))):
        return ptr_of(l.f('has').i(z3.IntVal(0)), TRUE) if e['callee']['base'].endswith('find') else sc(z3.IntVal(0))
    k = hkey(eng, l, p)
    was = z3.simplify(v.get('has', 'el', 'e')(k))
    if not e['callee']['base'].endswith('find'):
        return sc(was) if e['callee']['base'].endswith('contains') else sc(If(was, z3.IntVal(1), z3.IntVal(0)))
    return ptr_of(l.f('has').i(k), z3.simplify(Not(was)))


@reg('std::unordered_set::end', 'std::unordered_set::cend')
def h_hend(eng, e):
    l, _ = recv(eng, e)
    return ptr_of(l.f('has').i(z3.IntVal(0)), TRUE)


LIB['std::__detail::operator=='] = _opcmp('==')
LIB['std::__detail::operator!='] = _opcmp('!=')
