"""Verification-condition generator: symbolic execution of the typed AST of the real code.

Loops are cut: every leaf a loop modifies is given a value that is a function of the iteration
number, either a closed form (validated inductive by the solver) or an uninterpreted function
constrained by its recurrence and by the invariants that survive Houdini."""
import os
import struct
import sys
import time
import z3
from fractions import Fraction
from ast_ import Unsupported
from val import *
import val as V
import solve
import fp_
import poly

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()


DBG = os.environ.get('VDEBUG')


class State:
    __slots__ = ('store', 'pc')

    def __init__(self, store, pc):
        self.store = store
        self.pc = pc

    def fork(self, *extra):
        return State(dict(self.store), self.pc + tuple(c for c in extra if not is_true(c)))

    def dead(self):
        return any(is_false(c) for c in self.pc)


class Obl:
    __slots__ = ('name', 'loc', 'facts', 'pc', 'goal', 'kind', 'exact')

    def __init__(self, name, loc, facts, pc, goal, kind, exact):
        self.name, self.loc, self.facts, self.pc, self.goal, self.kind, self.exact = name, loc, facts, pc, goal, kind, exact


class Frame:
    __slots__ = ('env', 'this', 'fn', 'uid', 'retref')

    def __init__(self, fn, uid):
        self.env = {}
        self.this = None
        self.fn = fn
        self.uid = uid
        self.retref = None


def consts_in(e, pred, seen=None):
    """does term e contain a declaration satisfying pred"""
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and pred(x.decl().name()):
                return True
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    return False


def common_prefix(a, b):
    n = 0
    while n < len(a) and n < len(b) and (a[n] is b[n] or a[n].eq(b[n])):
        n += 1
    return n


class Eng:
    def __init__(self, prog, intmode='int', fpmode='real', lib=None, contracts=None, tag='', overflow=False, decimal=False):
        import lib as L_
        self.P = prog
        self.intmode = intmode
        self.fpmode = fpmode
        self.idx = z3.BitVecSort(64) if intmode == 'bv' else I
        self.prune = False
        self.heaps = {}
        self.raw = {}
        self.mulabs = None       # bit-vector products a contract names instead of multiplying out
        self.rawobj, self.defobj = {}, {}      # class types that know whether they live: value of empty storage, of a default-constructed object
        self.lib = dict(L_.LIB)
        if lib:
            self.lib.update(lib)
        self.contracts = dict(contracts or {})
        self.facts = []
        self.obl = []
        self.quiet = 0
        self.acc = None               # accesses of the iteration of a parallel loop under analysis
        self.parallel = False         # check parallel loops for interference between their iterations
        self.ghosts = []
        self.st = State({}, ())
        self.frames = []
        self.cnt = 0
        self.uid = 0
        self.tag = tag
        self.discover = 0
        self.exact = True
        self.hints = []
        self.reaches = []                # one predicate per loop: it is executed at least so often
        self.overflow = overflow
        self.curloc = ''
        self.writes = None
        self.selof = {}
        self.cntX = {}
        self.perms = []
        self.guesses = []
        self.ground = {}              # function -> instance of its defining facts at one argument
        self.inverses = {}
        self.functions = {}          # base -> set(loc) executed
        self.used_contracts = set()
        self.used_lib = set()
        self.loopinfo = []
        self.maxdepth = 60
        self.pool = None
        self.axdone = set()
        self.prune_cache = {}
        self.nounroll = False
        self.unroll_max = 70
        self.havoc_log = []
        self.checks_bounds = True
        self.memchecks = True
        self.mathfacts = False
        self.decimal = decimal
        self.qtime = 0.0
        self.voidcall = None
        self.cnts = {}
        if fpmode == 'rnd':
            self.exact = False      # rounding is over-approximated

    # ------------------------------------------------------------------ fresh symbols
    def name(self, base):
        self.cnt += 1
        return '%s%s!%d' % (self.tag, base, self.cnt)

    def fresh(self, base, sort, n=0, doms=None):
        """scalar term (n=0) or leaf of arity n, functions of the active ghost iterations"""
        gs = list(self.ghosts)
        dom = [I] * len(gs) + (doms or [self.idx] * n)
        nm = self.name(base)
        if n == 0:
            if not gs:
                return z3.Const(nm, sort)
            return z3.Function(nm, *dom, sort)(*gs)
        f = z3.Function(nm, *dom, sort)
        return L(n, lambda *i: f(*gs, *i))

    def fresh_like(self, leaf, base, extra=0):
        n = arity(leaf)
        if n == 0:
            return self.fresh(base, leaf.sort())
        probe = leaf(*[z3.Const('probe!%d' % k, self.idx) for k in range(n)])
        return self.fresh(base, probe.sort(), n)

    def leafsort(self, leaf):
        n = arity(leaf)
        if n == 0:
            return leaf.sort()
        return leaf(*[z3.Const('probe!%d' % k, self.idx) for k in range(n)]).sort()

    def adopt_fresh(self, leaf, n):
        s = self.leafsort(leaf)
        return self.fresh('adopt', s, n + arity(leaf))

    # ------------------------------------------------------------------ types
    def isort(self, t=None):
        return I

    def sort_of(self, t):
        d = self.P.ty(t)
        k = d['k']
        if k == 'bool':
            return B
        if k in ('int', 'enum'):
            if self.intmode == 'bv':
                return z3.BitVecSort(d['w'])
            return I
        if k == 'fp':
            if self.fpmode == 'fp':
                return z3.Float64() if d['w'] == 64 else z3.Float32()
            return R
        raise Unsupported('sort of ' + d['s'])

    def is_scalar(self, t):
        return self.P.ty(t)['k'] in ('bool', 'int', 'enum', 'fp')

    def range_fact(self, t, e):
        d = self.P.ty(t)
        if d['k'] in ('int', 'enum') and self.intmode == 'int':
            if d['sg']:
                return And(e >= -(1 << (d['w'] - 1)), e < (1 << (d['w'] - 1)))
            if d['k'] == 'enum':
                return And(e >= 0)
            return And(e >= 0, e < (1 << d['w']))
        return None

    def targ(self, t, i):
        return self.P.ty(t)['args'][i]

    def seqinfo(self, t):
        """(element type, kind, fixed size or None) for sequence-like record/array types"""
        d = self.P.ty(t)
        if d['k'] == 'arr':
            return d['of'], 'array', d['n']
        if d['k'] != 'rec':
            return None
        n = d['name']
        if n == 'std::array':
            return d['args'][0]['t'], 'array', int(d['args'][1]['i'])
        if n in ('std::vector', 'std::queue', 'std::deque', 'std::initializer_list'):
            return d['args'][0]['t'], 'vector', None
        if n in ('Eigen::Array', 'Eigen::Matrix'):
            r, c = int(d['args'][1]['i']), int(d['args'][2]['i'])
            if r == 1 or c == 1:
                m = c if r == 1 else r
                return d['args'][0]['t'], 'eigen', (m if m >= 0 else None)
            if len(d['args']) > 3 and int(d['args'][3].get('i', 0)) & 1:
                return None
            return d['args'][0]['t'], 'mat', (r * c if r >= 0 and c >= 0 else None)
        return None

    def matshape(self, t):
        d = self.P.ty(self.P.strip(t))
        return int(d['args'][1]['i']), int(d['args'][2]['i'])

    def sym(self, t, name, n=0, facts=True):
        """arbitrary value of type t (lifted n times)"""
        t = self.P.strip(t)
        d = self.P.ty(t)
        k = d['k']
        if k in ('bool', 'int', 'enum', 'fp'):
            leaf = self.fresh(name, self.sort_of(t), n)
            if k == 'fp' and self.fpmode == 'rnd':
                f = fp_.F(d['w'])
                iv = [z3.Const('ri!%d' % j, self.idx) for j in range(n)]
                self.fact(f(leaf) == leaf if n == 0 else z3.ForAll(iv, f(leaf(*iv)) == leaf(*iv)))
            if facts:
                if n == 0:
                    rf = self.range_fact(t, leaf)
                    if rf is not None:
                        self.fact(rf)
                else:
                    iv = [z3.Const('ri!%d' % j, self.idx) for j in range(n)]
                    rf = self.range_fact(t, leaf(*iv))
                    if rf is not None:
                        self.fact(z3.ForAll(iv, rf))
            return Node('sc', None, {'e': leaf})
        sq = self.seqinfo(t)
        if sq:
            et, kind, fixed = sq
            if fixed is not None:
                nn = z3.IntVal(fixed)
                nleaf = nn if n == 0 else L(n, lambda *i: nn)
            else:
                nleaf = self.fresh(name + '.n', I, n)
                if n == 0:
                    self.fact(And(nleaf >= 0, nleaf < (1 << 62)))
                else:
                    iv = [z3.Const('ri!%d' % j, self.idx) for j in range(n)]
                    self.fact(z3.ForAll(iv, And(nleaf(*iv) >= 0, nleaf(*iv) < (1 << 62))))
            kids = {'n': nleaf, 'el': self.sym(et, name + '[]', n + 1, facts)}
            if kind == 'mat':
                rc = self.matshape(t)
                for q, x in zip('rc', rc):
                    if x >= 0:
                        kids[q] = z3.IntVal(x) if n == 0 else L(n, lambda *i, x=x: z3.IntVal(x))
                    else:
                        kids[q] = self.fresh(name + '.' + q, I, n)
                iv = [z3.Const('ri!%d' % j, self.idx) for j in range(n)]
                f = And(app(kids['r'], *iv) >= 0, app(kids['c'], *iv) >= 0, app(nleaf, *iv) == app(kids['r'], *iv) * app(kids['c'], *iv))
                if fixed is None:
                    self.fact(z3.ForAll(iv, f) if iv else f)
            return Node('arr', (et, kind, fixed), kids)
        if k == 'rec' and ('symrec', d['name']) in self.lib:
            return self.lib[('symrec', d['name'])](self, t, name, n)
        if k == 'rec' and 'id' in d:
            return Node('st', t, {f: self.sym(ft, name + '.' + f, n, facts) for f, ft, _ in self.P.fields(t)})
        if k == 'rec' and d['name'] in ('std::pair', 'std::tuple'):
            fs = [a['t'] for a in (d['args'] if d['name'] == 'std::pair' else d['args'][0]['pack'])]
            names = ['first', 'second'] if d['name'] == 'std::pair' else ['_%d' % i for i in range(len(fs))]
            return Node('st', t, {f: self.sym(ft, name + '.' + f, n, facts) for f, ft in zip(names, fs)})
        return ANY

    def default(self, t, e=None):
        """value of a default-constructed object: indeterminate scalars are arbitrary"""
        t = self.P.strip(t)
        d = self.P.ty(t)
        sq = self.seqinfo(t)
        if sq:
            et, kind, fixed = sq
            v = self.sym(t, 'undef')
            if fixed is None:
                v = v.put(('n',), z3.IntVal(0))
                if kind == 'mat':
                    v = v.put(('r',), z3.IntVal(0)).put(('c',), z3.IntVal(0))
            elif et in self.defobj:
                v = Node('arr', v.static, dict(v.kids, el=lift(self.defobj[et])))
            return v
        if d['k'] == 'rec' and ('defrec', d['name']) in self.lib:
            return self.lib[('defrec', d['name'])](self, t)
        if d['k'] == 'rec' and 'id' in d:
            kids = {}
            for f, ft, ini in self.P.fields(t):
                kids[f] = self.ev(ini) if ini else self.default(ft)
            return Node('st', t, kids)
        if d['k'] == 'ptr':
            return ANY
        return self.sym(t, 'undef')

    def zero(self, t):
        t = self.P.strip(t)
        d = self.P.ty(t)
        if d['k'] == 'bool':
            return sc(z3.BoolVal(False))
        if d['k'] in ('int', 'enum'):
            return sc(self.ival(0, d['w']))
        if d['k'] == 'fp':
            return sc(self.fval(Fraction(0), d['w']))
        if d['k'] == 'ptr':
            return NULLP
        sq = self.seqinfo(t)
        if sq and sq[2] is not None and self.is_scalar(sq[0]):
            z = self.zero(sq[0])
            return Node('arr', sq, {'n': z3.IntVal(sq[2]), 'el': lift(z)})
        return self.default(t)

    def ival(self, v, w=64):
        if self.intmode == 'bv':
            return z3.BitVecVal(v, w)
        return z3.IntVal(v)

    def fval(self, q, w=64):
        if self.fpmode == 'fp':
            return z3.FPVal(float(q), z3.Float64() if w == 64 else z3.Float32())
        return z3.Q(q.numerator, q.denominator)

    # ------------------------------------------------------------------ facts / obligations
    def fact(self, f, guard=True):
        if is_true(f):
            return
        self.facts.append(f)

    def pcfact(self, f):
        """fact that holds on the current path"""
        if is_true(f):
            return
        pc = And(*self.st.pc)
        self.facts.append(Implies(pc, f))

    def assume(self, c):
        if is_true(c):
            return
        self.st.pc = self.st.pc + (c,)

    def oblige(self, name, goal, loc='', kind='assert'):
        if self.quiet or is_true(goal):
            if not self.quiet:
                self.obl.append(Obl(name, loc, (), (), z3.BoolVal(True), kind, self.exact))
            return
        self.obl.append(Obl(name, loc, tuple(self.facts), self.st.pc, goal, kind, self.exact))

    def provable(self, goal, timeout=400, qf=True, extra=()):
        """quick check used only to simplify; False means 'not shown'"""
        if is_true(goal):
            return True
        if is_false(goal):
            return False
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout)
        for f in self.facts:
            if qf and has_quant(f):
                continue
            s.add(f)
        for c in self.st.pc:
            if qf and has_quant(c):
                continue
            s.add(c)
        for c in extra:
            s.add(c)
        s.add(z3.Not(goal))
        r = solve.check(s, timeout, not qf) == 'unsat'
        self.qtime += time.time() - t0
        return r

    # ------------------------------------------------------------------ store
    def new(self, base, v):
        self.uid += 1
        r = '%s#%d' % (base, self.uid)
        self.st.store[r] = v
        return Loc(r)

    def load(self, loc, only=None):
        """the value at a location; only: the components the caller looks at (() for the machinery's own questions)"""
        if isinstance(loc, View):
            return self.load_view(loc)
        if self.acc is not None and not self.quiet and only != ():
            self.acc.append(('r', loc, only, self.st.pc, self.curloc))
        root = self.st.store.get(loc.root)
        if root is None:
            raise Unsupported('read of out-of-scope object ' + str(loc.root))
        n, idx = descend(root, loc.path)
        if n.kind == 'any':
            return ANY
        return select(n, *idx) if idx else n

    def store_leaf(self, loc, name, leaf):
        """write one leaf component (the length of a sequence)"""
        if self.writes is not None:
            self.writes.append((loc.f(name), leaf))
        if self.acc is not None and not self.quiet:
            self.acc.append(('w', loc.f(name), None, self.st.pc, self.curloc))
        self.st.store[loc.root] = update(self.st.store[loc.root], loc.path + (('f', name),), leaf, (), self.adopt_fresh)

    def load_view(self, v):
        if hasattr(v, 'p'):
            return v.p
        b = self.load(v.base)
        fwd = v.fwd
        el = b.kids['el']
        return Node('arr', (b.static[0], 'eigen', None),
                    {'n': v.n, 'el': el.map(lambda leaf: L(leaf.ar, lambda *i, leaf=leaf: leaf(fwd(i[0]), *i[1:])))})

    def store(self, loc, v):
        if isinstance(loc, View):
            return self.store_view(loc, v)
        if loc.root not in self.st.store:
            raise Unsupported('write to out-of-scope object ' + str(loc.root))
        if self.writes is not None:
            self.writes.append((loc, v))
        if self.acc is not None and not self.quiet:
            self.acc.append(('w', loc, None, self.st.pc, self.curloc))
        old = self.st.store[loc.root]
        self.st.store[loc.root] = update(old, loc.path, v, (), self.adopt_fresh)

    def store_view(self, v, val):
        b = self.load(v.base)
        src = val.kids['el']
        kids = {}

        def f(a, s):
            if isinstance(a, Node):
                return Node(a.kind, a.static, {k: f(a.kids[k], s.kids[k]) for k in a.kids})

            def g(*i):
                ok, j = v.inv(i[0])
                return If(ok, s(j, *i[1:]), a(*i))
            return L(a.ar, g)
        nb = Node('arr', b.static, dict(b.kids, el=f(b.kids['el'], src)))
        self.store(v.base, nb)

    # ------------------------------------------------------------------ merging
    def merge_states(self, a, b):
        if a is None or a.dead():
            return b
        if b is None or b.dead():
            return a
        n = common_prefix(a.pc, b.pc)
        ga = And(*a.pc[n:])
        gb = And(*b.pc[n:])
        g = ga
        store = {}
        for r, va in a.store.items():
            vb = b.store.get(r)
            if vb is None:
                continue
            store[r] = merge(g, va, vb)
        d = Or(ga, gb)
        if Eq(ga, Not(gb)) is not None and (ga.eq(Not(gb)) or gb.eq(Not(ga))):
            d = z3.BoolVal(True)
        pc = a.pc[:n]
        if not is_true(d):
            pc = pc + (d,)
        return State(store, pc)

    def branch(self, c, fa, fb):
        """evaluate fa under c and fb under not c, merge states; both return a Node or None"""
        c = simp(c)
        if is_true(c):
            return fa()
        if is_false(c):
            return fb() if fb else None
        s0 = self.st
        self.st = s0.fork(c)
        va = fa()
        sa = self.st
        self.st = s0.fork(Not(c))
        vb = fb() if fb else None
        sb = self.st
        if sa.pc[:len(s0.pc)] == s0.pc and len(sa.pc) == len(s0.pc) + 1 and len(sb.pc) == len(s0.pc) + 1:
            store = {r: merge(c, v, sb.store[r]) for r, v in sa.store.items() if r in sb.store}
            self.st = State(store, s0.pc)
        else:
            self.st = self.merge_states(sa, sb)
        if va is None:
            return vb
        if vb is None:
            return va
        return merge(c, va, vb)

    # ------------------------------------------------------------------ functions
    def call_fn(self, fid, args, this=None, env=None, loc=''):
        f = self.P.fns.get(fid)
        if f is None or 'body' not in f:
            raise Unsupported('no body: ' + (f['full'] if f else str(fid)))
        if len(self.frames) > self.maxdepth:
            raise Unsupported('recursion too deep at ' + f['base'])
        self.functions.setdefault(f['base'], set()).add(f.get('loc', '?'))
        self.uid += 1
        fr = Frame(f, self.uid)
        fr.this = this
        if env:
            fr.env.update(env)
        for p, a in zip(f['params'], args):
            pt = self.P.ty(p['t'])
            if pt['k'] == 'ref':
                fr.env[p['id']] = a if isinstance(a, (Loc, View)) else self.new('tmp', a)
            else:
                v = self.load(a) if isinstance(a, (Loc, View)) else a
                fr.env[p['id']] = self.new(p['name'] or 'arg', v)
        self.frames.append(fr)
        rt = self.P.ty(f['ret'])
        fr.retref = rt['k'] == 'ref'
        for ini in f.get('inits', []) or []:
            self.ctor_init(ini, f)
        outs = self.exec(f['body'])
        self.frames.pop()
        res = None
        st = None
        for k in ('next', 'return'):
            s = outs.get(k)
            if s is not None and not s.dead():
                st = s if st is None else self.merge_states(st, s)
        if st is None:
            st = State({}, (z3.BoolVal(False),))
            st.store = dict(self.st.store)
        self.st = st
        rname = '$ret#%d' % fr.uid
        v = st.store.pop(rname, None)
        self.gc(fr)
        if rt['k'] == 'void':
            return None
        if v is None:
            return ANY
        if fr.retref:
            return loc_of(v) if v.kind == 'ptr' else self.new('tmp', v)
        return v

    def gc(self, fr):
        pass

    def ctor_init(self, ini, f):
        fr = self.frames[-1]
        if 'field' in ini and ini['field']:
            loc = fr.this.f(ini['field'])
            e = ini.get('e') or ini.get('init')
            self.init_into(loc, e)
        else:
            e = ini.get('e') or ini.get('init')
            if e is None:
                return
            if e['k'] == 'construct' and 'fn' in (e.get('callee') or {}):
                g = self.P.fns.get(e['callee']['fn'])
                if g is not None and 'body' in g:
                    args = self.args(g, e['args'])
                    self.call_fn(e['callee']['fn'], args, this=fr.this)

    def init_into(self, loc, e):
        if e is None:
            return
        v = self.ev(e)
        if v is not None:
            self.store(loc, v)

    def args(self, f, aexprs):
        out = []
        for p, a in zip(f['params'], aexprs):
            if self.P.ty(p['t'])['k'] == 'ref':
                out.append(self.lv(a))
            else:
                out.append(self.ev(a))
        return out

    # ------------------------------------------------------------------ statements
    def exec(self, s):
        """execute in self.st; returns dict outcome->State"""
        if s is None:
            return {'next': self.st}
        if s.get('loc'):
            self.curloc = s['loc']
        k = s['k']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported('statement %s %s at %s' % (k, s.get('what', ''), s.get('loc', '')))
        return m(s)

    def join(self, outs, new):
        for k, s in new.items():
            if s is None or s.dead():
                continue
            if k in outs and outs[k] is not None:
                outs[k] = self.merge_states(outs[k], s)
            else:
                outs[k] = s

    def x_block(self, s):
        outs = {}
        for x in s['b']:
            if x is None:
                continue
            r = self.exec(x)
            nxt = r.pop('next', None)
            self.join(outs, r)
            if nxt is None or nxt.dead():
                return outs
            self.st = nxt
        outs['next'] = self.st
        return outs

    def x_null(self, s):
        return {'next': self.st}

    def x_expr(self, s):
        e = s['e']
        self.voidcall = e
        self.ev(e, void=True)
        self.voidcall = None
        return {'next': self.st}

    def x_decls(self, s):
        for d in s['b']:
            if d['k'] != 'decl':
                raise Unsupported('decl ' + d.get('what', d['k']))
            self.decl(d)
        return {'next': self.st}

    def decl(self, d):
        fr = self.frames[-1]
        t = d['t']
        td = self.P.ty(t)
        if td['k'] == 'ref':
            fr.env[d['id']] = self.lv(d['init'])
            return
        init = d.get('init')
        if d.get('isstatic') and self.parallel and not d.get('cst'):
            # one object for all calls: of the thread, or shared by all threads
            r = ('thread:' if d.get('tls') else 'shared:') + '%s@%s' % (d['name'], d.get('loc', ''))
            if r not in self.st.store:
                self.st.store[r] = self.sym(t, r)
            fr.env[d['id']] = Loc(r)
            return
        if init is None:
            v = self.default(t)
        else:
            v = self.ev(init)
            if v is None:
                v = self.default(t)
        if td['k'] == 'other' and v.kind == 'any':
            v = self.default(t)
        fr.env[d['id']] = self.new(d['name'] or 'v', v)

    def x_if(self, s):
        if s.get('init'):
            self.exec(s['init'])
        c = simp(self.evb(s['c']))
        s0 = self.st
        if self.prune and not is_true(c) and not is_false(c):
            if self.provable(c, 500, qf=False):
                c = z3.BoolVal(True)
            elif self.provable(Not(c), 500, qf=False):
                c = z3.BoolVal(False)
        if is_true(c):
            return self.exec(s['a'])
        if is_false(c):
            return self.exec(s['b']) if s['b'] else {'next': s0}
        self.st = s0.fork(c)
        oa = self.exec(s['a'])
        self.st = s0.fork(Not(c))
        ob = self.exec(s['b']) if s['b'] else {'next': self.st}
        na, nb = oa.get('next'), ob.get('next')
        outs = {}
        if na is not None and nb is not None and len(na.pc) == len(s0.pc) + 1 and len(nb.pc) == len(s0.pc) + 1:
            store = {r: merge(c, v, nb.store[r]) for r, v in na.store.items() if r in nb.store}
            outs['next'] = State(store, s0.pc)
            oa.pop('next')
            ob.pop('next')
        self.join(outs, oa)
        self.join(outs, ob)
        return outs

    def x_return(self, s):
        fr = self.frames[-1]
        if s.get('e') is not None:
            if fr.retref:
                l = self.lv(s['e'])
                v = ptr_of(l) if isinstance(l, Loc) else self.load(l)
            else:
                v = self.ev(s['e'])
            if v is not None:
                self.st = self.st.fork()
                self.st.store['$ret#%d' % fr.uid] = v
        return {'return': self.st}

    def x_break(self, s):
        return {'break': self.st}

    def x_continue(self, s):
        return {'continue': self.st}

    def x_switch(self, s):
        v = self.ev(s['c']).kids['e']
        body = s['b']
        if body['k'] != 'block':
            raise Unsupported('switch body')
        # flatten into list of (labels, stmts)
        seq = []
        for x in body['b']:
            labs = []
            while x is not None and x['k'] in ('case', 'default'):
                labs.append(x.get('v') if x['k'] == 'case' else 'default')
                x = x['b']
            seq.append((labs, x))
        conds = []
        for i, (labs, _) in enumerate(seq):
            for l in labs:
                if l != 'default':
                    conds.append((i, Eq(v, self.ev(l).kids['e'])))
        anyc = Or(*[c for _, c in conds])
        outs = {}
        s0 = self.st
        entries = []
        for i, (labs, _) in enumerate(seq):
            if not labs:
                continue
            cs = [c for j, c in conds if j == i]
            c = Or(*cs)
            if 'default' in labs:
                c = Or(c, Not(anyc))
            entries.append((i, simp(c)))
        for i, c in entries:
            if is_false(c):
                continue
            self.st = s0.fork(c)
            for labs, x in seq[i:]:
                r = self.exec(x)
                nxt = r.pop('next', None)
                br = r.pop('break', None)
                if br is not None:
                    self.join(outs, {'next': br})
                self.join(outs, r)
                self.st = nxt
                if nxt is None or nxt.dead():
                    break
            else:
                self.join(outs, {'next': self.st})
        if not any('default' in labs for labs, _ in seq):
            self.join(outs, {'next': s0.fork(Not(anyc))})
        return outs

    def x_omp(self, s):
        for c in s['clauses']:
            if c['kind'] == 'schedule' and c.get('chunk') is not None:
                ch = self.ev(c['chunk']).kids['e']
                self.oblige('OpenMP chunk size is at least 1', ch >= 1, s['loc'], 'omp')
        if self.parallel:
            self.interference(s)
        self.ompdepth = getattr(self, 'ompdepth', 0) + 1
        try:
            return self.exec(s['b'])
        finally:
            self.ompdepth -= 1

    def interference(self, s):
        """two arbitrary different iterations of a parallel loop, both started in the state before the loop: no place one of
        them writes is read or written by the other. Objects an iteration creates itself are its own."""
        f = s['b']
        if s['dir'] != 'parallel for' or f is None or f['k'] != 'for' or f['init'] is None or f['init']['k'] != 'decls' or len(f['init']['b']) != 1:
            raise Unsupported('parallel construct %s at %s' % (s['dir'], s['loc']))
        if any(c['kind'] not in ('schedule', 'num_threads', 'default', 'shared') for c in s['clauses']):
            raise Unsupported('clause of a parallel construct at ' + s['loc'])
        d = f['init']['b'][0]
        S0 = self.st
        runs = []
        for who in 'ab':
            self.st = S0.fork()
            self.exec(f['init'])
            v = self.frames[-1].env[d['id']]
            x0 = self.load(v).kids['e']
            x = self.fresh('iteration_' + who, I)
            rf = self.range_fact(d['t'], x)
            if rf is not None:
                self.fact(rf)
            self.store(v, sc(x))
            self.assume(x >= x0)
            self.assume(self.evb(f['c']))
            self.acc = []
            try:
                outs = self.exec(f['b'])
                acc = self.acc
            finally:
                self.acc = None
            bad = [k for k, t in outs.items() if k not in ('next', 'continue') and t is not None and not t.dead()]
            if bad:
                raise Unsupported('%s out of a parallel loop at %s' % (bad[0], s['loc']))
            runs.append((x, v.root, [a for a in acc if a[1].root in S0.store or a[1].root.startswith('shared:')]))
            for a in acc:
                if a[0] == 'w' and a[1].root == v.root:
                    raise Unsupported('the loop variable is written in a parallel loop at ' + s['loc'])
        (xa, _, A), (xb, _, B_) = runs
        places = 0
        wr = {}
        for k, w, o, pc, l in A:
            if k == 'w':
                wr.setdefault((self.lockey(w), tuple(t.get_id() for t in pc)), (w, pc, l))
        ac = {}
        for k, w, o, pc, l in B_:
            ac.setdefault((k, self.lockey(w), o, tuple(t.get_id() for t in pc)), (k, w, o, pc, l))
        sv = self.st
        for w, pc, l in wr.values():
            places += 1
            for k, r, o, pc2, l2 in ac.values():
                g = self.apart(w, r, o)
                if g is None:
                    continue
                self.st = S0.fork()
                for c in pc[len(S0.pc):] + pc2[len(S0.pc):]:
                    self.assume(c)
                self.assume(xa != xb)
                self.oblige('iterations do not interfere: %s is written by one and %s by another' % (self.locname(w), 'written' if k == 'w' else 'read'),
                            g, l or s['loc'], 'race')
        self.st = S0
        # every place written is covered by the obligations above; a loop that writes nothing shared has none
        self.parloops = getattr(self, 'parloops', []) + [(s['loc'], places)]

    @staticmethod
    def lockey(l):
        return (l.root,) + tuple((k, x if isinstance(x, str) else x.get_id() if hasattr(x, 'get_id') else x) for k, x in l.path)

    @staticmethod
    def locname(l):
        return l.root.split('#')[0] + ''.join('.' + x if k == 'f' else '[]' for k, x in l.path)

    @staticmethod
    def apart(w, r, only):
        """condition under which a written and an accessed place are different; None if they always are"""
        if w.root != r.root:
            return None
        g = []
        for (k, x), (k2, y) in zip(w.path, r.path):
            if k != k2:
                # a component of a sequence (its length) against one of its elements
                return None
            if k == 'f':
                if x != y:
                    return None
            else:
                g.append(x != y)
        if only is not None and len(w.path) > len(r.path):
            k, x = w.path[len(r.path)]
            if (x if k == 'f' else 'el') not in only:
                return None
        return Or(*g) if g else z3.BoolVal(False)

    def x_for(self, s):
        if s.get('init'):
            self.exec(s['init'])
        inc = (lambda: self.ev(s['inc'], void=True)) if s.get('inc') else None
        cond = (lambda: self.evb(s['c'])) if s.get('c') else (lambda: z3.BoolVal(True))
        return self.loop(cond, lambda: self.exec(s['b']), inc, s)

    def x_while(self, s):
        return self.loop(lambda: self.evb(s['c']), lambda: self.exec(s['b']), None, s)

    def x_do(self, s):
        outs = {}
        r = self.exec(s['b'])
        br = r.pop('break', None)
        nxt = r.pop('next', None)
        co = r.pop('continue', None)
        self.join(outs, r)
        if co is not None:
            nxt = co if nxt is None else self.merge_states(nxt, co)
        if nxt is not None and not nxt.dead():
            self.st = nxt
            r = self.loop(lambda: self.evb(s['c']), lambda: self.exec(s['b']), None, s)
            self.join(outs, r)
        if br is not None:
            self.join(outs, {'next': br})
        return outs

    def x_rangefor(self, s):
        rl = self.lv(s['range'])
        fr = self.frames[-1]
        rt = self.P.strip(s['rt'])
        d = self.P.ty(rt)
        v0 = self.load(rl)
        if v0.kind == 'st' and isinstance(v0.static, tuple) and v0.static[0] == 'list':
            return self.lib['rangefor_list'](self, s, rl)
        if v0.kind == 'st' and v0.static == ('hset',):
            return self.lib['rangefor_hash'](self, s, rl)
        if v0.kind != 'arr':
            return self.rangefor_ptr(s, rl, d)
        ctr = self.new('rng', sc(self.ival(0)))
        isref = self.P.ty(s['var']['t'])['k'] == 'ref'

        def cond():
            return self.load(ctr).kids['e'] < self.ilen(self.load(rl).kids['n'])

        def body():
            k = self.load(ctr).kids['e']
            if isref:
                fr.env[s['var']['id']] = rl.i(self.toidx(k))
            else:
                fr.env[s['var']['id']] = self.new(s['var']['name'], self.load(rl.i(self.toidx(k))))
            return self.exec(s['b'])

        def inc():
            self.store(ctr, sc(self.load(ctr).kids['e'] + self.ival(1)))
        return self.loop(cond, body, inc, s)

    def rangefor_ptr(self, s, rl, d):
        """range-for over an object whose begin() and end() are pointers"""
        if 'rv' not in s or 'rbegin' not in s or 'rend' not in s:
            raise Unsupported('range-for over ' + d['s'])
        fr = self.frames[-1]
        fr.env[s['rv']] = rl
        b = self.ev(s['rbegin'])
        e = self.ev(s['rend'])
        if b.kind != 'ptr' or e.kind != 'ptr' or b.static != e.static or b.static is None:
            raise Unsupported('range-for over ' + d['s'])
        it = self.new('rng', b)
        isref = self.P.ty(s['var']['t'])['k'] == 'ref'
        ks = [k for k in b.kids if k != 'null']

        def cond():
            p = self.load(it)
            return Not(And(*[Eq(p.kids[k], e.kids[k]) for k in ks]))

        def body():
            l = loc_of(self.resolve_ptr(self.load(it)))
            self.deref(l, s.get('loc', ''))
            fr.env[s['var']['id']] = l if isref else self.new(s['var']['name'], self.load(l))
            return self.exec(s['b'])

        def inc():
            p = self.load(it)
            self.store(it, ptr_of(self.ptr_add_loc(p, z3.IntVal(1)), p.kids['null']))
        return self.loop(cond, body, inc, s)

    def ilen(self, n):
        if self.intmode == 'bv' and not z3.is_bv(n):
            return z3.Int2BV(n, 64)
        return n

    def toidx(self, k):
        """index value in the index sort (integers; 64-bit vectors in bv mode)"""
        return k

    # ------------------------------------------------------------------ loops
    def step(self, S, cond, body, inc):
        """one iteration from S: (continue state or None, exits)"""
        self.st = S.fork()
        c = simp(cond())
        sc_ = self.st
        exits = {}
        if not is_true(c):
            exits['exit'] = sc_.fork(Not(c))
        if is_false(c):
            return None, exits, c, sc_
        self.st = sc_.fork(c)
        outs = body()
        nxt = outs.pop('next', None)
        co = outs.pop('continue', None)
        if co is not None:
            nxt = co if (nxt is None or nxt.dead()) else self.merge_states(nxt, co)
        for k in ('break', 'return'):
            if outs.get(k) is not None and not outs[k].dead():
                exits[k] = outs[k]
        if nxt is None or nxt.dead():
            return None, exits, c, sc_
        self.st = nxt
        if inc:
            inc()
        return self.st, exits, c, sc_

    def loop(self, cond, body, inc, s):
        outs = {}
        # ---- concrete unrolling
        n = 0
        while n < self.unroll_max:
            S0 = self.st
            mark = (len(self.facts), len(self.obl))
            self.st = S0.fork()
            self.quiet += 1
            c = simp(cond())
            self.quiet -= 1
            del self.facts[mark[0]:]
            self.st = S0
            if is_true(c) or is_false(c):
                if is_false(c):
                    cond()
                    self.join(outs, {'next': self.st})
                    return outs
                nxt, exits, _, _ = self.step(S0, cond, body, inc)
                if n == 0 and exits and nxt is not None and self.forever(s):
                    # an endless loop left from inside after an unknown number of iterations
                    del self.facts[mark[0]:]
                    del self.obl[mark[1]:]
                    self.st = S0
                    break
                if 'break' in exits:
                    self.join(outs, {'next': exits['break']})
                if 'return' in exits:
                    self.join(outs, {'return': exits['return']})
                if nxt is None:
                    return outs
                self.st = nxt
                n += 1
            else:
                break
        r = self.gloop(cond, body, inc, s)
        self.join(outs, r)
        return outs

    def forever(self, s):
        """is the condition of the loop the literal true"""
        c = s.get('c')
        while c is not None and c.get('k') in ('cast', 'paren', 'icast'):
            c = c.get('e') or c.get('x')
        return c is None or c.get('k') in ('bool', 'int', 'lit') and c.get('v') in (True, 1, '1', 'true')

    def diff(self, S, T):
        """leaf paths of roots of S whose leaf differs in T"""
        out = []
        for r, v in S.store.items():
            w = T.store.get(r)
            if w is None or w is v:
                continue
            self._diff((r,), v, w, out)
        return out

    def _diff(self, p, v, w, out):
        if v is w:
            return
        if not isinstance(v, Node):
            if isinstance(v, L) or isinstance(w, L):
                out.append(p)
            elif not v.eq(w):
                out.append(p)
            return
        if v.kind == 'ptr' and w.kind == 'ptr' and v.static != w.static:
            out.append(p + ('*',))
            return
        if v.kind != w.kind or list(v.kids) != list(w.kids):
            if v.kind == 'any':
                out.append(p + ('*',))
                return
            raise Unsupported('loop changes shape of %s: %s -> %s' % (p, v.kind, w.kind))
        for k in v.kids:
            self._diff(p + (k,), v.kids[k], w.kids[k], out)

    def leaf_at(self, S, p):
        v = S.store[p[0]]
        for k in p[1:]:
            v = v.kids[k]
        return v

    def with_leaf(self, store, p, leaf):
        v = store[p[0]]
        if len(p) == 1:
            store[p[0]] = leaf
        else:
            store[p[0]] = v.put(p[1:], leaf)

    def gloop(self, cond, body, inc, s):
        S0 = self.st
        loc = s.get('loc', '?')
        nfacts = len(self.facts)
        nobl = len(self.obl)
        self.cnt += 1
        it = z3.Int('%sit!%d' % (self.tag, self.cnt))
        outer = list(self.ghosts)
        base_cnt = self.cnt
        cnts0 = set(self.cnts)
        reach = z3.Function(self.name('reach'), *([I] * (len(outer) + 1)), B)
        R_ = lambda x: reach(*outer, x)
        if not self.quiet:
            self.reaches.append(R_)
        uf = {}                       # path -> function(itval)->leaf
        ufnames = set()

        def hav(p):
            leaf = self.leaf_at(S0, p)
            srt = self.leafsort(leaf)
            n = arity(leaf)
            nm = self.name('h_' + '_'.join(str(x) for x in p))
            ufnames.add(nm)
            f = z3.Function(nm, *([I] * (len(outer) + 1 + n)), srt)
            if n == 0:
                return lambda x: f(*outer, x)
            return lambda x: L(n, lambda *i: f(*outer, x, *i))

        def havstar(p):
            raise Unsupported('loop retargets a pointer/untyped object %s at %s' % (p, loc))

        closed = {}
        early = []                    # the number of iterations the condition allows, once known
        sides = []                    # invariants that come with guessed closed forms

        def H(x, over=None, skip=()):
            store = dict(S0.store)
            for p, f in uf.items():
                g = (over or {}).get(p) or closed.get(p)
                leaf = g(x) if g else f(x)
                self.with_leaf(store, p, leaf)
            pc = S0.pc + (x >= 0, R_(x))
            if early:
                pc += (x <= early[0],)
            return State(store, pc + tuple(f(x) for f in sides))

        def run(St, quiet=True):
            m = (len(self.facts), len(self.obl))
            self.ghosts = outer + [it]
            if quiet:
                self.quiet += 1
            w0 = self.writes
            self.writes = []
            tc = (self.tag, self.cnt)
            self.tag, self.cnt = '%sL%d.' % (self.tag, base_cnt), 0
            try:
                r = self.step(St, cond, body, inc)
                wr = self.writes
            finally:
                self.tag, self.cnt = tc
                self.writes = w0 if (w0 is None or quiet) else w0 + self.writes
                if quiet:
                    self.quiet -= 1
                self.ghosts = outer
            fs = self.facts[m[0]:]
            if quiet:
                del self.facts[m[0]:]
                del self.obl[m[1]:]
            return r, wr, fs

        # ---- modified leaves
        self.discover += 1
        try:
            for _ in range(12):
                St = H(it)
                (nxt, exits, c, sc_), wr, _f = run(St)
                new = []
                if nxt is not None:
                    for p in self.diff(St, nxt):
                        if p[-1] == '*':
                            p2 = p[:-1]
                            ok = self.fix_star(S0, p2, nxt)
                            if not ok:
                                havstar(p)
                            new.append(None)
                            continue
                        if p not in uf:
                            uf[p] = hav(p)
                            new.append(p)
                if not new:
                    break
            else:
                raise Unsupported('loop modifies too much at ' + loc)
        finally:
            self.discover -= 1

        if self.discover:
            # coarse result: arbitrary values for everything modified
            outs = {}
            E = z3.IntVal(0)
            self.cnt += 1
            E = self.fresh('E', I)
            St = H(E)
            self.st = St.fork()
            c = cond()
            self.join(outs, {'next': self.st.fork(Not(c))})
            for k in ('break', 'return'):
                if k in exits:
                    self.join(outs, {'next' if k == 'break' else k: self.subst_state(exits[k], it, E)})
            return outs

        isuf = lambda nm: nm in ufnames
        dep_it = lambda e: consts_in(e, lambda nm: nm == it.decl().name() or isuf(nm))
        # ---- closed forms
        tried = set()
        guessed = [not self.guesses]

        def try_guesses(first=False):
            any_ = False
            if not first:
                guessed[0] = True
            for guess in self.guesses:
                # closed forms proposed by the specification, kept if they hold initially and are inductive
                gs, side, when = guess(self, S0, list(uf), it) or ({}, None, None)
                if first != (when == 'first'):
                    continue
                gs = {p: g for p, g in gs.items() if p in uf and p not in closed}
                if not gs:
                    continue

                def eqs(S, x):
                    r = []
                    for p, g in gs.items():
                        a, b = self.leaf_at(S, p), g(x)
                        ks = [z3.Int('gk!%d' % j) for j in range(arity(a))]
                        r.append((p, app(a, *ks) == app(b, *ks)))
                    return r
                closed.update(gs)
                if side:
                    sides.append(side)
                ok = all(self.check_valid(self.facts, S0.pc, q, 6000) for p, q in eqs(S0, z3.IntVal(0)) + ([('side', side(z3.IntVal(0)))] if side else []))
                if ok:
                    (nxt, exits, c, sc_), wr, fs = run(H(it))
                    if nxt is not None:
                        for p, q in eqs(nxt, simp(it + 1)) + ([('side', side(simp(it + 1)))] if side else []):
                            ok = ok and self.check_valid(list(self.facts) + fs, nxt.pc, q, 10000)
                            if not ok and DBG:
                                print('guess not inductive', loc, p, nxt.pc[-6:], q, file=sys.stderr)
                                break
                elif DBG:
                    print('guess not initial', loc, list(gs), file=sys.stderr)
                if DBG and ok:
                    print('guess holds', loc, list(gs), file=sys.stderr)
                if not ok:
                    if side:
                        sides.pop()
                    for p in gs:
                        del closed[p]
                any_ = any_ or ok
            return any_
        if self.guesses:
            try_guesses(True)
        for rnd in range(12):
            St = H(it)
            (nxt, exits, c, sc_), wr, fs = run(St)
            if nxt is None:
                break
            progress = False
            # scalars
            for p in list(uf):
                if p in closed:
                    continue
                a, b = self.leaf_at(St, p), self.leaf_at(nxt, p)
                if isinstance(a, L):
                    continue
                v0 = self.leaf_at(S0, p)
                g = self.scalar_closed(a, b, v0, it, dep_it, isuf, lambda e: consts_in(e, lambda nm: nm in ghost_skolems(fs)))
                if g:
                    closed[p] = g
                    progress = True
            if progress:
                continue
            if not early:
                Ecl = self.exit_closed(S0, H, it, c, closed, dep_it)
                if Ecl is not None:
                    early.append(Ecl)
                    continue
            if not guessed[0] and try_guesses():
                continue
            # arrays
            self.dbgcand = {}

            def arrays():
                cand = {}
                for p in uf:
                    if p in closed:
                        continue
                    if not isinstance(self.leaf_at(St, p), L):
                        continue
                    iv = self.index_of(p, wr, it, dep_it)
                    if iv is not None:
                        cand[p] = iv
                self.dbgcand = cand
                cells = {p: iv[1] for p, iv in cand.items() if iv[0] == 'cell'}
                for p in cells:
                    del cand[p]
                got = False
                for p, ix in cells.items():
                    a, b, v0 = self.leaf_at(St, p), self.leaf_at(nxt, p), self.leaf_at(S0, p)
                    if a.ar != len(ix):
                        continue
                    g = self.scalar_closed(a(*ix), b(*ix), v0(*ix), it, dep_it, isuf, None)
                    if not g:
                        continue
                    form = lambda x, g=g, v0=v0, ix=ix: L(v0.ar, lambda *i: If(And(*[u == w for u, w in zip(i, ix)]), g(x), v0(*i)))
                    (n2, _e, _c, _s), _w, fs2 = run(H(it, {p: form}))
                    ks = [z3.Int('vk!%d' % j) for j in range(v0.ar)]
                    if n2 is not None and self.check_valid(list(self.facts) + fs2, n2.pc, self.leaf_at(n2, p)(*ks) == form(simp(it + 1))(*ks)):
                        closed[p] = form
                        got = True
                if got:
                    return True
                good = self.array_closed(S0, H, cand, closed, uf, it, run, hav_base=uf) if cand else {}
                closed.update(good)
                return bool(good)
            progress = arrays()
            if not progress:
                # counters whose step is not syntactically constant: guess a linear form, keep it if it is inductive
                ints = [p for p in uf if p not in closed and not isinstance(self.leaf_at(S0, p), L) and self.leaf_at(S0, p).sort() == I
                        and not (p[-1][0] == 'i' and p[-1][1:].isdigit()) and p not in tried]
                for p in ints[:4]:
                    tried.add(p)
                    v0 = self.leaf_at(S0, p)
                    steps, todo = set(), [self.leaf_at(nxt, p)]
                    me = self.leaf_at(St, p)
                    while todo and len(steps) < 6:
                        y = todo.pop()
                        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE:
                            todo.extend(y.children()[1:])
                        else:
                            steps.add(num(simp(y - me)))
                    for d in (-1, 1):
                        if d not in steps:
                            continue
                        g = lambda x, v0=v0, d=d: simp0(v0 + d * x)
                        closed[p] = g
                        early_ = list(early)
                        St = H(it)
                        (nxt, exits, c, sc_), wr, fs = run(St)
                        if nxt is not None:
                            near = [f for f in self.facts if not has_quant(f)] + fs
                            fcts = list(self.facts) + fs + [f_closed(f, it) for f in fs]
                            goal = self.leaf_at(nxt, p) == g(simp(it + 1))
                            if self.check_valid(near, nxt.pc, goal, 2000) or self.check_valid(fcts, nxt.pc, goal, 4000):
                                progress = True
                                break
                        del closed[p]
                    if progress:
                        break
            if not progress:
                # list iterators: guess the traversal, keep it if it is inductive
                for gs in self.iterator_guesses(S0, uf, closed):
                    keep = dict(closed)
                    closed.update(gs)
                    St = H(it)
                    (nxt, exits, c, sc_), wr, fs = run(St)
                    if nxt is not None:
                        arrays()
                        St = H(it)
                        (nxt, exits, c, sc_), wr, fs = run(St)
                        fcts = list(self.facts) + fs + [f_closed(f, it) for f in fs]
                        if all(self.check_valid(self.facts, S0.pc, g(z3.IntVal(0)) == self.leaf_at(S0, p)) and
                               self.check_valid(fcts, nxt.pc, self.leaf_at(nxt, p) == g(simp(it + 1))) for p, g in gs.items()):
                            progress = True
                            break
                    closed.clear()
                    closed.update(keep)
            if not progress:
                break
        narrow = {}
        if nxt is not None:
            # an array written only at a fixed place keeps all its other elements
            for p in [p for p in uf if p not in closed]:
                v0 = self.leaf_at(S0, p)
                inner = '%sL%d.' % (self.tag, base_cnt)
                dep = lambda e: dep_it(e) or consts_in(e, lambda nm: nm.startswith(inner))
                fx = self.fixed_index(p, wr, dep, v0.ar) if isinstance(v0, L) else None
                if not fx:
                    continue
                free = [j for j in range(v0.ar) if j not in fx]
                nm = self.name('n_' + '_'.join(str(x) for x in p))
                ufnames.add(nm)
                h = z3.Function(nm, *([I] * (len(outer) + 1 + len(free))), self.leafsort(v0))
                was = uf[p]
                uf[p] = lambda x, h=h, fx=fx, free=free, v0=v0: L(v0.ar, lambda *i: If(And(*[i[j] == c_ for j, c_ in fx.items()]), h(*outer, x, *[i[j] for j in free]), v0(*i)))
                (n2, _e, _c, _s), _w, fs2 = run(H(it))
                ks = [z3.Int('vk!%d' % j) for j in range(v0.ar)]
                off = Or(*[ks[j] != c_ for j, c_ in fx.items()])
                if n2 is not None and self.check_valid(list(self.facts) + fs2, n2.pc + (off,), self.leaf_at(n2, p)(*ks) == v0(*ks)):
                    narrow[p] = fx
                    if DBG:
                        print('narrowed', p, fx, file=sys.stderr)
                else:
                    uf[p] = was
                    if DBG:
                        print('not narrowed', p, fx, n2 is None or self.leaf_at(n2, p)(*ks), 'FROM', v0(*ks), file=sys.stderr)
        rest = [p for p in uf if p not in closed]

        # ---- final run (facts kept), invariants
        St = H(it)
        nf = len(self.facts)
        (nxt, exits, c, sc_), wr, fs = run(St, quiet=True)
        inv_facts = []
        survivors = []
        if rest and nxt is not None:
            self.havoc_log.append((loc, [p for p in rest]))
            if DBG:
                print('rest', loc, rest, 'cand', list(self.dbgcand), file=sys.stderr)
            base, stepf = [], []
            cont = And(*nxt.pc[len(St.pc):])
            for p in rest:
                v0 = self.leaf_at(S0, p)
                f = uf[p]
                b = self.leaf_at(nxt, p)
                if isinstance(v0, L):
                    fx = narrow.get(p, {})
                    at = [fx[j] if j in fx else z3.Int('rk!%d' % j) for j in range(v0.ar)]
                    iv = [x for j, x in enumerate(at) if j not in fx]
                    all_ = lambda e: z3.ForAll(iv, e) if iv else e
                    base.append(all_(f(z3.IntVal(0))(*at) == v0(*at)))
                    stepf.append(('arr', p, f, b, (iv, at)))
                else:
                    base.append(f(z3.IntVal(0)) == v0)
                    stepf.append(('sc', p, f, b, None))
            self.facts.extend(base)
            # recurrence (kept as facts, universally closed over it)
            rec = []
            for kind, p, f, b, iv in stepf:
                if kind == 'sc':
                    rec.append(z3.ForAll([it], Implies(And(it >= 0, R_(it), cont), f(it + 1) == b),
                                         patterns=[f(it)] if pattern_ok(f(it), it) else []))
                else:
                    iv, at = iv
                    rec.append(z3.ForAll([it] + iv, Implies(And(it >= 0, R_(it), cont), f(it + 1)(*at) == b(*at))))
            survivors = self.houdini(S0, H, St, nxt, rest, it, R_, s, fs, loc, sc_, c, closed)
            for g in survivors:
                e = g(it)
                inv_facts.append(z3.ForAll([it], Implies(And(it >= 0, R_(it)), e)))
            self.exact = self.exact and False
            self.facts.extend(inv_facts)
            self.facts.extend(rec)
        # obligations of the body under the final invariant
        contf = None
        m0 = len(self.facts)
        # instance of invariants at it
        loc_inv = [Implies(And(it >= 0, R_(it)), g(it)) for g in survivors]
        if not rest and nxt is not None and ('break' in exits or 'return' in exits):
            # the iteration before this one did not leave the loop
            loc_inv.append(Implies(And(it > 0, R_(it)), z3.substitute(And(*nxt.pc[len(St.pc):]), (it, it - 1))))
        self.facts.extend(loc_inv)
        (nxt, exits, c, sc_), wr, fs = run(St, quiet=False)
        body_facts = self.facts[m0 + len(loc_inv):]
        del self.facts[m0:]
        for f in body_facts:
            if consts_in(f, lambda nm: nm == it.decl().name()):
                self.facts.append(z3.ForAll([it], f))
            else:
                self.facts.append(f)
        if nxt is not None:
            cont = And(*nxt.pc[len(St.pc):])
        else:
            cont = z3.BoolVal(False)
        j = z3.Int('j!%d' % base_cnt)
        contj = z3.substitute(cont, (it, j))
        j2 = z3.Int('jj!%d' % base_cnt)
        self.facts.append(z3.ForAll([j2, j], Implies(And(R_(j2), 0 <= j, j < j2), contj),
                                    patterns=self.reach_patterns(contj, R_, j, j2)))
        self.facts.append(z3.ForAll([j2, j], Implies(And(R_(j2), 0 <= j, j <= j2), R_(j))))
        self.loopinfo.append((loc, len(closed), len(rest), len(survivors)))
        # ---- exits
        outs = {}
        Ecl = early[0] if early else self.exit_closed(S0, H, it, c, closed, dep_it)
        if 'exit' in exits:
            if Ecl is not None:
                E = Ecl
            else:
                E = self.fresh('E', I)
            for ck in set(self.cnts) - cnts0:
                cn = self.cnts[ck][1]
                self.cntX[self.cnts[ck][5]].append(E)
                self.facts.append(Implies(E >= 0, And(cn(E) >= 0, cn(E) <= E)))
            Se = H(E)
            if Ecl is not None and 'break' not in exits and 'return' not in exits and nxt is not None:
                # the loop runs exactly E iterations; reach(E) holds by induction
                Se = State(Se.store, S0.pc)
                self.facts.append(Implies(And(*S0.pc), And(E >= 0, R_(E))))
            elif Ecl is not None:
                Se = State(Se.store, S0.pc + (R_(E),))
            if Ecl is None:
                self.fact(Implies(And(R_(E), E > 0), z3.substitute(cont, (it, E - 1))))
                for g in survivors:
                    self.fact(Implies(And(E >= 0, R_(E)), g(E)))
            else:
                for g in survivors:
                    self.fact(Implies(And(R_(E)), g(E)))
            self.st = Se.fork()
            self.quiet += 1
            ce = cond()
            self.quiet -= 1
            if Ecl is not None and 'break' not in exits and 'return' not in exits:
                so = self.st
            else:
                so = self.st.fork(Not(ce))
            self.join(outs, {'next': so})
        for k in ('break', 'return'):
            if k in exits:
                Bk = self.fresh('Bk', I)
                so = self.subst_state(exits[k], it, Bk)
                for g in survivors:
                    self.fact(Implies(And(Bk >= 0, R_(Bk)), g(Bk)))
                self.join(outs, {'next' if k == 'break' else k: so})
        return outs

    def iterator_guesses(self, S0, uf, closed):
        out = []
        for p in uf:
            if p in closed or not (isinstance(p[-1], str) and p[-1][0] == 'i' and p[-1][1:].isdigit()):
                continue
            nd = S0.store[p[0]]
            for k in p[1:-1]:
                nd = nd.kids[k]
            if nd.kind != 'ptr' or nd.static is None or nd.static[1][-2:] != (('f', 'slot'), ('i',)) or isinstance(nd.kids['null'], L):
                continue
            loc = loc_of(nd)
            sv = self.st
            self.st = S0
            try:
                lst = self.load(Loc(loc.root, loc.path[:-2]))
            finally:
                self.st = sv
            v0, n, ln = nd.kids[p[-1]], lst.get('slot', 'n'), lst.get('len', 'e')
            pn = p[:-1] + ('null',)
            g1 = {p: lambda x, v0=v0: simp0(v0 + x), pn: lambda x, v0=v0, n=n: simp0(v0 + x >= n)}
            out.append(g1)
            if z3.is_app(v0) and v0.decl().name() in self.inverses:
                pre = [v0.arg(i) for i in range(v0.num_args() - 1)]
                k0 = v0.arg(v0.num_args() - 1)
                f = v0.decl()
                out.insert(0, {p: lambda x, f=f, pre=pre, k0=k0: f(*pre, simp(k0 + x)), pn: lambda x, k0=k0, ln=ln: simp0(k0 + x >= ln)})
        return [{q: g for q, g in o.items() if q in uf and q not in closed} for o in out]

    def reach_patterns(self, contj, R_, j, j2):
        return []

    def fix_star(self, S0, p, nxt):
        """untyped or null location that the body gives a type: adopt the shape"""
        v = S0.store[p[0]]
        for k in p[1:]:
            v = v.kids[k]
        w = nxt.store[p[0]]
        for k in p[1:]:
            w = w.kids[k]
        if v.kind == 'any':
            new = w.map(lambda leaf: self.fresh_like(leaf, 'undef'))
        elif v.kind == 'ptr' and v.static is None and w.kind == 'ptr':
            new = w.map(lambda leaf: self.fresh_like(leaf, 'undef')).put(('null',), v.kids['null'])
        else:
            return False
        if len(p) == 1:
            S0.store[p[0]] = new
        else:
            S0.store[p[0]] = putnode(S0.store[p[0]], p[1:], new)
        return True

    def scalar_closed(self, a, b, v0, it, dep_it, isuf, skol):
        if a.eq(b):
            return lambda x: v0
        srt = a.sort()
        if srt == I or srt == R:
            d = simp(b - a)
            if not dep_it(d):
                if srt == I:
                    return lambda x: simp0(v0 + d * x)
                if self.fpmode == 'real':
                    return lambda x: simp0(v0 + d * z3.ToReal(x))
                return None
        if z3.is_bv(a):
            d = simp(b - a)
            if not dep_it(d):
                return lambda x: simp0(v0 + d * z3.Int2BV(x, a.size()))
        if srt == R and self.fpmode == 'real' and consts_in(b, isuf):
            r = None if getattr(self, "noseries", False) else self.series(a, b, v0, it, isuf)
            if r is not None:
                return r
        if not consts_in(b, isuf):
            if simp(z3.substitute(b, (it, z3.IntVal(-1)))).eq(simp(v0)):
                return lambda x: simp0(z3.substitute(b, (it, simp(x - 1))))

            def g(x):
                return If(simp(x == 0), v0, z3.substitute(b, (it, simp(x - 1))))
            return g
        if srt == I and not getattr(self, 'nocount', False):
            def delta(y):
                if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE:
                    return simp(If(y.arg(0), delta(y.arg(1)), delta(y.arg(2))))
                return simp(y - a)
            r = self.count_form(a, delta(simp(b)), it, isuf)
            if r is not None:
                dd, cnt = r
                return lambda x: simp0(v0 + dd * cnt(x))
        return None

    def series(self, a, b, v0, it, isuf):
        """accumulators: each iteration adds (multiplies by) a term that depends on the iteration only"""
        import lib as L_
        try:
            pa, pb = poly.nf(a), poly.nf(b)
        except poly.TooBig:
            return None
        d = poly.build(poly.add(pb, pa, -1))
        if not consts_in(d, isuf):
            S = L_.sumfun(self, lambda k: z3.substitute(d, (it, k)))
            return lambda x: v0 + S(x)
        if len(pa) != 1:
            return None
        (m, c), = pa.items()
        if len(m) != 1 or m[0][1] != 1 or c != 1:
            return None
        q = {}
        for n, cn in pb.items():
            e = dict(n)
            if e.get(m[0][0]) != 1:
                return None
            del e[m[0][0]]
            q[tuple(sorted(e.items()))] = cn
        f = poly.build(q)
        if consts_in(f, isuf):
            return None
        S = L_.sumfun(self, lambda k: z3.substitute(f, (it, k)), '*')
        return lambda x: v0 * S(x)

    def count_form(self, a, d, it, isuf):
        """d is 'if c(it) then step else 0' with c depending on the iteration only: (step, number of earlier iterations with c)"""
        if z3.is_mul(d) and d.num_args() == 2 and num(d.arg(0)) is not None and z3.is_app(d.arg(1)):
            r = self.count_form(a, d.arg(1), it, isuf)
            return None if r is None else (d.arg(0) * r[0], r[1])
        if z3.is_add(d):
            # k + ite(c, x, y): push the constant in
            cs = [x for x in d.children() if num(x) is None]
            if len(cs) == 1 and z3.is_app(cs[0]) and cs[0].decl().kind() == z3.Z3_OP_ITE:
                k = simp(d - cs[0])
                c, x, y = cs[0].children()
                d = If(c, simp(x + k), simp(y + k))
        if not (z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE):
            return None
        c, x, y = d.children()
        if num(x) == 0:
            c, x, y = simp(Not(c)), y, x
        if num(y) != 0 or num(x) is None or consts_in(c, isuf):
            return None
        return x, self.count(c, it)

    def count(self, c, it):
        """cnt(x): the number of 0 <= j < x with c(j); sel(j): the iteration with exactly j such iterations before it"""
        c = simp(c)
        key = c.get_id()
        ent = self.cnts.get(key)
        if ent is None:
            self.ncnt = getattr(self, 'ncnt', 0) + 1
            gs = list(self.ghosts)
            nm = '%scnt!%d' % (self.tag, self.ncnt)
            cf = z3.Function(nm, *([I] * (len(gs) + 1)), I)
            sf = z3.Function(nm + '.sel', *([I] * (len(gs) + 1)), I)
            cnt = lambda x: cf(*gs, x)
            sel = lambda x: sf(*gs, x)
            C = lambda x: simp(z3.substitute(c, (it, x)))
            j, k, x = z3.Int('cn!j'), z3.Int('cn!k'), z3.Int('cn!x')
            facts = [cnt(z3.IntVal(0)) == 0,
                     z3.ForAll([x], Implies(x >= 0, And(cnt(x) >= 0, cnt(x) <= x, cnt(x + 1) == cnt(x) + If(C(x), z3.IntVal(1), z3.IntVal(0)))), patterns=[cnt(x)]),
                     z3.ForAll([j, k], Implies(And(j >= 0, j <= k), And(cnt(j) <= cnt(k), cnt(k) - cnt(j) <= k - j)), patterns=[z3.MultiPattern(cnt(j), cnt(k))]),
                     z3.ForAll([x], Implies(And(x >= 0, C(x)), sel(cnt(x)) == x), patterns=[cnt(x)]),
                     z3.ForAll([j, x], Implies(And(x >= 0, j >= 0, j < cnt(x)), And(sel(j) >= 0, sel(j) < x, C(sel(j)), cnt(sel(j)) == j)), patterns=[z3.MultiPattern(sel(j), cnt(x))]),
                     z3.ForAll([j, k, x], Implies(And(x >= 0, j >= 0, j < k, k < cnt(x)), sel(j) < sel(k)), patterns=[z3.MultiPattern(sel(j), sel(k), cnt(x))])]
            self.inverses[nm] = (lambda pre, k, X: And(k >= 0, k < cnt(X)) if X is not None else And(k >= 0, sel(k) >= 0, C(sel(k)), cnt(sel(k)) == k), lambda pre, k: sel(k))
            self.inverses[nm + '.sel'] = (lambda pre, k, X: And(k >= 0, C(k), *below(cnt(k), X)), lambda pre, k: cnt(k))
            Xs = []
            self.selof[nm + '.sel'] = (cnt, C)
            self.cntX[nm] = Xs
            self.ground[nm] = lambda x: Implies(x >= 0, And(cnt(x) >= 0, cnt(x) <= x, Implies(C(x), sel(cnt(x)) == x)))
            self.ground[nm + '.sel'] = lambda y: And(*[Implies(And(y >= 0, y < cnt(X), X >= 0), And(sel(y) >= 0, sel(y) < X, C(sel(y)), cnt(sel(y)) == y)) for X in Xs[-4:]])
            ent = (c, cnt, facts, sel, C, nm)
            self.cnts[key] = ent
        have = {f.get_id() for f in self.facts[-4000:]}
        for f in ent[2]:
            if f.get_id() not in have:
                self.facts.append(f)
        return ent[1]

    def invert(self, x, it, dep_it):
        """(in_range(k, X), iteration_of(k)) with k = x(it) for an injective index term x"""
        if x.eq(it):
            return (lambda k, X: And(k >= 0, k < X)), (lambda k: k)
        d = simp(x - it)
        if not dep_it(d):
            return (lambda k, X: And(k - d >= 0, k - d < X)), (lambda k: simp0(k - d))
        if z3.is_app(x) and x.num_args() >= 1 and x.decl().name() in self.inverses and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            pre = [x.arg(i) for i in range(x.num_args() - 1)]
            if any(dep_it(a) for a in pre):
                return None
            inr, inv = self.inverses[x.decl().name()]
            y = x.arg(x.num_args() - 1)
            if y.eq(it):
                return (lambda k, X: inr(pre, k, X)), (lambda k: simp0(inv(pre, k)))
            r = self.invert(y, it, dep_it)
            if r is None:
                return None
            return (lambda k, X: And(inr(pre, k, None), r[0](inv(pre, k), X))), (lambda k: r[1](inv(pre, k)))
        if z3.is_add(x) or z3.is_mul(x) or z3.is_sub(x):
            terms = [a for a in (x.children() if z3.is_add(x) else [x]) if dep_it(a)]
            if len(terms) != 1:
                return None
            t = terms[0]
            m = 1
            if z3.is_mul(t):
                ns = [num(a) for a in t.children() if num(a) is not None]
                ys = [a for a in t.children() if num(a) is None]
                if len(ns) != 1 or len(ys) != 1:
                    return None
                m, t = ns[0], ys[0]
            rest = simp(x - m * t)
            if dep_it(rest):
                return None
            if m in (1, -1):
                r = self.invert(t, it, dep_it)
                if r is None:
                    return None
                f = (lambda k: simp0((k - rest) * m))
                return (lambda k, X: r[0](f(k), X)), (lambda k: r[1](f(k)))
        return None

    def stride(self, xs, it, dep_it):
        """several writes per iteration at affine indices of one stride, possibly below common injective
        functions: (in_range, iteration_of)"""
        if all(z3.is_app(x) and x.num_args() >= 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in self.inverses for x in xs) \
                and all(x.decl().eq(xs[0].decl()) for x in xs):
            na = xs[0].num_args() - 1
            pre = [xs[0].arg(i) for i in range(na)]
            if any(dep_it(a) for a in pre) or any(not x.arg(i).eq(pre[i]) for x in xs for i in range(na)):
                return None
            inr, inv = self.inverses[xs[0].decl().name()]
            r = self.stride([simp(x.arg(na)) for x in xs], it, dep_it)
            if r is None:
                return None
            return (lambda k, X: And(inr(pre, k, None), r[0](inv(pre, k), X))), (lambda k: r[1](inv(pre, k)))
        base = None
        offs = []
        m0 = None
        for x in xs:
            m = simp(z3.substitute(x, (it, it + 1)) - x)
            m = num(m)
            if m is None or m == 0 or (m0 is not None and m != m0):
                return None
            m0 = m
            d = simp(x - m * it)
            if dep_it(d):
                return None
            if base is None:
                base = d
            o = num(simp(d - base))
            if o is None:
                return None
            offs.append(o)
        lo = min(offs)
        if max(offs) - lo >= abs(m0):
            return None
        b = simp(base + lo)
        if m0 > 0:
            return (lambda k, X: And(k - b >= 0, k - b < m0 * X)), (lambda k: simp0((k - b) / m0))
        m = -m0
        b2 = simp(b + m - 1)      # counts down: k in (b + m - 1 - m*X, b + m - 1]
        return (lambda k, X: And(b2 - k >= 0, b2 - k < m * X)), (lambda k: simp0((b2 - k) / m))

    def index_of(self, p, wr, it, dep_it):
        """(position, in_range(k,x), iteration_of(k)) for the writes under leaf path p"""
        found = None
        for loc, v in wr:
            if isinstance(loc, View) or loc.root != p[0]:
                continue
            q = [p[0]]
            idx = []
            for kind, x in loc.path:
                if kind == 'f':
                    q.append(x)
                else:
                    q.append('el')
                    idx.append(x)
            q = tuple(q)
            if p[:len(q)] != q:
                continue
            if not idx:
                if DBG:
                    print('whole write', p, file=sys.stderr)
                return None
            pos = None
            for j, x in enumerate(idx):
                x = simp(x)
                if dep_it(x):
                    if pos is not None:
                        if DBG:
                            print('two varying indices', p, idx, file=sys.stderr)
                        return None
                    pos = (j, x)
            if DBG and len(idx) > 1:
                print('write', p, idx, 'pos', pos, file=sys.stderr)
            if pos is None:
                ix = [simp(x) for x in idx]
                if found is None:
                    found = ('cell', ix)
                elif found[0] != 'cell' or len(found[1]) != len(ix) or not all(a.eq(b) for a, b in zip(found[1], ix)):
                    return None
                continue
            if found is None:
                found = (pos[0], [pos[1]])
            elif found[0] != pos[0]:
                return None
            elif not any(f.eq(pos[1]) or is_true(simp(f == pos[1])) for f in found[1]):
                found[1].append(pos[1])
        if found is None:
            return None
        j, xs = found
        if j == 'cell':
            return found
        if xs[0].sort() != I:
            return None
        if len(xs) == 1:
            r = self.invert(xs[0], it, dep_it)
            if r is None:
                r = self.stride(xs, it, dep_it)
        else:
            r = self.stride(xs, it, dep_it)
        if r is None:
            if DBG:
                print('index not inverted', p, xs, file=sys.stderr)
            return None
        return (j, r[0], r[1], xs)

    def fixed_index(self, p, wr, dep_it, ar):
        """positions at which all writes under leaf path p have one index that does not depend on the iteration"""
        fx = None
        for loc, v in wr:
            if isinstance(loc, View) or loc.root != p[0]:
                continue
            q, idx = [p[0]], []
            for kind, x in loc.path:
                q.append(x if kind == 'f' else 'el')
                if kind != 'f':
                    idx.append(simp(x))
            n = min(len(q), len(p))
            if tuple(q[:n]) != p[:n]:
                continue
            here = {j: x for j, x in enumerate(idx[:ar]) if not dep_it(x)}
            fx = here if fx is None else {j: x for j, x in fx.items() if j in here and x.eq(here[j])}
        return fx

    def array_closed(self, S0, H, cand, closed, uf, it, run, hav_base):
        cand = dict(cand)
        for _ in range(6):
            if not cand:
                return {}
            over = {p: (lambda x, p=p: self.leaf_at(S0, p)) for p in cand}
            (nxt, ex, c, s_), wr, fs = run(H(it, over))
            if nxt is None:
                return {}
            forms = {}
            gvals = {}
            for p, (pos, inr, inv, wx) in cand.items():
                G = gvals[p] = self.leaf_at(nxt, p)
                a0 = self.leaf_at(S0, p)
                if not isinstance(G, L):
                    continue

                def form(x, G=G, a0=a0, inr=inr, inv=inv, pos=pos):
                    return L(a0.ar, lambda *i: If(simp(inr(i[pos], x)), self.tidy(subst_at(G, i, it, inv(i[pos])), i[pos], inv(i[pos])), a0(*i)))
                forms[p] = form
            St = H(it, forms)
            (nxt, ex, c, s_), wr, fs = run(St)
            bad = []
            for p, form in forms.items():
                a0 = self.leaf_at(S0, p)
                ks = [z3.Int('vk!%d' % j) for j in range(a0.ar)]
                pos, inr, inv, wx = cand[p]
                fcts = list(self.facts) + fs + [f_closed(f, it) for f in fs]
                # the elements written in this iteration
                ok = True
                for w in wx:
                    kw = list(ks)
                    kw[pos] = w
                    G = gvals[p]
                    ok = ok and ((self.check_valid(fcts, nxt.pc, self.leaf_at(nxt, p)(*kw) == G(*kw)) and
                                  self.check_valid(fcts, nxt.pc, And(inv(w) == it, inr(w, simp(it + 1))))) or
                                 self.check_valid(fcts, nxt.pc, self.leaf_at(nxt, p)(*kw) == form(simp(it + 1))(*kw)))
                # all the others
                if ok:
                    lhs = self.leaf_at(nxt, p)(*ks)
                    rhs = form(simp(it + 1))(*ks)
                    ok = self.check_valid(fcts, nxt.pc + tuple(ks[pos] != w for w in wx), lhs == rhs)
                if not ok:
                    bad.append(p)
                    if DBG:
                        print('closed form rejected', p, file=sys.stderr)
                        print('   ', self.leaf_at(nxt, p)(*kw), file=sys.stderr)
                        print('   ', form(simp(it + 1))(*kw), file=sys.stderr)
            if not bad:
                return forms
            for p in bad:
                cand.pop(p)
        return {}

    def tidy(self, t, k, iv):
        """t at iteration iv, which is the one that wrote element k: what holds of the k-th selected iteration is known"""
        if not (z3.is_app(iv) and iv.decl().name() in self.selof):
            return t
        cnt, C = self.selof[iv.decl().name()]
        y = iv.arg(iv.num_args() - 1)
        t = simp0(t)
        r = z3.substitute(t, (cnt(iv), y), (C(iv), z3.BoolVal(True)))
        return t if r.eq(t) else simp(r)

    def check_valid(self, facts, pc, goal, timeout=3000):
        if is_true(simp(goal)):
            return True
        # loops inside loops are analysed again and again: the same question has the same answer
        cache = self.__dict__.setdefault('valid_cache', {})
        key = (frozenset(f.get_id() for f in facts), tuple(c.get_id() for c in pc), goal.get_id())
        if key not in cache:
            cache[key] = (self.check_valid_(facts, pc, goal, timeout), list(facts), list(pc), goal)     # kept alive: ids stay unique
        else:
            self.vhits = getattr(self, 'vhits', 0) + 1
        return cache[key][0]

    def check_valid_(self, facts, pc, goal, timeout):
        t0 = time.time()
        qf, qp = [f for f in facts if not has_quant(f)], [c for c in pc if not has_quant(c)]
        ext = self.instances(goal, *qp)
        if ext and solve.quick(qf + ext, qp, goal, timeout) == 'unsat':
            self.qtime += time.time() - t0
            return True
        r = solve.quick_abs(qf, qp, goal, timeout)
        if r != 'unsat':
            r = solve.quick([], [], goal, 500)
        if r != 'unsat':
            r = solve.quick(qf, qp, goal, timeout)
        if r != 'unsat':
            r = solve.quick_abs(facts, pc, goal, timeout)
        if r != 'unsat':
            r = solve.quick(facts, pc, goal, timeout)
        self.qtime += time.time() - t0
        return r == 'unsat'

    def exit_closed(self, S0, H, it, c, closed, dep_it):
        """number of iterations of a loop guarded by 'counter < bound'"""
        if DBG:
            print('loop condition', c, file=sys.stderr)
        r = self.exit_form(S0, it, c, dep_it)
        if r is not None or not (z3.is_app(c) and c.num_args() and c.num_args() <= 2) or c.sort() != B:
            return r
        # a combination of comparisons that is equivalent to one of them
        atoms, todo = [], [c]
        while todo:
            x = todo.pop()
            if z3.is_and(x) or z3.is_or(x) or z3.is_not(x):
                todo.extend(x.children())
            elif z3.is_app(x) and x.num_args() == 2 and x.decl().name() in ('<=', '<', '>=', '>', '='):
                atoms.append(x)
        if len(atoms) > 8 or not (z3.is_and(c) or z3.is_or(c) or z3.is_not(c)):
            return None
        for a in atoms:
            for y in (a, Not(a)):
                E = self.exit_form(S0, it, y, dep_it)
                if E is not None and self.check_valid([f for f in self.facts if not has_quant(f)], S0.pc + (it >= 0, it <= E), c == (it < E), 400):
                    return E
        return None

    def exit_form(self, S0, it, e, dep_it):
        if z3.is_not(e) and (z3.is_le(e.arg(0)) or z3.is_ge(e.arg(0)) or z3.is_lt(e.arg(0)) or z3.is_gt(e.arg(0))):
            x = e.arg(0)
            a, b = x.arg(0), x.arg(1)
            if z3.is_le(x):
                l, r = b, a          # not a<=b : b < a
            elif z3.is_ge(x):
                l, r = a, b
            elif z3.is_lt(x):
                l, r = b, a + 1
            else:
                l, r = a, b + 1
        elif z3.is_lt(e):
            l, r = e.arg(0), e.arg(1)
        elif z3.is_gt(e):
            l, r = e.arg(1), e.arg(0)
        elif z3.is_le(e):
            l, r = e.arg(0), e.arg(1) + 1
        elif z3.is_ge(e):
            l, r = e.arg(1), e.arg(0) + 1
        elif z3.is_distinct(e) or (z3.is_not(e) and z3.is_eq(e.arg(0))):
            y = e if z3.is_distinct(e) else e.arg(0)
            a, b = y.arg(0), y.arg(1)
            if a.sort() != I:
                return None
            for l, r in ((a, b), (b, a)):
                d = simp(l - it)
                if not dep_it(d) and not dep_it(r):
                    E = simp(r - d)
                    # only if the bound is not already passed
                    if self.check_valid(self.facts, S0.pc, E >= 0, 1000):
                        return E
                m = num(simp(z3.substitute(l, (it, it + 1)) - l))
                if m is not None and abs(m) > 1 and not dep_it(r):
                    d = simp((r - l) + m * it) if m > 0 else simp((l - r) - m * it)
                    if not dep_it(d) and self.check_valid(self.facts, S0.pc, And(d >= 0, d % abs(m) == 0), 1000):
                        return simp(d / abs(m))
            return None
        else:
            return None
        if l.sort() != I or r.sort() != I:
            return None
        d = simp(r - l + it)         # iterations allowed
        if dep_it(d):
            return None
        if num(d) is not None:
            return z3.IntVal(max(0, num(d)))
        if self.check_valid([f for f in self.facts if not has_quant(f)], S0.pc, d >= 0, 300):
            return d
        return If(d >= 0, d, z3.IntVal(0))

    def subst_state(self, S, it, x):
        iv = it.decl().name()

        def f(leaf):
            if isinstance(leaf, L):
                if not consts_in(leaf(*[z3.Const('ps!%d' % j, I) for j in range(leaf.ar)]), lambda nm: nm == iv):
                    return leaf
                return L(leaf.ar, lambda *i: subst_at(leaf, i, it, x))
            return z3.substitute(leaf, (it, x))
        memo = {}
        store = {}
        for r, v in S.store.items():
            store[r] = self._sub(v, f, memo)
        return State(store, tuple(z3.substitute(c, (it, x)) for c in S.pc))

    def _sub(self, v, f, memo):
        k = id(v)
        if k in memo:
            return memo[k][1]
        kids = {}
        ch = False
        for n, w in v.kids.items():
            if isinstance(w, Node):
                r = self._sub(w, f, memo)
            elif isinstance(w, L):
                r = f(w)
            else:
                r = f(w)
                if r.eq(w):
                    r = w
            kids[n] = r
            ch = ch or r is not w
        r = Node(v.kind, v.static, kids) if ch else v
        memo[k] = (v, r)
        return r

    # ------------------------------------------------------------------ Houdini
    def houdini(self, S0, H, St, nxt, rest, it, R_, s, fs, loc, sc_, c, closed):
        cands = []
        for p in rest:
            v0 = self.leaf_at(S0, p)
            if isinstance(v0, L):
                continue
            get = lambda S, p=p: self.leaf_at(S, p)
            if v0.sort() == I:
                cands.append(('%s>=v0' % (p,), lambda S, x, get=get, v0=v0: get(S) >= v0))
                cands.append(('%s<=v0' % (p,), lambda S, x, get=get, v0=v0: get(S) <= v0))
                cands.append(('%s>=0' % (p,), lambda S, x, get=get: get(S) >= 0))
            if v0.sort() == B:
                cands.append(('%s==v0' % (p,), lambda S, x, get=get, v0=v0: get(S) == v0))
                cands.append(('not %s' % (p,), lambda S, x, get=get, v0=v0: Not(get(S))))
        # bounds the loop condition compares with
        atoms, todo = [], [c]
        while todo and len(atoms) < 12:
            x = todo.pop()
            if not z3.is_app(x):
                continue
            if x.num_args() == 2 and x.decl().name() in ('<=', '<', '>=', '>', '=', 'distinct') and x.arg(0).sort() == I:
                atoms.append(x)
            elif z3.is_bool(x):
                todo.extend(x.children())
        for p in rest:
            v0 = self.leaf_at(S0, p)
            if isinstance(v0, L) or v0.sort() != I:
                continue
            me = self.leaf_at(St, p)
            get = lambda S, p=p: self.leaf_at(S, p)
            for a in atoms:
                for u, w in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                    if num(w) is not None or consts_in(w, lambda nm: nm == it.decl().name()):
                        continue
                    if not (z3.is_app(me) and consts_in(u, lambda nm: nm == me.decl().name())):
                        continue
                    cands.append(('%s>=bound' % (p,), lambda S, x, get=get, w=w: get(S) >= w))
                    cands.append(('%s<=bound' % (p,), lambda S, x, get=get, w=w: get(S) <= w))
        for h in self.hints:
            for x in h(self, S0, H, rest, it, s, nxt) or []:
                cands.append(x)
        # keep those true initially
        ok = []
        for nm, g in cands:
            try:
                e = g(State(S0.store, S0.pc), z3.IntVal(0))
            except Exception as ex:
                if DBG:
                    print('hint', nm, ex, file=sys.stderr)
                continue
            if self.check_valid(self.facts, S0.pc, e, 3000):
                ok.append((nm, g))
        cur = ok
        while cur:
            hyp = [g(St, it) for _, g in cur]
            bad = []
            for nm, g in cur:
                goal = g(nxt, it + 1)
                facts = list(self.facts) + list(fs)
                if not self.check_valid(facts, nxt.pc + tuple(hyp), goal, 5000):
                    bad.append(nm)
                    if DBG and os.environ.get('VNI','best') in nm:
                        print('not inductive', nm, hyp, nxt.pc, 'GOAL', goal, [str(f)[:1500] for f in facts], file=sys.stderr)
            if not bad:
                break
            cur = [x for x in cur if x[0] not in bad]
        self.last_inv = [nm for nm, _ in cur]
        if DBG:
            print('invariants', loc, self.last_inv, 'of', [n for n, _ in cands], 'initially', [n for n, _ in ok], file=sys.stderr)
        return [lambda x, g=g: g(H(x), x) for _, g in cur]

    # ------------------------------------------------------------------ expressions
    def evb(self, e):
        v = self.ev(e)
        x = v.kids['e']
        if not z3.is_bool(x):
            x = self.to_bool(x)
        return x

    def to_bool(self, x):
        if z3.is_bool(x):
            return x
        if z3.is_bv(x):
            return x != 0
        if z3.is_fp(x):
            return z3.Not(z3.fpIsZero(x))
        return x != 0

    def ev(self, e, void=False):
        if e is None:
            return None
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expression %s %s' % (e['k'], e.get('what', '')))
        if e.get('lv'):
            l = self.lv(e)
            if void:
                return None
            return self.load(l)
        r = m(e)
        if isinstance(r, (Loc, View)):
            r = self.load(r)
        return r

    def lv(self, e):
        """location denoted by e (a temporary for prvalues)"""
        if e.get('lv') or e['k'] in ('call', 'cast', 'member', 'sub', 'cond', 'construct'):
            m = getattr(self, 'l_' + e['k'], None)
            if m is not None:
                r = m(e)
                if r is not None:
                    if isinstance(r, Node):
                        return self.new('tmp', r)
                    return r
        if e.get('lv') and getattr(self, 'l_' + e['k'], None) is None:
            raise Unsupported('lvalue ' + e['k'])
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expression %s %s' % (e['k'], e.get('what', '')))
        r = m(e)
        if isinstance(r, (Loc, View)):
            return r
        return self.new('tmp', r if r is not None else ANY)

    def e_int(self, e):
        d = self.P.ty(e['t'])
        v = int(e['v'])
        if d['k'] == 'bool':
            return sc(z3.BoolVal(v != 0))
        return sc(self.ival(v, d.get('w', 64)))

    def e_float(self, e):
        d = self.P.ty(e['t'])
        bits = int(e['bits'])
        if self.decimal and self.fpmode == 'real' and e['d'].lower().lstrip('+-')[:3] not in ('inf', 'nan'):
            # constants stand for the decimal numbers they are written as
            return self.ev(e['src']) if 'src' in e else sc(z3.RealVal(str(Fraction(repr(struct.unpack('<d', struct.pack('<Q', bits))[0]) if d['w'] == 64 else e['d']))))
        if d['w'] == 64:
            f = struct.unpack('<d', struct.pack('<Q', bits))[0]
        elif d['w'] == 32:
            f = struct.unpack('<f', struct.pack('<I', bits))[0]
        else:
            f = float(e['d'])
        return sc(self.fconst(f, d['w']))

    def fconst(self, f, w=64):
        if self.fpmode == 'fp':
            return z3.FPVal(f, z3.Float64() if w == 64 else z3.Float32())
        if f != f:
            return z3.Real('NAN')
        if f in (float('inf'), float('-inf')):
            inf = z3.Real('INF')
            return inf if f > 0 else -inf
        return self.fval(Fraction(f), w)

    def lookup(self, vid):
        for fr in reversed(self.frames):
            if vid in fr.env:
                return fr.env[vid]
        return None

    def l_var(self, e):
        l = self.lookup(e['id'])
        if l is not None:
            return l
        if 'cv' in e and e['cv']:
            return self.ev(e['cv'])
        if e.get('global'):
            g = self.lib.get(('global', e.get('base')))
            if g:
                return g(self, e)
        raise Unsupported('variable ' + e['name'])

    def e_var(self, e):
        return self.l_var(e)

    def e_this(self, e):
        return ptr_of(self.frames[-1].this)

    def e_null(self, e):
        return NULLP

    def e_str(self, e):
        return ANY

    l_str = e_str

    def e_valueinit(self, e):
        return self.zero(e['t'])

    def e_binding(self, e):
        return self.lv(e['e'])

    l_binding = e_binding

    def l_member(self, e):
        if e['arrow']:
            base = loc_of(self.resolve_ptr(self.ev(e['e'])))
            self.deref(base, e.get('loc', ''))
        else:
            base = self.lv(e['e'])
        return base.f(e['field'])

    e_member = l_member

    def l_sub(self, e):
        b = e['e']
        i = self.toidx(self.ev(e['i']).kids['e'])
        x = b
        while x['k'] == 'cast' and x['ck'] in ('ArrayToPointerDecay', 'NoOp'):
            x = x['e']
        if x is not b and x.get('lv'):
            l = self.lv(x)
            n = self.load(l, ())
            self.bound(i, n.kids['n'], e.get('loc', ''))
            return l.i(i)
        p = self.ev(b)
        l = self.ptr_add_loc(p, i)
        self.deref(l, e.get('loc', ''))
        return l

    e_sub = l_sub

    def bound(self, i, n, loc):
        if self.checks_bounds and not self.quiet:
            g = z3.ULT(i, n) if z3.is_bv(i) else And(i >= 0, i < n)
            self.oblige('index in bounds', simp(g), loc, 'bounds')

    # ---- allocated storage: all blocks of one element type live in one root, numbered by allocation
    def heap(self, t):
        t = self.P.strip(t)
        nm = 'heap<%s>' % self.P.ty(t)['s']
        if nm not in self.st.store:
            if self.frames:
                raise Unsupported('allocation of a type the contract does not expect: ' + nm)
            nx = z3.Int(nm + '.next')
            self.fact(nx >= 0)
            d = self.sym(t, nm, 2)
            n = z3.Function(nm + '.n', I, I)
            live = z3.Function(nm + '.live', I, B)
            x = z3.Int('hx')
            self.fact(z3.ForAll([x], n(x) >= 0, patterns=[n(x)]))
            el = Node('st', 'blk', {'live': sc(L(1, lambda i: live(i))), 'd': Node('arr', (t, 'array', None), {'n': L(1, lambda i: n(i)), 'el': d})})
            self.st.store[nm] = Node('st', 'heap', {'next': sc(nx), 'obj': Node('arr', (t, 'vector', None), {'n': z3.IntVal(1 << 62), 'el': el})})
            self.heaps[nm] = t
        return Loc(nm)

    def heap_ptr(self, t, i, k, null=None):
        return ptr_of(self.heap(t).f('obj').i(i).f('d').i(k), null)

    def deref(self, l, loc=''):
        """obligation of an access through a raw pointer"""
        if self.quiet or not self.checks_bounds or isinstance(l, View) or not l.path or l.path[-1][0] != 'i' or l.root.startswith('tmp'):
            return
        par = self.load(Loc(l.root, l.path[:-1]), ())
        if par.kind != 'arr':
            return
        k = l.path[-1][1]
        if len(l.path) >= 2 and l.path[-2] == ('f', 'slot'):
            d = self.load(Loc(l.root, l.path[:-2] + (('f', 'dead'),)), ())
            self.oblige('access to a living list element', And(k >= 0, k < par.kids['n'], Not(d.get('el', 'e')(k))), loc or self.curloc, 'memory')
            return
        if l.root.startswith('heap<'):
            b = self.load(Loc(l.root, l.path[:2]), ())
            self.oblige('access to allocated storage', And(b.get('live', 'e'), k >= 0, k < par.kids['n']), loc or self.curloc, 'memory')
        elif self.memchecks:
            self.bound(k, par.kids['n'], loc or self.curloc)

    def resolve(self, x):
        """an index term without the case distinctions the path condition decides"""
        for _ in range(8):
            x = simp(x)
            if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE):
                break
            c = x.arg(0)
            ext = self.instances(c)
            if self.discover or consts_in(c, lambda nm: nm.split('L')[-1].split('.')[-1].startswith('h_')):
                if self.discover or not self.provable(c, 200):
                    break
            if ext and self.provable(c, 400, extra=ext):
                x = x.arg(1)
            elif ext and self.provable(Not(c), 200, extra=ext):
                x = x.arg(2)
            elif self.provable(c, 200) or self.provable(c, 400, qf=False):
                x = x.arg(1)
            elif self.provable(Not(c), 200) or self.provable(Not(c), 400, qf=False):
                x = x.arg(2)
            else:
                break
        return x

    def instances(self, *es):
        """ground instances of the facts about permutations and selections that occur in the terms (two rounds)"""
        if not self.ground:
            return []
        seen = set()
        a = self._instances(es, seen)
        return a + self._instances(a, seen)

    def _instances(self, es, seen):
        out = []
        todo = list(es)
        gs = list(self.ghosts)
        while todo:
            x = todo.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in self.ground:
                out.append(self.ground[x.decl().name()](x.arg(x.num_args() - 1)))
            todo.extend(x.children())
        return out

    def resolve_ptr(self, p):
        if p.kind != 'ptr':
            return p
        return Node('ptr', p.static, {k: (self.resolve(x) if k != 'null' else x) for k, x in p.kids.items()})

    def construct_default(self, t):
        """value of T() including a default constructor of the library"""
        t = self.P.strip(t)
        d = self.P.ty(t)
        if d['k'] != 'rec':
            return self.zero(t)
        this = self.new('obj', self.default(t))
        import lib as L_
        c = L_.find_ctor(self, t, 0, False)
        if c is not None:
            self.call_fn(c, [], this=this)
        return self.load(this)

    def ptr_add_loc(self, p, i):
        l = loc_of(p)
        if isinstance(l, Loc) and l.path and l.path[-1][0] == 'i':
            return Loc(l.root, l.path[:-1] + (('i', simp0(l.path[-1][1] + i)),))
        if num(i) == 0:
            return l
        raise Unsupported('pointer arithmetic')

    def l_un(self, e):
        op = e['op']
        if op == '*':
            v = self.ev(e['e'])
            if v.kind == 'ptr':
                self.oblige('dereference of non-null pointer', Not(v.kids['null']), '', 'null')
                l = loc_of(self.resolve_ptr(v))
                self.deref(l, e.get('loc', ''))
                return l
            if v.kind == 'fn':
                return self.new('fn', v)
            if v.kind == 'any':
                raise Unsupported('dereference of unknown pointer')
            raise Unsupported('deref of ' + v.kind)
        if op in ('++', '--'):
            l = self.lv(e['e'])
            self.incdec(l, op, self.P.strip(e['e']['t']))
            return l
        return self.e_un(e)

    def incdec(self, l, op, t):
        v = self.load(l)
        if v.kind == 'ptr':
            d = z3.IntVal(1 if op == '++' else -1)
            self.store(l, ptr_of(self.ptr_add_loc(v, d)))
            return
        x = v.kids['e']
        w = self.P.ty(t).get('w', 64)
        if self.P.ty(t)['k'] == 'fp':
            one = self.fval(Fraction(1), w)
            self.store(l, sc(self.farith('+' if op == '++' else '-', x, one, w)))
            return
        self.store(l, sc(self.iarith('+' if op == '++' else '-', x, self.ival(1, w), t)))

    def e_un(self, e):
        op = e['op']
        if op in ('++', '--'):
            l = self.lv(e['e'])
            old = self.load(l)
            self.incdec(l, op, self.P.strip(e['e']['t']))
            return old if e['post'] else self.load(l)
        if op == '&':
            if e['e']['k'] == 'fnref':
                return self.ev(e['e'])
            l = self.lv(e['e'])
            if isinstance(l, View):
                raise Unsupported('address of view')
            v = self.st.store.get(l.root)
            return ptr_of(l)
        if op == '*':
            return self.l_un(e)
        v = self.ev(e['e'])
        x = v.kids['e']
        t = self.P.strip(e['t'])
        d = self.P.ty(t)
        if op == '!':
            return sc(Not(self.to_bool(x)))
        if op == '-':
            if d['k'] == 'fp':
                return sc(-x if not z3.is_fp(x) else z3.fpNeg(x))
            return sc(self.iarith('-', self.ival(0, d.get('w', 64)), x, t))
        if op == '+':
            return v
        if op == '~':
            if z3.is_bv(x):
                return sc(~x)
            return sc(simp0((1 << d['w']) - 1 - x) if not d['sg'] else simp0(-x - 1))
        raise Unsupported('unary ' + op)

    # ---- casts
    def l_cast(self, e):
        ck = e['ck']
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'ConstructorConversion', 'UserDefinedConversion', 'Dependent'):
            if ck.endswith('DerivedToBase') and self.to_seq(e):
                l = self.lv(e['e'])
                return l.f('$seq') if isinstance(l, Loc) else l
            return self.lv(e['e'])
        if ck == 'LValueToRValue':
            return None
        return None

    def to_seq(self, e):
        """conversion of a record derived from std::vector to its vector part"""
        def rec(t):
            d = self.P.ty(self.P.strip(t))
            return self.P.ty(self.P.strip(d['to'])) if d['k'] == 'ptr' else d
        a, b = rec(e['e']['t']), rec(e['t'])
        return b['k'] == 'rec' and b.get('name') == 'std::vector' and a['k'] == 'rec' and a.get('name') != 'std::vector'

    def e_cast(self, e):
        ck = e['ck']
        if ck == 'ToVoid':
            self.ev(e['e'], void=True)
            return None
        if ck == 'LValueToRValue':
            return self.ev(e['e'])
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion',
                  'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BitCast', 'LValueBitCast', 'Dependent'):
            if ck.endswith('DerivedToBase') and self.to_seq(e):
                v = self.ev(e['e'])
                return ptr_of(loc_of(self.resolve_ptr(v)).f('$seq'), v.kids['null']) if v.kind == 'ptr' else v.kids['$seq']
            return self.ev(e['e'])
        if ck == 'NullToPointer':
            return NULLP
        if ck == 'ArrayToPointerDecay':
            l = self.lv(e['e'])
            v = self.load(l)
            if v.kind == 'any':
                return ANY
            return ptr_of(l.i(self.ival(0)))
        v = self.ev(e['e'])
        if ck == 'PointerToBoolean':
            if v.kind == 'fn':
                return sc(v.kids['ok'] if 'ok' in v.kids else z3.BoolVal(True))
            return sc(Not(v.kids['null']))
        x = v.kids['e']
        ft = self.P.ty(self.P.strip(e['e']['t']))
        tt = self.P.ty(self.P.strip(e['t']))
        return sc(self.conv(x, ft, tt))

    def conv(self, x, ft, tt):
        """scalar conversion between type descriptors"""
        fk, tk = ft['k'], tt['k']
        if tk == 'bool':
            return self.to_bool(x)
        if tk in ('int', 'enum'):
            if fk == 'bool':
                return If(x, self.ival(1, tt['w']), self.ival(0, tt['w']))
            if fk in ('int', 'enum'):
                if self.intmode == 'bv':
                    fw, tw = x.size(), tt['w']
                    if tw == fw:
                        return x
                    if tw < fw:
                        return z3.Extract(tw - 1, 0, x)
                    return z3.SignExt(tw - fw, x) if ft['sg'] else z3.ZeroExt(tw - fw, x)
                return self.wrap(x, ft, tt)
            if fk == 'fp':
                if self.intmode == 'bv':
                    raise Unsupported('fp to bv')
                n = num_real(x)
                if n is not None:
                    return z3.IntVal(int(n))
                y = If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
                if self.provable(x >= 0, 300):
                    y = z3.ToInt(x)
                return y
        if tk == 'fp':
            if fk == 'bool':
                return If(x, self.fval(Fraction(1)), self.fval(Fraction(0)))
            if fk in ('int', 'enum'):
                if self.fpmode == 'fp':
                    raise Unsupported('int to fp')
                if self.intmode == 'bv':
                    x = z3.BV2Int(x, ft['sg'])
                n = num(x)
                if n is not None:
                    return self.rnd(self.fval(Fraction(n)), tt['w'])
                return self.rnd(z3.ToReal(x), tt['w'])
            if fk == 'fp':
                if tt['w'] < ft['w']:
                    return self.rnd(x, tt['w'])
                return x
        raise Unsupported('conversion %s -> %s' % (ft['s'], tt['s']))

    def wrap(self, x, ft, tt):
        n = num(x)
        w = tt['w']
        if n is not None:
            n &= (1 << w) - 1
            if tt['sg'] and n >= 1 << (w - 1):
                n -= 1 << w
            return z3.IntVal(n)
        if tt['k'] == 'enum' or ft['k'] == 'enum':
            return x
        if ft['w'] == w and ft['sg'] == tt['sg']:
            return x
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if tt['sg'] else (0, (1 << w) - 1)
        flo, fhi = (-(1 << (ft['w'] - 1)), (1 << (ft['w'] - 1)) - 1) if ft['sg'] else (0, (1 << ft['w']) - 1)
        if flo >= lo and fhi <= hi:
            return x
        # the source value is representable in its own type (signed overflow excluded)
        inr = And(x >= lo if flo < lo else z3.BoolVal(True), x <= hi if fhi > hi else z3.BoolVal(True))
        if self.provable(inr, 300):
            return x
        if tt['sg']:
            m = x % (1 << w)
            return If(inr, x, If(m > hi, m - (1 << w), m))
        if flo < lo and fhi <= hi:
            return If(inr, x, x + (1 << w))
        return If(inr, x, x % (1 << w))

    def rnd(self, x, w):
        if self.fpmode != 'rnd':
            return x
        f = z3.Function('rnd%d' % w, R, R)
        return f(x)

    # ---- arithmetic
    def e_bin(self, e):
        op = e['op']
        if op == '=':
            return self.l_bin(e)
        if op == ',':
            self.ev(e['l'], void=True)
            return self.ev(e['r'])
        if op in ('&&', '||'):
            a = self.evb(e['l'])
            if op == '&&':
                r = self.branch(a, lambda: sc(self.evb(e['r'])), lambda: sc(z3.BoolVal(False)))
            else:
                r = self.branch(a, lambda: sc(z3.BoolVal(True)), lambda: sc(self.evb(e['r'])))
            return r
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            return self.l_bin(e)
        a = self.ev(e['l'])
        b = self.ev(e['r'])
        return self.binop(op, a, b, self.P.strip(e['l']['t']), self.P.strip(e['t']))

    def binop(self, op, a, b, lt, rt):
        if a.kind == 'ptr' or b.kind == 'ptr':
            return self.ptrop(op, a, b)
        if a.kind == 'fn' or b.kind == 'fn':
            f = a if a.kind == 'fn' else b
            ok = f.kids.get('ok', z3.BoolVal(True))
            return sc(Not(ok) if op == '==' else ok)
        if a.kind != 'sc' or b.kind != 'sc':
            raise Unsupported('operator %s on %s,%s' % (op, a.kind, b.kind))
        x, y = a.kids['e'], b.kids['e']
        ld = self.P.ty(lt)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return sc(self.cmp(op, x, y, ld))
        rd = self.P.ty(rt)
        if rd['k'] == 'fp':
            return sc(self.farith(op, x, y, rd['w']))
        return sc(self.iarith(op, x, y, rt))

    def ptrop(self, op, a, b):
        if op in ('==', '!='):
            if a.static is None and b.static is None:
                r = Eq(a.kids['null'], b.kids['null'])
            elif a.static is None or b.static is None:
                p, q = (a, b) if a.static is None else (b, a)
                r = And(p.kids['null'], q.kids['null'])
            elif a.static == b.static:
                r = And(Eq(a.kids['null'], b.kids['null']),
                        Or(a.kids['null'], And(*[Eq(a.kids[k], b.kids[k]) for k in a.kids if k != 'null'])))
            else:
                r = And(a.kids['null'], b.kids['null'])
            return sc(r if op == '==' else Not(r))
        if op in ('+', '-') and a.kind == 'ptr' and b.kind == 'sc':
            i = self.toidx(b.kids['e'])
            return ptr_of(self.ptr_add_loc(a, i if op == '+' else -i))
        if op == '+' and b.kind == 'ptr':
            return ptr_of(self.ptr_add_loc(b, self.toidx(a.kids['e'])))
        if op == '-' and (a.static is None or b.static is None):
            return sc(self.ival(0))
        if op == '-' and a.static == b.static:
            la, lb = loc_of(a), loc_of(b)
            for x, y in list(zip(la.path, lb.path))[:-1]:
                if x[0] == 'i' and not x[1].eq(y[1]):
                    self.oblige('pointer difference within one object', Or(a.kids['null'], x[1] == y[1]), self.curloc, 'memory')
            return sc(If(And(a.kids['null'], b.kids['null']), self.ival(0), simp0(la.path[-1][1] - lb.path[-1][1])))
        if op in ('<', '<=', '>', '>=') and a.static == b.static:
            la, lb = loc_of(a), loc_of(b)
            return sc(self.cmp(op, la.path[-1][1], lb.path[-1][1], {'k': 'int', 'sg': True}))
        raise Unsupported('pointer operator ' + op)

    def cmp(self, op, x, y, d):
        if z3.is_bool(x) and not z3.is_bool(y):
            x = If(x, y.sort().cast(1), y.sort().cast(0))
        if z3.is_bool(y) and not z3.is_bool(x):
            y = If(y, x.sort().cast(1), x.sort().cast(0))
        if op == '==':
            return Eq(x, y)
        if op == '!=':
            return Not(Eq(x, y))
        if z3.is_bv(x) and not d.get('sg'):
            return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](x, y)
        if z3.is_bool(x):
            x = If(x, z3.IntVal(1), z3.IntVal(0))
            y = If(y, z3.IntVal(1), z3.IntVal(0))
        if op == '<':
            return x < y
        if op == '<=':
            return x <= y
        if op == '>':
            return x > y
        return x >= y

    def farith(self, op, x, y, w=64):
        if z3.is_fp(x):
            rm = z3.RNE()
            return {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op](rm, x, y)
        if op == '+':
            r = x + y
        elif op == '-':
            r = x - y
        elif op == '*':
            r = x * y
        elif op == '/':
            r = x / y
        else:
            raise Unsupported('fp operator ' + op)
        if z3.is_rational_value(x) and z3.is_rational_value(y):
            r = simp(r)
        if self.fpmode == 'rnd':
            q = fp_.exact(self, op, x, y, w)
            if q is not None:
                return q
            q = self.rnd(r, w)
            fp_.instances(self, op, x, y, q, w)
            return q
        return r

    def iarith(self, op, x, y, t):
        d = self.P.ty(t) if isinstance(t, int) else t
        if z3.is_bool(x):
            x = If(x, self.ival(1, d.get('w', 32)), self.ival(0, d.get('w', 32)))
        if z3.is_bool(y):
            y = If(y, self.ival(1, d.get('w', 32)), self.ival(0, d.get('w', 32)))
        sg = d.get('sg', False)
        w = d.get('w', 64)
        if z3.is_bv(x):
            if op in ('<<', '>>') and not self.quiet:
                self.oblige('shift amount is less than the width', z3.ULT(y, z3.BitVecVal(x.size(), y.size())), self.curloc, 'arith')
            if y.size() != x.size():
                y = z3.ZeroExt(x.size() - y.size(), y) if y.size() < x.size() else z3.Extract(x.size() - 1, 0, y)
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                if self.mulabs is not None:
                    r = self.mulabs(x, y)
                    if r is not None:
                        return r
                return x * y
            if op == '/':
                return x / y if sg else z3.UDiv(x, y)
            if op == '%':
                return z3.SRem(x, y) if sg else z3.URem(x, y)
            if op == '<<':
                return x << y
            if op == '>>':
                return x >> y if sg else z3.LShR(x, y)
            if op == '&':
                return x & y
            if op == '|':
                return x | y
            if op == '^':
                return x ^ y
            raise Unsupported('bv operator ' + op)
        nx, ny = num(x), num(y)
        if op == '+':
            r = simp0(x + y)
        elif op == '-':
            r = simp0(x - y)
            if not sg and num(r) is None:
                if not self.provable(r >= 0, 300):
                    return If(r >= 0, r, r + (1 << w))
                return r
        elif op == '*':
            r = simp0(x * y)
        elif op in ('/', '%'):
            if ny == 0:
                raise Unsupported('division by zero')
            nz = self.provable(y != 0, 300)
            if not nz:
                self.oblige('division by non-zero', y != 0, '', 'arith')
            if sg and not (self.provable(And(x >= 0, y > 0), 300)):
                ax, ay = If(x >= 0, x, -x), If(y >= 0, y, -y)
                q = ax / ay
                q = If((x >= 0) == (y >= 0), q, -q)
                return q if op == '/' else x - q * y
            r = x / y if op == '/' else x % y
            if nx is not None and ny is not None:
                r = simp(r)
            return r
        elif op == '<<':
            if ny is not None:
                r = simp0(x * (1 << ny))
            elif nx is not None:
                f = self.pow2()
                r = x * f(y)
            else:
                r = x * self.pow2()(y)
        elif op == '>>':
            if ny is not None:
                return simp0(x / (1 << ny))
            return x / self.pow2()(y)
        elif op == '&':
            if nx is not None and ny is not None:
                return z3.IntVal(nx & ny)
            for a, m in ((x, ny), (y, nx)):
                if m is not None and m >= 0 and (m & (m + 1)) == 0:
                    return a % (m + 1)
            raise Unsupported('integer &')
        elif op in ('|', '^'):
            if nx is not None and ny is not None:
                return z3.IntVal((nx | ny) if op == '|' else (nx ^ ny))
            raise Unsupported('integer ' + op)
        else:
            raise Unsupported('integer operator ' + op)
        n = num(r)
        if n is not None:
            m = n & ((1 << w) - 1)
            if sg and m >= 1 << (w - 1):
                m -= 1 << w
            return z3.IntVal(m)
        if self.overflow and not self.quiet and op in '+-*':
            g = And(r >= -(1 << (w - 1)), r < (1 << (w - 1))) if sg else And(r >= 0, r < (1 << w))
            ex = self.exact
            self.exact = False            # a failing one means "not decided", the result is what the property is about
            self.oblige('no integer overflow in ' + op, g, self.curloc, 'arith')
            self.exact = ex
        return r

    def pow2(self):
        f = z3.Function('pow2', I, I)
        return f

    def l_bin(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['l'], void=True)
            return self.lv(e['r'])
        if op == '=':
            v = self.ev(e['r'])
            l = self.lv(e['l'])
            self.assign(l, v)
            return l
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            l = self.lv(e['l'])
            v = self.ev(e['r'])
            lt = self.P.strip(e['l']['t'])
            old = self.load(l)
            if old.kind == 'ptr':
                self.store(l, self.ptrop(op[:-1], old, v))
                return l
            ct = e.get('ct', lt)
            cd = self.P.ty(ct)
            ld = self.P.ty(lt)
            x = old.kids['e']
            if not (cd['k'] == ld['k'] and cd.get('w') == ld.get('w') and cd.get('sg') == ld.get('sg')):
                x = self.conv(x, ld, cd)
            y = v.kids['e']
            rt = self.P.ty(self.P.strip(e['r']['t']))
            bop = op[:-1]
            if cd['k'] == 'fp':
                r = self.farith(bop, x, y, cd['w'])
            else:
                r = self.iarith(bop, x, y, ct)
            if not (cd['k'] == ld['k'] and cd.get('w') == ld.get('w') and cd.get('sg') == ld.get('sg')):
                r = self.conv(r, cd, ld)
            self.store(l, sc(r))
            return l
        return None

    def assign(self, l, v):
        self.store(l, v)

    def e_cond(self, e):
        c = self.evb(e['c'])
        t = self.P.ty(e['t'])
        if t['k'] == 'void':
            # assert macro
            if e['b']['k'] in ('call',) and is_assert(e['b']):
                self.oblige('assertion', c, e['b'].get('loc', ''), 'assert')
                self.assume(c)
                return None
        return self.branch(c, lambda: self.ev(e['a']), lambda: self.ev(e['b']))

    def l_cond(self, e):
        if not e.get('lv'):
            return None
        c = simp(self.evb(e['c']))
        if is_true(c):
            return self.lv(e['a'])
        if is_false(c):
            return self.lv(e['b'])
        la = self.lv(e['a'])
        lb = self.lv(e['b'])
        if isinstance(la, Loc) and isinstance(lb, Loc):
            try:
                return loc_of(merge(c, ptr_of(la), ptr_of(lb)))
            except Unsupported:
                return self.new('tmp', merge(c, self.load(la), self.load(lb)))
        raise Unsupported('conditional lvalue')

    # ---- functions & objects
    def e_fnref(self, e):
        c = e['callee']
        if 'fn' not in c:
            return Node('fn', ('ext', c['base']), {})
        return Node('fn', ('fn', c['fn']), {})

    l_fnref = e_fnref

    def e_lambda(self, e):
        fr = self.frames[-1]
        caps = []
        this = fr.this
        for c in e['caps']:
            if c.get('this'):
                continue
            if c.get('byref'):
                caps.append((c['id'], self.lookup(c['id'])))
            elif 'init' in c and c['init'] is not None:
                caps.append((c['id'], self.new(c['name'], self.ev(c['init']))))
            else:
                caps.append((c['id'], self.new(c['name'], self.load(self.lookup(c['id'])))))
        return Node('fn', ('lam', e['fn'], tuple(caps), this), {})

    def e_method(self, e):
        raise Unsupported('bound method')

    def e_initlist(self, e):
        t = self.P.strip(e['t'])
        d = self.P.ty(t)
        if len(e['args']) == 1 and self.is_scalar(t):
            return self.ev(e['args'][0])
        if not e['args'] and self.is_scalar(t):
            return self.zero(t)
        sq = self.seqinfo(t)
        if sq:
            a = e['args']
            if d['k'] == 'rec' and len(a) == 1 and a[0]['k'] == 'initlist':
                a = a[0]['args']
            vals = [self.ev(x) for x in a]
            fixed = sq[2] if sq[2] is not None else len(vals)
            z = self.zero(sq[0]) if self.is_scalar(sq[0]) else self.default(sq[0])
            node = Node('arr', sq, {'n': z3.IntVal(fixed), 'el': lift(z)})
            for i, v in enumerate(vals):
                node = update(node, (('i', z3.IntVal(i)),), v, (), self.adopt_fresh)
            return node
        if d['k'] == 'rec' and 'id' in d:
            v = self.default(t)
            for (f, ft, ini), a in zip(self.P.fields(t), e['args']):
                v = Node(v.kind, v.static, dict(v.kids, **{f: self.ev(a)}))
            return v
        raise Unsupported('initializer list for ' + d['s'])

    def e_stdinit(self, e):
        return self.ev(e['e'])

    def e_construct(self, e):
        t = self.P.strip(e['t'])
        d = self.P.ty(t)
        args = e['args']
        c = e['callee']
        if e['copy'] and len(args) == 1 and e.get('implicit', True):
            return self.ev(args[0])
        if d['k'] == 'rec' and 'id' in d:
            g = self.P.fns.get(c.get('fn'))
            if g is not None and 'body' in g and not (g.get('implicit') and not args):
                this = self.new('obj', self.rawobj.get(t) or self.default(t))
                self.call_fn(c['fn'], self.args(g, args), this=this)
                v = self.load(this)
                return v
            if not args:
                return self.default(t)
            if e['copy']:
                return self.ev(args[0])
            raise Unsupported('constructor of ' + d['s'])
        if e['copy'] and len(args) == 1:
            return self.ev(args[0])
        h = self.lib.get(('ctor', d.get('name')))
        if h:
            r = h(self, e, t)
            if r is not None:
                return r
        if not args:
            return self.default(t)
        if len(args) == 1:
            a = self.ev(args[0])
            if a.kind == 'fn':
                return a
            if a.kind == 'arr' and self.seqinfo(t):
                return retype(a, self.seqinfo(t))
        raise Unsupported('construct %s with %d args' % (d['s'], len(args)))

    def e_call(self, e):
        return self.call(e, False)

    def l_call(self, e):
        return self.call(e, True)

    def call(self, e, want_lv):
        c = e.get('callee')
        if c is None:
            return self.call_ptr(e)
        base = c['base']
        h = self.contracts.get(base)
        if h:
            r = h(self, e)
            if r is not NotImplemented:
                self.used_contracts.add(base)
                return r
        h = self.lib.get(base)
        if h:
            self.used_lib.add(base)
            return h(self, e)
        if 'fn' in c:
            f = self.P.fns.get(c['fn'])
            if f is None or 'body' not in f:
                raise Unsupported('no body for ' + base)
            this = None
            env = None
            aexprs = e['args']
            if 'obj' in e and e['obj'] is not None:
                this = self.objloc(e)
            elif 'op' in e and f.get('rec') is not None and not f.get('static'):
                o = aexprs[0]
                aexprs = aexprs[1:]
                ov = self.ev(o) if base.endswith('operator()') else None
                if ov is not None and ov.kind == 'fn':
                    return self.call_fnval(ov, aexprs)
                this = self.lv(o)
            r = self.call_fn(c['fn'], self.args(f, aexprs), this=this, loc=e.get('loc'))
            return r
        p = prefix_handler(self.lib, base)
        if p:
            self.used_lib.add(base)
            return p(self, e)
        raise Unsupported('call to %s at %s' % (base, e.get('loc')))

    def objloc(self, e):
        if e.get('arrow'):
            return loc_of(self.ev(e['obj']))
        return self.lv(e['obj'])

    def call_ptr(self, e):
        ce = e['ce']
        if ce['k'] == 'pseudodtor':
            return None
        v = self.ev(ce)
        return self.call_fnval(v, e['args'], e)

    def call_fnval(self, v, aexprs, e=None):
        if v.kind != 'fn':
            raise Unsupported('call of ' + v.kind)
        k = v.static[0]
        if k == 'id':
            return self.one_of(v, lambda w: self.call_fnval(w, aexprs, e))
        if k == 'fn':
            f = self.P.fns[v.static[1]]
            h = self.contracts.get(f['base'])
            if h:
                self.used_contracts.add(f['base'])
                r = h(self, {'args': aexprs, 'callee': {'base': f['base'], 'fn': v.static[1]}})
                if r is not NotImplemented:
                    return r
            return self.call_fn(v.static[1], self.args(f, aexprs))
        if k == 'lam':
            f = self.P.fns[v.static[1]]
            return self.call_fn(v.static[1], self.args(f, aexprs), this=v.static[3], env=dict(v.static[2]))
        if k == 'py':
            return v.static[1](self, aexprs)
        raise Unsupported('call of ' + str(k))

    # call a function value with already evaluated nodes / locations
    def one_of(self, v, call):
        """call of a function value that depends on a number"""
        t = simp(self.resolve(v.kids['id']))
        if num(t) is not None:
            return call(Node('fn', FUNCS[num(t)], {}))
        ids, todo, seen = [], [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                todo.extend(x.children()[1:])
            elif num(x) is not None and 0 <= num(x) < len(FUNCS) and num(x) not in ids:
                ids.append(num(x))
        if not ids:
            raise Unsupported('call of an unknown function')
        self.oblige('the function called is one of the known ones', Or(*[t == k for k in ids]), '', 'memory')
        s0, r = self.st, None
        for k in ids:
            self.st = s0.fork(t == k)
            x = call(Node('fn', FUNCS[k], {}))
            if any(self.st.store.get(q) is not w for q, w in s0.store.items()):
                raise Unsupported('choice between functions with effects')
            if not isinstance(x, Node):
                raise Unsupported('choice between functions that return references')
            r = x if r is None else merge(t == k, x, r)
        self.st = s0
        return r

    def apply_fn(self, v, args):
        k = v.static[0]
        if k == 'id':
            return self.one_of(v, lambda w: self.apply_fn(w, args))
        if k == 'fn':
            return self.call_fn(v.static[1], args)
        if k == 'lam':
            return self.call_fn(v.static[1], args, this=v.static[3], env=dict(v.static[2]))
        if k == 'pyn':
            return v.static[1](self, args)
        raise Unsupported('apply ' + str(k))


def prefix_handler(lib, base):
    for p, h in lib.get('prefixes', ()):
        if base.startswith(p):
            return h
    return None


def is_assert(e):
    return (e.get('callee') or {}).get('base') in ('__assert_fail', 'Eigen::internal::assert_fail')


def ghost_skolems(fs):
    return set()


def pattern_ok(t, it):
    return z3.is_app(t) and t.num_args() > 0


def f_closed(f, it):
    if consts_in(f, lambda nm: nm == it.decl().name()):
        return z3.ForAll([it], f)
    return f


def simp(e):
    return z3.simplify(e)


def subst_at(leaf, idx, it, x):
    """leaf(idx) with the iteration 'it' replaced by x in the leaf only, not in the indices"""
    iv = it.decl().name()
    if not any(consts_in(k, lambda nm: nm == iv) for k in idx):
        return z3.substitute(leaf(*idx), (it, x))
    ph = [z3.Const('ph!%d' % j, k.sort()) for j, k in enumerate(idx)]
    return z3.substitute(z3.substitute(leaf(*ph), (it, x)), *zip(ph, idx))


def simp0(e):
    """light simplification of index arithmetic"""
    return z3.simplify(e)


_hq = {}


def has_quant(e):
    k = e.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    v = False
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            v = True
            break
        stack.extend(x.children())
    _hq[k] = (e, v)
    return v


def num_real(x):
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return None


def putnode(node, path, new):
    kids = dict(node.kids)
    if len(path) == 1:
        kids[path[0]] = new
    else:
        kids[path[0]] = putnode(kids[path[0]], path[1:], new)
    return Node(node.kind, node.static, kids)


def retype(a, sq):
    return Node('arr', sq, dict(a.kids))
