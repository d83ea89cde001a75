"""Equality of real terms in a context: conditions the context decides are resolved (by z3), sums and products over
ranges are compared element by element (extensionality), the rest by normal form (engine/poly.py)."""
import z3
import poly

I = z3.IntSort()


_lin = {}


def linear(t):
    k = t.get_id()
    if k not in _lin:
        r = True
        if z3.is_app(t):
            d = t.decl().kind()
            if d == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in t.children()) > 1:
                r = False
            elif d in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV) and not (z3.is_int_value(t.arg(1)) or z3.is_rational_value(t.arg(1))):
                r = False
            else:
                r = all(linear(c) for c in t.children())
        _lin[k] = (t, r)
    return _lin[k][1]


class Ctx:
    def __init__(self, eng, facts, budget=400, depth=0):
        from sym import has_quant
        self.eng = eng
        self.facts = [f for f in facts if not has_quant(f)]
        self.s = z3.Solver()
        self.s.set('timeout', 400)
        for f in self.facts:
            self.s.add(f)
        # the facts that are linear, tried first
        lin = [f for f in self.facts if linear(f)]
        self.l = None
        if len(lin) < len(self.facts):
            self.l = z3.Solver()
            self.l.set('timeout', 200)
            for f in lin:
                self.l.add(f)
        self.memo = {}
        self.budget = [budget]
        self.depth = depth

    def decided(self, c):
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        k = c.get_id()
        if k in self.memo:
            return self.memo[k][1]
        r = None
        if self.budget[0] > 0:
            self.budget[0] -= 1
            for s, v in ((self.l, True), (self.l, False), (self.s, True), (self.s, False)):
                if s is None:
                    continue
                s.push()
                s.add(z3.Not(c) if v else c)
                if s.check() == z3.unsat:
                    r = v
                s.pop()
                if r is not None:
                    break
        self.memo[k] = (c, r)
        return r

    def under(self, c):
        x = Ctx(self.eng, self.facts + [c], 0, self.depth)
        x.budget = self.budget
        return x

    def boolean(self, c):
        """a condition with its decided parts resolved"""
        if z3.is_and(c) or z3.is_or(c):
            u = z3.is_and(c)
            xs = [self.boolean(x) for x in c.children()]
            if any((z3.is_false if u else z3.is_true)(x) for x in xs):
                return z3.BoolVal(not u)
            xs = [x for x in xs if not (z3.is_true if u else z3.is_false)(x)]
            return z3.BoolVal(u) if not xs else xs[0] if len(xs) == 1 else z3.And(*xs) if u else z3.Or(*xs)
        if z3.is_not(c):
            x = self.boolean(c.arg(0))
            return z3.BoolVal(z3.is_false(x)) if z3.is_true(x) or z3.is_false(x) else z3.Not(x)
        d = self.decided(c)
        return c if d is None else z3.BoolVal(d)

    def simp(self, t, memo=None, deep=True):
        """the term with decided conditions resolved (deep: also inside the arms of undecided ones)"""
        memo = {} if memo is None else memo
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        elif t.decl().kind() == z3.Z3_OP_ITE:
            c = self.boolean(self.simp(t.arg(0), memo, deep))
            d = self.decided(c)
            if d is not None:
                r = self.simp(t.arg(1) if d else t.arg(2), memo, deep)
            elif not deep or self.budget[0] <= 0:
                r = z3.If(c, self.simp(t.arg(1), memo, deep), self.simp(t.arg(2), memo, deep))
            else:
                r = z3.If(c, self.under(c).simp(t.arg(1)), self.under(z3.Not(c)).simp(t.arg(2)))
        else:
            ch = [self.simp(c, memo, deep) for c in t.children()]
            r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch)
        memo[k] = (t, r)
        return r


def sums_in(eng, t, acc):
    names = {f[0].name(): key for key, f in eng.__dict__.get('sums', {}).items()}
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().name() in names:
            acc[x.get_id()] = (x, names[x.decl().name()])
        todo.extend(x.children())
    return acc


def conds(t, acc, seen):
    """atomic conditions of conditionals in the term"""
    if t.get_id() in seen or not z3.is_app(t):
        return
    seen.add(t.get_id())
    if t.decl().kind() == z3.Z3_OP_ITE:
        todo = [t.arg(0)]
        while todo:
            c = todo.pop()
            if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
                todo.extend(c.children())
            elif not z3.is_true(c) and not z3.is_false(c):
                acc.setdefault(c.get_id(), c)
    for c in t.children():
        conds(c, acc, seen)


def binding(c):
    """(constant, value) when the condition fixes an integer constant"""
    if z3.is_eq(c):
        for l, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
            if l.decl().kind() == z3.Z3_OP_TO_REAL:
                l = l.arg(0)
            if l.num_args() == 0 and l.decl().kind() == z3.Z3_OP_UNINTERPRETED and l.sort() == I:
                if z3.is_int_value(r):
                    return l, r
                if z3.is_rational_value(r) and r.denominator_as_long() == 1:
                    return l, z3.IntVal(r.numerator_as_long())
    return None


def forced(cx, a, b):
    """integer constants and arguments of functions in the terms that the context gives one value"""
    cs, seen, todo = {}, set(), [a, b]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.num_args() == 0 and t.sort() == I and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            cs[t.get_id()] = t
        elif t.decl().kind() == z3.Z3_OP_IDIV:
            cs[t.get_id()] = t
        elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            cs.update((c.get_id(), c) for c in t.children() if c.sort() == I and not z3.is_int_value(c))
        todo.extend(t.children())
    slv = cx.l if cx.l is not None else cx.s
    if not cs or slv.check() != z3.sat:
        return []
    m = slv.model()
    r = [(c, v) for c in cs.values() for v in [m.eval(c, model_completion=True)] if z3.is_int_value(v) and cx.decided(c == v)]
    # constants a fixed distance apart
    con = [c for c in cs.values() if c.num_args() == 0 and not any(c.eq(x) for x, v in r)]
    for i, c in enumerate(con):
        for o in con[:i]:
            v, w = m.eval(c, model_completion=True), m.eval(o, model_completion=True)
            if z3.is_int_value(v) and z3.is_int_value(w) and not any(c.eq(x) or o.eq(x) for x, y in r):
                t = z3.simplify(o + (v.as_long() - w.as_long()))
                if cx.decided(c == t):
                    r.append((c, t))
    return r


def refine(eng, cx, t, depth):
    """sums and products: conditions in the body decided by the range are resolved"""
    import lib
    sub = []
    for x, key in sums_in(eng, t, {}).values():
        F, body, k, gs = eng.sums[key]
        n = x.arg(x.num_args() - 1)
        e = z3.Int('ke!%d' % depth)
        b0 = z3.substitute(body, (k, e), *[(g, x.arg(i)) for i, g in enumerate(gs)])
        c2 = Ctx(eng, cx.facts + [e >= 0, e < n], 100, cx.depth)
        b1 = c2.simp(b0)
        if not b1.eq(b0):
            try:
                sub.append((x, lib.sumfun(eng, lambda kk: z3.substitute(b1, (e, kk)), key[0])(n)))
            except Exception:
                pass
    return z3.substitute(t, *sub) if sub else t


def pair(eng, cx, facts, a, b, depth):
    """sums and products of the two terms that agree element by element are made the same"""
    A, B = sums_in(eng, a, {}), sums_in(eng, b, {})
    for i in list(A):
        if i in B:
            del A[i], B[i]
    sub = []

    def body(x, kx, e):
        F, t, k, g = eng.sums[kx]
        return z3.substitute(t, (k, e), *[(h, x.arg(i)) for i, h in enumerate(g)])

    def size(x):
        return x.arg(x.num_args() - 1)

    unfold = []
    for P, R, side in ((A, B, 0), (B, A, 1)):
        for x, kx in P.values():
            for y, ky in R.values():
                # one more element (up to 4) in y than in x: y = x op elements
                if kx == ky and all(x.arg(i).eq(y.arg(i)) for i in range(x.num_args() - 1)):
                    d = z3.simplify(size(y) - size(x))
                    if z3.is_int_value(d) and 0 < d.as_long() <= 4 and cx.decided(size(x) >= 0):
                        t = x
                        for i in range(d.as_long()):
                            e = body(y, ky, z3.simplify(size(x) + i))
                            t = t + e if kx[0][0] == '+' else t * e
                        unfold.append((1 - side, y, t))
                        break
    if unfold:
        a = z3.substitute(a, *[(y, t) for w, y, t in unfold if w == 0])
        b = z3.substitute(b, *[(y, t) for w, y, t in unfold if w == 1])
        A, B = sums_in(eng, a, {}), sums_in(eng, b, {})
        for i in list(A):
            if i in B:
                del A[i], B[i]
    for x, kx in A.values():
        for y, ky in B.values():
            if kx[0] != ky[0]:
                continue
            nx, ny = size(x), size(y)
            if poly.same(nx, ny) or cx.decided(nx == ny):
                e = z3.Int('ke!%d' % depth)
                if equal(eng, facts + [e >= 0, e < nx], body(x, kx, e), body(y, ky, e), depth - 1):
                    sub.append((x, y))
                    break
    return (z3.substitute(a, *sub), z3.substitute(b, *sub)) if sub else (a, b)


def equal(eng, facts, a, b, depth=2, splits=4):
    """a == b whenever the facts hold (False: not shown)"""
    if poly.same(a, b):
        return True
    cx = Ctx(eng, facts)
    if cx.s.check() == z3.unsat:
        return True
    a, b = cx.simp(a, None, False), cx.simp(b, None, False)
    if poly.same(a, b):
        return True
    a, b = cx.simp(a), cx.simp(b)
    w = forced(cx, a, b)
    if w:
        a, b, facts = z3.substitute(a, *w), z3.substitute(b, *w), [z3.substitute(f, *w) for f in facts] + [c == v for c, v in w]
        cx = Ctx(eng, facts)
    a, b = refine(eng, cx, a, depth), refine(eng, cx, b, depth)
    if poly.same(a, b):
        return True
    if depth == 0:
        return False
    try:
        a, b = [poly.build(poly.nf(x), x.sort()) for x in (a, b)]
    except poly.TooBig:
        return False
    a, b = pair(eng, cx, facts, a, b, depth)
    if poly.same(a, b):
        return True
    if splits:
        acc, seen = {}, set()
        conds(a, acc, seen)
        conds(b, acc, seen)
        cs = sorted(acc.values(), key=lambda c: binding(c) is None)
        for c in cs[:1]:
            f1, a1, b1 = facts + [c], a, b
            w = binding(c)
            if w:
                f1, a1, b1 = [z3.substitute(x, w) for x in facts] + [w[0] == w[1]], z3.substitute(a, w), z3.substitute(b, w)
            return equal(eng, f1, a1, b1, depth, splits - 1) and equal(eng, facts + [z3.Not(c)], a, b, depth, splits - 1)
    return False
