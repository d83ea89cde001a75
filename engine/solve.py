"""Solver back ends: z3 first, cvc5 on what z3 leaves open."""
import ctypes
import os
import pickle
import select
import signal
import time
import z3

_libc = ctypes.CDLL(None)


def guarded(fn, limit_ms, dead):
    """fn() in a forked child: the back end can crash or overrun its time limit on quantified queries"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            _libc.prctl(1, 9)
            os.close(r)
            signal.alarm(0)
            data = pickle.dumps(fn())
            os.write(w, data) if len(data) < 60000 else None
        except BaseException:
            pass
        os._exit(0)
    os.close(w)
    buf = b''
    end = time.time() + limit_ms / 1000.0 + 3
    try:
        while True:
            rd, _, _ = select.select([r], [], [], max(0.05, end - time.time()))
            if not rd:
                break
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    finally:
        os.close(r)
        try:
            os.kill(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
    try:
        return pickle.loads(buf)
    except Exception:
        return dead


def check(s, timeout, quant):
    if not quant:
        return str(s.check())
    return guarded(lambda: str(s.check()), timeout, 'unknown')


def quantified(es):
    from sym import has_quant
    return any(has_quant(e) for e in es)


def quick(facts, pc, goal, timeout):
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in facts:
        s.add(f)
    for c in pc:
        s.add(c)
    s.add(z3.Not(goal))
    return check(s, timeout, quantified(list(facts) + list(pc) + [goal]))


_mul = {}


def _uf(sort, op, n):
    k = (str(sort), op, n)
    if k not in _mul:
        _mul[k] = z3.Function('nl%s%d!%s' % (op, n, sort), *([sort] * (n + 1)))
    return _mul[k]


def nonlinear(e):
    if z3.is_mul(e):
        return sum(not z3.is_rational_value(a) and not z3.is_int_value(a) for a in e.children()) >= 2
    k = e.decl().kind()
    if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
        d = e.arg(1)
        return not (z3.is_rational_value(d) or z3.is_int_value(d))
    return False


def abstract(fs):
    """products and quotients of unknowns become uninterpreted (a sound weakening): (formulas, changed)"""
    memo = {}
    changed = [False]

    def go(e):
        k = e.get_id()
        r = memo.get(k)
        if r is not None:
            return r[1]
        if z3.is_quantifier(e):
            n = e.num_vars()
            b = go(e.body())
            if b.eq(e.body()):
                r = e
            else:
                vs = [z3.Const('q!%d!%s' % (e.get_id(), e.var_name(i)), e.var_sort(i)) for i in range(n)]
                b = z3.substitute_vars(b, *reversed(vs))
                if e.is_forall():
                    r = z3.ForAll(vs, b)
                elif e.is_exists():
                    r = z3.Exists(vs, b)
                else:
                    r = e
        elif not z3.is_app(e) or e.num_args() == 0:
            r = e
        else:
            ch = [go(c) for c in e.children()]
            r = e if all(a.eq(b) for a, b in zip(ch, e.children())) else e.decl()(*ch)
            if nonlinear(r):
                changed[0] = True
                if z3.is_mul(r):
                    cs = [a for a in r.children() if z3.is_rational_value(a) or z3.is_int_value(a)]
                    xs = sorted([a for a in r.children() if not (z3.is_rational_value(a) or z3.is_int_value(a))], key=lambda a: a.get_id())
                    u = _uf(r.sort(), 'mul', len(xs))(*xs)
                    for c in cs:
                        u = c * u
                    r = u
                else:
                    nm = {z3.Z3_OP_DIV: 'div', z3.Z3_OP_IDIV: 'idiv', z3.Z3_OP_MOD: 'mod', z3.Z3_OP_REM: 'rem'}[r.decl().kind()]
                    r = _uf(r.sort(), nm, 2)(r.arg(0), r.arg(1))
        memo[k] = (e, r)
        return r
    out = [go(z3.simplify(f)) for f in fs]
    return out, changed[0]


def quick_abs(facts, pc, goal, timeout):
    fs, ch = abstract(list(facts) + list(pc) + [z3.Not(goal)])
    if not ch:
        return 'unknown'
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in fs:
        s.add(f)
    for (sort, op, n), f in list(_mul.items()):
        if op == 'mul':
            a = [z3.Const('ac!%d!%s' % (i, sort), f.domain(i)) for i in range(n)]
            s.add(z3.ForAll(a, f(*a) == f(*([a[1], a[0]] + a[2:])), patterns=[f(*a)]))
            if n > 2:
                s.add(z3.ForAll(a, f(*a) == f(*(a[1:] + a[:1])), patterns=[f(*a)]))
    return 'unsat' if check(s, timeout, quantified(fs)) == 'unsat' else 'unknown'


def smt2(facts, pc, goal):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    for c in pc:
        s.add(c)
    s.add(z3.Not(goal))
    return s.to_smt2()


def cvc5_check(text, timeout):
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(int(timeout)))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'o')
        sm = p.getSymbolManager()
        res = 'unknown'
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = str(c.invoke(slv, sm)).strip()
            if out in ('sat', 'unsat', 'unknown'):
                res = out
        return res
    except Exception as ex:
        return 'unknown'


def prove(facts, pc, goal, timeout=10000, ext=()):
    """(result, backend, seconds, model text): result in proved / refuted / unknown; ext: instances of the facts"""
    t0 = time.time()
    if ext:
        from sym import has_quant
        if quick([f for f in facts if not has_quant(f)] + list(ext), [c for c in pc if not has_quant(c)], goal, max(500, timeout // 4)) == 'unsat':
            return 'proved', 'z3', time.time() - t0, ''
    try:
        if quick_abs(facts, pc, goal, max(500, timeout // 4)) == 'unsat':
            return 'proved', 'z3', time.time() - t0, ''
    except z3.Z3Exception:
        pass
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in facts:
        s.add(f)
    for c in pc:
        s.add(c)
    s.add(z3.Not(goal))
    def run():
        r = s.check()
        if r == z3.unsat:
            return 'unsat', ''
        if r == z3.sat:
            m = s.model()
            return 'sat', '\n'.join('%s = %s' % (d.name(), m[d]) for d in sorted(m.decls(), key=lambda d: d.name())[:200])[:6000]
        return 'unknown', s.reason_unknown()
    r, why = guarded(run, timeout, ('unknown', 'back end stopped')) if quantified(list(facts) + list(pc) + [goal]) else run()
    if r == 'unsat':
        return 'proved', 'z3', time.time() - t0, ''
    if r == 'sat':
        return 'refuted', 'z3', time.time() - t0, why
    text = smt2(facts, pc, goal)
    c = guarded(lambda: cvc5_check(text, timeout), timeout, 'unknown')
    if c == 'unsat':
        return 'proved', 'cvc5', time.time() - t0, ''
    return 'unknown', 'z3+cvc5', time.time() - t0, why
