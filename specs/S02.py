"""S02: after every selection the reported best individual is a living one that no other beats."""
from spec import *
from ga_ import *
import sel_
import list_
from list_ import alive, D_, N_, LEN

COMPLETE = True
CASE_LIMIT = 240
ASSUMPTIONS = sel_.ASSUMPTIONS


def best(m, d):
    def f(eng):
        s = sel_.Sel(eng, m, d)
        P0, N, K = s.P0, s.N, s.K
        s.select()
        P1 = s.pop()
        j = z3.Int('j')
        fit1 = lambda x: gene(P1, x).get('fitness', 'e')
        bp = eng.load(s.bestLoc)
        l = loc_of(eng.resolve_ptr(bp))
        eng.oblige('the reported best is an individual of this population', z3.BoolVal(l.root == s.popLoc.root and len(l.path) == len(s.popLoc.path) + 2 and
                   l.path[:len(s.popLoc.path)] == s.popLoc.path), '', 'post')
        b = slot_of(l)
        eng.oblige('the reported best is in the population', alive(P1, b), '', 'post')
        eng.oblige('no individual left is better than the reported best', Implies(alive(P1, j), Not(s.better(fit1(j), fit1(b)))), '', 'post')
        fb0 = s.fit0(s.b0)
        fl = eng.load(s.get('fail')).kids['e']
        eng.oblige('the failure counter is zero exactly after a strict improvement and grows by one otherwise',
                   Implies(And(s.fail0 >= 0, s.fail0 < (1 << 31)), fl == If(s.better(fit1(b), fb0), z3.IntVal(0), s.fail0 + 1)), '', 'post')
        if m in ('trunc', 'elite'):
            for w, c in (('survives', alive(P1, s.b0)), ('is discarded', Not(alive(P1, s.b0)))):
                eng.oblige('the reported best fitness is no worse than the one reported before, which ' + w, Implies(c, Not(s.better(fb0, s.fit0(b)))), '', 'post')
            eng.oblige('the reported best has the fitness it had before', s.fit0(b) == fit1(b), '', 'post')
    return f


def find(d, sparse):
    """sparse: some slots of the list belong to individuals erased before"""
    better = lambda a, b: a < b if d == 'l' else a > b

    def f(eng):
        s = sel_.Sel(eng, 'trunc', d)
        nth = lambda j: j
        if sparse:
            dead = eng.fresh('erased', B, 1)
            ln = eng.fresh('living', I)
            eng.assume(And(ln >= 1, ln <= s.N))
            eng.store(s.popLoc.f('dead').f('el'), sc(L(1, dead)))
            eng.store(s.popLoc.f('len'), sc(ln))
            E = list_.enum(eng, s.pop())
            nth = E.nth
        P0 = s.pop()
        fit = lambda x: gene(P0, x).get('fitness', 'e')
        jh = z3.Int('jh')

        def hint(eng, S0, H, rest, it, st, nxt):
            out = []
            for p in rest:
                v0 = eng.leaf_at(S0, p)
                if isinstance(v0, L) or v0.sort() != I:
                    continue
                get = lambda S, p=p: eng.leaf_at(S, p)
                out.append(('%s living' % (p,), lambda S, x, get=get: alive(P0, get(S))))
                for off in (0, 1):
                    out.append(('%s best so far +%d' % (p, off), lambda S, x, get=get, off=off: z3.ForAll([jh], Implies(And(jh >= 0, jh < x + off), Not(better(fit(nth(jh)), fit(get(S))))))))
            return out
        eng.hints = [hint]
        r = s.run('find')
        P1 = s.pop()
        b = slot_of(loc_of(eng.resolve_ptr(r)))
        j = z3.Int('j')
        fit1 = lambda x: gene(P1, x).get('fitness', 'e')
        eng.oblige('the individual found is in the population', alive(P1, b), '', 'post')
        eng.oblige('no individual is better than the one found', Implies(alive(P1, j), Not(better(fit1(j), fit1(b)))), '', 'post')
        eng.oblige('looking for the best changes nothing', And(N_(P1) == s.N, LEN(P1) == LEN(P0), D_(P1)(j) == D_(P0)(j)), '', 'post')
    return f


def build(spec):
    for m in sel_.METHODS:
        if m == 'tour':
            continue
        for d in 'lg':
            spec.case('%s, %s is better' % (sel_.METHODS[m], {'l': 'less', 'g': 'greater'}[d]), best(m, d), contracts=sel_.sel_contracts(m + d))
    for d in 'lg':
        for sp, w in ((False, 'no'), (True, 'any')):
            spec.case('findCurrentBestGene, %s is better, %s erased slots' % ({'l': 'less', 'g': 'greater'}[d], w), find(d, sp), contracts=contracts('trunc' + d))
