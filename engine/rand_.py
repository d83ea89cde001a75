"""Contracts of the library's random helpers (verified against their bodies by property R01)."""
import z3
from val import *

I = z3.IntSort()
R = z3.RealSort()


def randD(eng, e):
    a = e['args']
    r = eng.fresh('randD', R)
    if len(a) == 0:
        eng.fact(And(r >= 0, r < 1))
        eng.draws = getattr(eng, 'draws', []) + [r]
        return sc(r)
    lo, hi = eng.ev(a[0]).kids['e'], eng.ev(a[1]).kids['e']
    if lo.sort() == I:
        lo = z3.ToReal(lo)
    if hi.sort() == I:
        hi = z3.ToReal(hi)
    eng.oblige('randD(min,max): min <= max', lo <= hi, e.get('loc', ''), 'pre')
    eng.pcfact(And(r >= lo, r <= hi))
    return sc(r)


def randF(eng, e):
    return randD(eng, e)


def randIdx(eng, e):
    a = e['args']
    r = eng.fresh('randIdx', I)
    if len(a) == 1:
        n = eng.ev(a[0]).kids['e']
        eng.oblige('randIdx(n): n >= 1', n >= 1, e.get('loc', ''), 'pre')
        eng.pcfact(And(r >= 0, r < n))
    else:
        lo, hi = eng.ev(a[0]).kids['e'], eng.ev(a[1]).kids['e']
        eng.oblige('randIdx(min,max): min < max', lo < hi, e.get('loc', ''), 'pre')
        eng.pcfact(And(r >= lo, r < hi))
    return sc(r)


CONTRACTS = {'heu::randD': randD, 'heu::randF': randF, 'heu::randIdx': randIdx}
