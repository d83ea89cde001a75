"""Contract of a user's objective function: a side-effect free function of the decision variable's content."""
import z3
from val import *

I, R = z3.IntSort(), z3.RealSort()
A = z3.ArraySort(I, R)
F = z3.Function('objective', I, A, R)


def value(n, el):
    """the objective at a vector of n components el(k)"""
    k = z3.Int('k!obj')
    return F(n, z3.Lambda([k], If(And(k >= 0, k < n), el(k), z3.RealVal(0))))


def at_node(v):
    return value(v.kids['n'], lambda k: v.kids['el'].kids['e'](k))


def obj(eng, e):
    x = loc_of(eng.ev(e['args'][0]))
    f = loc_of(eng.ev(e['args'][-1]))
    eng.store(f, sc(at_node(eng.load(x))))
    return None


def init(eng, e):
    """a user's initialiser: writes an arbitrary value to everything it is given to fill"""
    for a in e['args'][:2]:
        l = loc_of(eng.ev(a))
        v = eng.load(l)
        w = v.map(lambda leaf: eng.fresh_like(leaf, 'init'))
        if num(z3.simplify(v.kids['n'])) is not None:
            w = w.put(('n',), v.kids['n'])
        else:
            eng.pcfact(w.kids['n'] >= 0)
        eng.store(l, w)
    return None
