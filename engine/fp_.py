"""Rounded floating-point arithmetic as an uninterpreted monotone projection of the reals (fpmode 'rnd'), with
instances of the IEEE-754 facts a proof needs (trusted: standard facts of IEEE-754 rounding to nearest)."""
import z3
from val import *

R = z3.RealSort()
U = {64: z3.Q(1, 1 << 53), 32: z3.Q(1, 1 << 24)}


def F(w):
    return z3.Function('rnd%d' % w, R, R)


def axioms(eng, w=64):
    """rounding is a monotone projection; a case that needs this calls it first (it is costly for the solver)"""
    f = F(w)
    x, y = z3.Real('rx'), z3.Real('ry')
    eng.fact(z3.ForAll([x, y], Implies(x <= y, f(x) <= f(y)), patterns=[z3.MultiPattern(f(x), f(y))]))
    eng.fact(z3.ForAll([x], f(f(x)) == f(x), patterns=[f(f(x))]))
    for c in (0, 1, -1, 2, 4):
        eng.fact(f(z3.RealVal(c)) == c)


def exact(eng, op, x, y, w):
    """operations that need no rounding: scaling by 2 or 4 (absent overflow); the operands are values of program
    expressions, hence representable"""
    if op == '*':
        for a, b in ((x, y), (y, x)):
            if num_like(a) in (1, 2, 4):
                return a * b
    return None


def near(eng, t, w):
    """the rounding error of a value of magnitude at most one, as facts about this one term"""
    f = F(w)
    eng.fact(Implies(And(t >= -1, t <= 1), And(f(t) - t <= U[w] / 2, t - f(t) <= U[w] / 2)))
    eng.fact(Implies(t <= 1 + U[w], f(t) <= 1))


def instances(eng, op, x, y, r, w):
    """r = rnd(x op y)"""
    f = F(w)
    if op == '*':
        t = x * y
        for a, b in ((x, y), (y, x)):
            if num_like(a) is not None:
                continue
            eng.fact(Implies(And(a >= 0, b >= 0), t >= 0))
            eng.fact(Implies(And(a >= 0, b >= 0, b <= 1), t <= a))
            if z3.is_app(a) and a.decl().eq(f) and a.arg(0).decl().kind() in (z3.Z3_OP_SUB, z3.Z3_OP_ADD, z3.Z3_OP_TO_REAL):
                d = a.arg(0)
                # d a difference of representable numbers or an integer: rnd(rnd(d)*b) <= d for b <= 1-u
                eng.fact(Implies(And(d >= 0, b >= 0, b <= 1 - U[w]), r <= d))
                eng.fact(Implies(And(d >= 1, b >= 0, b <= 1 - U[w]), r < d))


def num_like(x):
    if z3.is_rational_value(x):
        return x.numerator_as_long() if x.denominator_as_long() == 1 else None
    return None
