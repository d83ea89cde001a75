"""G01: every recorded fitness is the objective value of its own decision variable."""
from spec import *
from ga_ import *
COMPLETE = True

ASSUMPTIONS = ['fitness values and decision variables are copied and handed to the objective only: real numbers stand for doubles exactly',
               'the objective is a side-effect free function that writes exactly the fitness it is given; operators write exactly the variables they are given',
               'populations have fewer than 2^31 individuals']


def evaluate(n):
    def f(eng):
        s = GA(eng, n)
        P0 = s.pop()
        N = eng.N0
        eng.assume(N < (1 << 31))
        s.run('comp')
        P1 = s.pop()
        i, k = z3.Int('i'), z3.Int('k')
        ins = And(i >= 0, i < N)
        a, b = gene(P0, i), gene(P1, i)
        done = a.get('is_fitness_computed', 'e')
        eng.oblige('population size unchanged', And(P1.get('slot', 'n') == N, P1.get('len', 'e') == N), '', 'post')
        eng.oblige('no individual removed', Implies(ins, Not(P1.get('dead', 'el', 'e')(i))), '', 'post')
        eng.oblige('decision variables unchanged', Implies(ins, same(a.get('decision_variable'), b.get('decision_variable'), k)), '', 'post')
        eng.oblige('every individual is marked evaluated', Implies(ins, b.get('is_fitness_computed', 'e')), '', 'post')
        if n in ('so', 'se'):
            eng.oblige('the fitness is the objective of the own variable, or kept where already evaluated',
                       Implies(ins, b.get('fitness', 'e') == If(done, a.get('fitness', 'e'), FO(i))), '', 'post')
        else:
            fa, fb = a.get('fitness'), b.get('fitness')
            M = eng.objnum if n in ('nx', 'n3') else z3.IntVal(2)
            eng.oblige('the fitness of an evaluated individual is kept', Implies(And(ins, done), same(fa, fb, k)), '', 'post')
            eng.oblige('a new fitness has one component per objective', Implies(And(ins, Not(done)), fb.kids['n'] == M), '', 'post')
            eng.oblige('the fitness is the objective vector of the own variable', Implies(And(ins, Not(done), k >= 0, k < M), fb.get('el', 'e')(k) == FOM(i, k)), '', 'post')
        eng.oblige('the objective is called exactly once for each unevaluated individual and never for others',
                   Implies(ins, calls(eng, 'fit')(i) == If(done, z3.IntVal(0), z3.IntVal(1))), '', 'post')
    return f


def initialize(n):
    def f(eng):
        s = GA(eng, n)
        M = s.opt('populationSize')
        eng.assume(And(M >= 1, M < (1 << 31)))
        s.run('init')
        P1 = s.pop()
        i = z3.Int('i')
        ins = And(i >= 0, i < M)
        b = gene(P1, i)
        eng.oblige('population has the configured size', And(P1.get('slot', 'n') == M, P1.get('len', 'e') == M), '', 'post')
        eng.oblige('every individual is marked unevaluated', Implies(ins, Not(b.get('is_fitness_computed', 'e'))), '', 'post')
        eng.oblige('the initialiser is called exactly once on each variable', Implies(ins, calls(eng, 'ini')(i) == 1), '', 'post')
    return f


def build(spec):
    for v in ('so', 'se', 'n2', 'nx', 'n3'):
        spec.case('computeAllFitness (%s)' % NAMES[v], evaluate(v), contracts=contracts(v))
        spec.case('initializePop (%s)' % NAMES[v], initialize(v), contracts=contracts(v))
