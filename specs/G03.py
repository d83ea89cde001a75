"""G03: runs end exactly when the configured limits say so."""
from spec import *
from ga_ import I, R, B, calls
import rand_
import frame
COMPLETE = True

ASSUMPTIONS = ['the steps of a round (evaluation, selection, breeding, movement, layers) are used through their frame: none of them writes the round counter, the options or the record, and only the selecting step writes the failure counter; the frames are checked syntactically over every function reachable from each step (engine/frame.py)',
               'user callbacks do not touch the solver they are called from',
               'configured limits are below 2^62',
               'every step itself returns (random retry loops: almost surely)']
NAMES = {'so': 'SOGA', 'se': 'SOGA, recording', 'n2': 'NSGA2', 'nx': 'NSGA2, run-time objectives', 'nr': 'NSGA2, recording', 'n3': 'NSGA3', 'nd': 'NSGA3, two layers, recording',
         'pr': 'PSO, recording', 'pn': 'PSO', 'ar': 'AOS, recording', 'an': 'AOS'}
GAS = {'computeAllFitness': 'evaluate', 'select': 'judge', 'crossover': 'breed', 'mutate': 'mutate'}
PSOS = {'computeAllFitness': 'evaluate', 'updatePGBest': 'judge', 'updatePopulation': 'breed'}
AOSS = {'computeFitness': 'evaluate', 'computeAtomBSBELE': 'judge', 'selectAndMakeLayers': 'select', 'computeLayerBSBELE': 'layers', 'updateElectrons': 'breed'}
FT = z3.Function('failures', I, I)               # the failure counter after the k-th judgement
BF = z3.Function('best', I, R)                   # the best fitness after the k-th judgement
BFM = z3.Function('bests', I, I, R)
KEEP = {'_generation', '_option', '_record'}


def cell(name):
    return Loc('calls:' + name)


def get(eng, n, what, *a):
    eng.quiet += 1
    try:
        r = eng.call_fn(eng.P.one('vroot::%s_%s' % (n, what))['id'], list(a))
    finally:
        eng.quiet -= 1
    return r


def run(n):
    steps = AOSS if n[0] == 'a' else PSOS if n[0] == 'p' else GAS
    fail = '_earlyStopCounter' if n[0] == 'a' else '_failTimes'

    def f(eng):
        P = eng.P
        root = P.one('vroot::%s_run' % n)
        T = P.ty(root['params'][0]['t'])['to']
        obj = eng.new('solver', eng.sym(T, 's'))
        ofs = {}
        # frames of the steps
        ids = frame.reach(P, [root['id']])
        recs = set()
        for i in ids:
            b = P.fns[i]['base']
            nm = b.rsplit('::', 1)[1].replace('__impl_', '')
            if nm in steps and '__impl_' in b and 'internal::SOGASelector' not in b:
                ofs.setdefault(nm, []).append(i)
        for nm, what in steps.items():
            may = KEEP if what == 'judge' else KEEP | {fail}
            if n[0] != 'a' and what == 'judge':
                may = KEEP
            w = frame.writes(P, ofs.get(nm, []), may)
            eng.oblige('frame of %s: %s not written' % (nm, ', '.join(sorted(may))), z3.BoolVal(not w), w[0][2] if w else '', 'frame')
        # everything else the run itself does is executed; it must not look at members the steps may change
        own = set()
        stepids = {i for l in ofs.values() for i in l}
        todo, seen = [root['id']], set()
        while todo:
            i = todo.pop()
            if i in seen or i in stepids or 'body' not in P.fns.get(i, {}) or P.fns[i]['base'].endswith('::bestFitness'):
                continue
            seen.add(i)
            own |= frame.mentions(P, i, None)
            frame.walk([P.fns[i]['body']], lambda m, up: todo.append(m['fn']) if isinstance(m.get('fn'), int) else None)
        if own - KEEP - {fail, '_atomBestPtr'}:
            raise Unsupported('the run itself reads ' + ', '.join(sorted(own - KEEP - {fail, '_atomBestPtr'})))

        for what in set(steps.values()):
            eng.st.store['calls:' + what] = sc(z3.IntVal(0))

        def step(what):
            def h(e_, e):
                l = e_.objloc(e)
                k = z3.simplify(e_.load(cell(what)).kids['e'] + 1)
                e_.store(cell(what), sc(k))
                if what == 'judge':
                    v = e_.load(l)
                    e_.store(l.f(fail), sc(FT(k)))
                    e_.pcfact(And(FT(k) >= 0, FT(k) < (1 << 62)))
                    if n[0] == 'a':
                        e_.store(Loc('best-electron'), e_.load(Loc('best-electron')).put(('energy', 'e'), BF(k)))
                return None
            return h
        for nm, l in ofs.items():
            for i in l:
                eng.contracts[P.fns[i]['base']] = step(steps[nm])

        def bestf(e_, e):
            k = e_.load(cell('judge')).kids['e']
            f_ = P.fns.get(e['callee'].get('fn'))
            t = P.strip(f_['ret'])
            v = e_.sym(t, 'best')
            if v.kind == 'sc':
                return sc(BF(k))
            return Node('arr', v.static, dict(v.kids, el=sc(L(1, lambda j: BFM(k, j)))))
        for fn in P.fns.values():
            if fn['base'].endswith('::bestFitness'):
                eng.contracts[fn['base']] = bestf
        if n[0] == 'a':
            S = eng.load(obj)
            bt = P.ty(dict((x, t) for x, t, _ in P.fields(T))['_atomBestPtr'])['to']
            eng.st.store['best-electron'] = eng.sym(bt, 'be')
            eng.store(obj.f('_atomBestPtr'), ptr_of(Loc('best-electron')))
        opt = get(eng, n, 'opt', ptr_of(obj))
        O = lambda a: eng.load(opt).get(a, 'e')
        mg, mf = (O('maxGenerations') if n[0] not in 'ap' else O('maxGeneration')), O('maxEarlyStop' if n[0] == 'a' else 'maxFailTimes')
        eng.assume(And(mg >= 0, mg < (1 << 62), mf >= 0, mf < (1 << 62)))
        gen0 = get(eng, n, 'gen', ptr_of(obj)).kids['e']
        fl0 = get(eng, n, 'fails', ptr_of(obj)).kids['e']
        eng.assume(And(gen0 >= 0, gen0 < (1 << 62)))
        rec = n in ('se', 'nr', 'nd', 'pr', 'ar')
        rl0 = None
        if rec:
            rl = get(eng, n, 'rec', ptr_of(obj))
            R0 = eng.load(rl)
            rl0 = R0.kids['n']
            eng.assume(And(rl0 >= 0, rl0 < (1 << 61)))
        gen_ = obj.f('_generation')
        eng.hints = [lambda eng_, S0, H, rest, it, s, nxt: [('generation <= maximum', lambda S, x: Or(x == 0, at_state(eng, S, gen_).kids['e'] <= mg))]]
        eng.call_fn(root['id'], [ptr_of(obj)])
        g = get(eng, n, 'gen', ptr_of(obj)).kids['e']
        fl = get(eng, n, 'fails', ptr_of(obj)).kids['e']
        C = lambda w: eng.load(cell(w)).kids['e']
        r = z3.Int('r')
        m1 = O('maxGenerations') if n[0] not in 'ap' else O('maxGeneration')
        eng.oblige('the options are not changed', And(m1 == mg, O('maxEarlyStop' if n[0] == 'a' else 'maxFailTimes') == mf), '', 'post')
        ev, br = C('evaluate'), C('breed')
        eng.oblige('each round judges once after evaluating', C('judge') == ev, '', 'post')
        eng.oblige('one evaluated round more than breeding rounds', ev == br + 1, '', 'post')
        if n[0] == 'a':
            eng.oblige('every round selects', C('select') == ev, '', 'post')
            eng.oblige('every further round has layers', C('layers') == br, '', 'post')
            eng.oblige('the generation count grows by the number of rounds', g == gen0 + br, '', 'post')
            stop = lambda k: Or(gen0 + k >= mg, FT(k + 1) >= mf)
            lim = If(mg > gen0, mg - gen0, z3.IntVal(0))
        else:
            if n[0] != 'p':
                eng.oblige('every further round mutates', C('mutate') == br, '', 'post')
            eng.oblige('the generation count is the number of breeding or movement rounds', g == br, '', 'post')
            eng.oblige('the generation count never exceeds the maximum', g <= mg, '', 'post')
            stop = lambda k: Or(k + 1 > mg, And(mf > 0, FT(k + 1) > mf))
            lim = mg
        eng.oblige('the failure count is that of the last round', fl == FT(ev), '', 'post')
        eng.oblige('a limit is reached in the last round', stop(br), '', 'post')
        eng.oblige('no limit was reached in an earlier round', Implies(And(r >= 0, r < br), Not(stop(r))), '', 'post')
        eng.oblige('the number of rounds is bounded: the run ends', And(*[Implies(And(R_(r), r >= 0), r <= lim) for R_ in eng.reaches]) if eng.reaches else z3.BoolVal(False), '', 'post')
        if rec:
            R1 = eng.load(get(eng, n, 'rec', ptr_of(obj)))
            base = rl0 if n[0] == 'a' else z3.IntVal(0)
            eng.oblige('one record per evaluated round', R1.kids['n'] == base + ev, '', 'post')
            if n in ('nr', 'nd'):
                j = z3.Int('j')
                eng.oblige('records are the best fitness of their rounds, in order', Implies(And(r >= 0, r < ev, j >= 0, j < (2 if n == 'nr' else 3)), R1.get('el', 'el', 'e')(r, j) == BFM(r + 1, j)), '', 'post')
            else:
                eng.oblige('records are the best fitness of their rounds, in order', Implies(And(r >= 0, r < ev), R1.get('el', 'e')(base + r) == BF(r + 1)), '', 'post')
            if n[0] == 'a':
                eng.oblige('earlier records are kept', Implies(And(r >= 0, r < rl0), R1.get('el', 'e')(r) == R0.get('el', 'e')(r)), '', 'post')
    return f


def build(spec):
    for n in NAMES:
        spec.case('run (%s)' % NAMES[n], run(n), overflow=True)
