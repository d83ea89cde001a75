"""Running the specification cases of one property: each case is one function (or a lemma) under
contract; it is executed symbolically and its obligations are discharged in a process of its own."""
import json
import os
import select as sel
import signal
import sys
import time
import traceback
import z3
sys.setrecursionlimit(20000)
from ast_ import Prog, Unsupported
from val import *
from sym import *
import lib
import list_
import solve

I = z3.IntSort()
R = z3.RealSort()


class CaseTimeout(Exception):
    pass


class Spec:
    def __init__(self, pid, prog):
        self.pid = pid
        self.P = prog
        self.cases = []

    def case(self, name, f, **kw):
        self.cases.append((name, f, kw))


def best_hint(val, better, n=None):
    """loop invariants of a scan for the best element: every scanned element is no better than the one an integer (index or
    pointer) refers to, or than the one whose value a scalar holds. val(eng, S, j): value of element j in state S"""
    def hint(eng, S0, H, rest, it, s, nxt):
        out = []
        j = z3.Int('jh')
        for p in rest:
            v0 = eng.leaf_at(S0, p)
            if isinstance(v0, L):
                continue
            if v0.sort() == I:
                out.append(('%s in range' % (p,), lambda S, x, p=p, v0=v0: And(eng.leaf_at(S, p) >= 0, Or(eng.leaf_at(S, p) < x, eng.leaf_at(S, p) == v0))))
                for off in (0, 1):
                    out.append(('%s best so far +%d' % (p, off), lambda S, x, p=p, off=off: z3.ForAll([j], Implies(And(j >= 0, j < x + off), Not(better(val(eng, S, j), val(eng, S, eng.leaf_at(S, p))))))))
            elif v0.sort() == R:
                for off in (0, 1):
                    out.append(('%s best value so far +%d' % (p, off), lambda S, x, p=p, off=off: z3.ForAll([j], Implies(And(j >= 0, j < x + off), Not(better(val(eng, S, j), eng.leaf_at(S, p)))))))
        return out
    return hint


def at_state(eng, S, loc):
    """the value at a location in another state"""
    sv = eng.st
    eng.st = S
    try:
        return eng.load(loc)
    finally:
        eng.st = sv


def run_case(spec, case, obl_timeout, limit):
    name, f, kw = case
    t0 = time.time()
    out = {'case': name, 'obligations': [], 'error': None, 'functions': {}, 'contracts': [], 'lib': [], 'loops': [],
           'havoc': []}

    def onalrm(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalrm)
    signal.alarm(int(limit))
    eng = None
    try:
        z3.set_param('smt.random_seed', 1)
        eng = Eng(spec.P, **kw)
        f(eng)
    except CaseTimeout:
        out['error'] = 'timeout while generating'
    except Unsupported as ex:
        out['error'] = 'unsupported: ' + str(ex)
        if os.environ.get('VDEBUG'):
            traceback.print_exc()
    except RecursionError:
        out['error'] = 'recursion limit'
    except Exception as ex:
        out['error'] = 'generator: %s: %s' % (type(ex).__name__, ex)
        if os.environ.get('VDEBUG'):
            traceback.print_exc()
    out['gen_s'] = round(time.time() - t0, 2)
    if eng is not None:
        out['functions'] = {k: sorted(v) for k, v in eng.functions.items()}
        out['contracts'] = sorted(eng.used_contracts)
        out['lib'] = sorted(str(x) for x in eng.used_lib)
        out['loops'] = eng.loopinfo
        out['havoc'] = [(a, [str(x) for x in b]) for a, b in eng.havoc_log]
        try:
            seen = {}
            for o in eng.obl:
                rem = limit - (time.time() - t0)
                if rem < 1:
                    out['obligations'].append(dict(name=o.name, loc=o.loc, kind=o.kind, result='unknown', by='', s=0, model='case time limit', exact=o.exact))
                    continue
                if is_true(o.goal):
                    r = ('proved', 'simplifier', 0.0, '')
                else:
                    r = solve.prove(o.facts, o.pc, o.goal, int(min(obl_timeout, rem * 1000)), eng.instances(o.goal, *[c for c in o.pc if not has_quant(c)]))
                out['obligations'].append(dict(name=o.name, loc=o.loc, kind=o.kind, result=r[0], by=r[1], s=round(r[2], 3),
                                               model=r[3] if r[0] != 'proved' else '', exact=o.exact))
        except CaseTimeout:
            out['error'] = (out['error'] or '') + ' timeout while proving'
        # vacuity: the assumptions of the case must be satisfiable (not provably contradictory)
        signal.alarm(0)
        if eng.obl and not out['error']:
            last = eng.obl[-1]
            try:
                r = solve.quick(last.facts, last.pc, z3.BoolVal(False), 2000)
            except Exception:
                r = 'unknown'
            out['vacuous'] = (r == 'unsat')
    signal.alarm(0)
    out['wall'] = round(time.time() - t0, 2)
    return out


def run_all(spec, jobs=8, obl_timeout=8000, limit=150, only=None, deadline=None, only_names=None):
    """run the cases in forked processes; returns the list of their results"""
    todo = [c for c in spec.cases if (not only or only in c[0]) and (only_names is None or c[0] in only_names)]
    res = []
    live = {}
    i = 0
    while i < len(todo) or live:
        while i < len(todo) and len(live) < jobs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    o = run_case(spec, todo[i], obl_timeout, limit)
                    data = json.dumps(o).encode()
                except BaseException as ex:
                    data = json.dumps({'case': todo[i][0], 'obligations': [], 'error': 'worker: %r' % (ex,), 'functions': {},
                                       'contracts': [], 'lib': [], 'loops': [], 'havoc': [], 'wall': 0}).encode()
                with os.fdopen(w, 'wb') as fh:
                    fh.write(data)
                os._exit(0)
            os.close(w)
            live[r] = (pid, todo[i][0], time.time(), [])
            i += 1
        rd, _, _ = sel.select(list(live), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 16)
            pid, nm, t0, buf = live[r]
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                res.append(json.loads(b''.join(buf)))
            except ValueError:
                res.append({'case': nm, 'obligations': [], 'error': 'worker died', 'functions': {}, 'contracts': [], 'lib': [],
                            'loops': [], 'havoc': [], 'wall': 0})
        for r in list(live):
            pid, nm, t0, buf = live[r]
            if time.time() - t0 > limit + 30 or (deadline and time.time() > deadline):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                res.append({'case': nm, 'obligations': [], 'error': 'killed: time limit', 'functions': {}, 'contracts': [], 'lib': [],
                            'loops': [], 'havoc': [], 'wall': time.time() - t0})
        if deadline and time.time() > deadline:
            for c in todo[i:]:
                res.append({'case': c[0], 'obligations': [], 'error': 'not started: time limit', 'functions': {}, 'contracts': [],
                            'lib': [], 'loops': [], 'havoc': [], 'wall': 0})
            i = len(todo)
    return res


def report(res, verbose=True):
    for o in sorted(res, key=lambda o: o['case']):
        n = len(o['obligations'])
        p = sum(x['result'] == 'proved' for x in o['obligations'])
        print('%-40s %3d/%3d %6.1fs gen %s %s%s' % (o['case'], p, n, o['wall'], o.get('gen_s'), o['error'] or '',
                                               ' VACUOUS' if o.get('vacuous') else ''))
        if verbose:
            seen = set()
            for x in o['obligations']:
                if x['result'] != 'proved' and (x['name'], x['loc']) not in seen:
                    seen.add((x['name'], x['loc']))
                    print('      %s [%s] %s %s %s' % (x['name'], x['loc'], x['result'], x['s'], '' if x['exact'] else '(inexact)'))
                    if os.environ.get('VMODEL'):
                        print('          ' + x['model'][:1500].replace('\n', '\n          '))
