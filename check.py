#!/usr/bin/env python3-vt
"""check.py PID: decide one property on /repo's current working tree.

1. frontend/heuast (LibTooling) extracts the typed AST of the real code reachable from roots/PID.cpp;
2. specs/PID.py states the contracts; engine/ generates the verification conditions and discharges them
   with z3, then cvc5;
3. harness/PID.cpp is the same contract in executable form, compiled against the same tree: it replays
   what the prover refutes and stands in (bounded) for what no contract within reach decides.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: nothing could be decided."""
import hashlib
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V + '/engine')
sys.path.insert(0, V + '/specs')
INC = ['-I' + REPO, '-I/usr/include/eigen3']


def sh(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b'').decode('utf8', 'replace')


def fhash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def frontend(bdir):
    src = [V + '/frontend/heuast.cpp', V + '/frontend/build.sh']
    exe = '%s/heuast-%s' % (bdir, fhash(*src))
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        rc, out = sh(['bash', src[1], tmp], 300)
        if rc or not os.path.exists(tmp):
            return None, 'frontend does not build: ' + out[-500:]
        os.rename(tmp, exe)
    return exe, ''


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        os.makedirs(V + '/build', exist_ok=True)
        exe, err = frontend(V + '/build')
        print(exe or err)
        return 0 if exe else 1
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 780 if tier == 'quick' else 3600
    bdir = V + '/build'
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(V + '/evidence/replay', exist_ok=True)
    wdir = '%s/%s.%d' % (bdir, pid, os.getpid())
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir)
    try:
        return run(pid, tier, seed, t0, budget, bdir, wdir)
    finally:
        shutil.rmtree(wdir, ignore_errors=True)


def run(pid, tier, seed, t0, budget, bdir, wdir):
    root = '%s/roots/%s.cpp' % (V, pid)
    specf = '%s/specs/%s.py' % (V, pid)
    harn = '%s/harness/%s.cpp' % (V, pid)
    flags = re.search(r'^// FLAGS: (.*)$', open(harn).read(), re.M) if os.path.exists(harn) else None
    hflags = flags.group(1).split() if flags else ['-O1', '-fopenmp', '-fsanitize=address', '-fno-access-control']
    parts = re.search(r'^// PARTS: (\d+)$', open(harn).read(), re.M) if os.path.exists(harn) else None
    parts = int(parts.group(1)) if parts else 4
    hexes = ['%s/h%d' % (wdir, i) for i in range(parts)]
    hcomp = []

    def compile_harness(extra):
        return [subprocess.Popen(['g++', '-std=c++17', '-w', '-DHH_PARTS=%d' % parts, '-DHH_PART=%d' % i] + extra + hflags + ['-I' + V + '/harness'] + INC +
                                 [harn, '-o', hexes[i]], stdout=open('%s.log' % hexes[i], 'w'), stderr=subprocess.STDOUT) for i in range(parts)]

    def wait_all(ps):
        for p in ps:
            try:
                p.wait(timeout=max(30, t0 + budget * 0.8 - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
    if os.path.exists(harn):
        hcomp = compile_harness(['-DHH_RESEED'])
    # ---------------------------------------------------------------- deductive part
    res = []
    perr = ''
    complete = False
    if os.path.exists(specf):
        complete = re.search(r'^COMPLETE = True', open(specf).read(), re.M) is not None
        fe, perr = frontend(bdir)
        if fe:
            js = wdir + '/ast.json'
            cmd = [fe, js, root, '-std=c++17', '-I' + V + '/frontend/ompinc'] + INC + ['-fopenmp', '-fno-access-control', '-Wno-c++11-narrowing']
            rc, out = sh(cmd, 240)
            errs = [l for l in out.splitlines() if ' error: ' in l]
            if not os.path.exists(js) or errs:
                perr = 'extraction failed: ' + ' | '.join(errs[:3] or [out[-300:]])
            else:
                try:
                    from ast_ import Prog
                    import spec as S
                    m = importlib.import_module(pid)
                    sp = S.Spec(pid, Prog(js))
                    sp.tier = tier
                    m.build(sp)
                    lim = getattr(m, 'CASE_LIMIT', 150) * (1 if tier == 'quick' else 4)
                    ot = getattr(m, 'OBL_TIMEOUT', 8000) * (1 if tier == 'quick' else 4)
                    res = S.run_all(sp, jobs=8, obl_timeout=ot, limit=lim,
                                    deadline=t0 + budget * 0.5)
                    if getattr(m, 'COMPLETE', False):
                        # every obligation of this property is proved on the unchanged tree: what is not proved
                        # now gets a second, longer attempt before it is reported as a failed obligation
                        again = [r['case'] for r in res if lost_in(r)]
                        if again and len(again) <= 60:
                            r2 = S.run_all(sp, jobs=4, obl_timeout=ot * 3, limit=lim * 3, only_names=set(again), deadline=t0 + budget * 0.7)
                            byn = {r['case']: r for r in r2 if not (r['error'] or '').startswith(('killed', 'not started'))}
                            res = [byn.get(r['case'], r) for r in res]
                except Exception as ex:
                    perr = 'specification could not be applied: %r' % (ex,)
    # ---------------------------------------------------------------- executable contracts
    hfail, hstat, hsamples, herr = [], {}, [], ''
    if hcomp:
        wait_all(hcomp)
        if not all(os.path.exists(x) for x in hexes):
            hcomp = compile_harness([])
            wait_all(hcomp)
        if not all(os.path.exists(x) for x in hexes):
            out = ''.join(open(x + '.log').read() for x in hexes)
            herr = 'harness does not build: ' + '; '.join([l for l in out.splitlines() if 'error' in l][:3])
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', OMP_NUM_THREADS='3', OMP_WAIT_POLICY='passive')
        runs = []
        for x in hexes:
            if os.path.exists(x):
                d = x + '.d'
                os.makedirs(d, exist_ok=True)
                runs.append((x, subprocess.Popen([x, str(seed), tier, '', str(max(2, 10 // parts))], env=env, cwd=d,
                                                 stdout=open(x + '.out', 'w'), stderr=subprocess.STDOUT)))
        for x, p in runs:
            try:
                rc = p.wait(timeout=max(30, t0 + budget - 30 - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                rc = 124
            out = open(x + '.out', errors='replace').read()
            nf = len(hfail)
            for l in out.splitlines():
                if l.startswith('FAIL '):
                    hfail.append(l[5:])
                elif l.startswith('STAT '):
                    a = l.rsplit(' ', 2)
                    hstat[a[0][5:]] = (int(a[1]), int(a[2]))
                elif l.startswith('SAMPLE ') and len(hsamples) < 6:
                    hsamples.append(l[7:300])
            if 'FATAL: ThreadSanitizer' in out and len(hfail) == nf:
                herr = 'ThreadSanitizer cannot run here: ' + out[:200]
            elif rc == 124 and not hfail:
                herr = 'harness time limit'
            elif rc and len(hfail) == nf:
                hfail.append('harness :: exit status %d :: %s' % (rc, out[-800:]))
    # ---------------------------------------------------------------- verdict
    known = load_known(pid)
    vacuous = [r['case'] for r in res if r.get('vacuous')]
    allob = [(r['case'], o) for r in res for o in r['obligations']]
    proved = [x for x in allob if x[1]['result'] == 'proved' and x[0] not in vacuous]
    refuted = [x for x in allob if x[1]['result'] == 'refuted' and x[1]['exact']]
    undec = [x for x in allob if x[1]['result'] != 'proved' and not (x[1]['result'] == 'refuted' and x[1]['exact'])]
    broken = [(r['case'], r['error']) for r in res if r['error']]
    kf = [(k, f) for f in hfail for k in known if k in f]
    hnew = [f for f in hfail if not any(k in f for k in known)]
    rnew = [x for x in refuted if not any(k in '%s :: %s' % (x[0], x[1]['name']) for k in known)]
    for k, f in sorted(set((k, k) for k, f in kf)):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    write_evidence(pid, tier, seed, t0, res, allob, proved, undec, broken, refuted, hstat, hsamples, hnew, herr, perr, vacuous)
    nob, npr = len(allob), len(proved)
    print('%s: %d/%d obligations proved in %d cases, %d refuted, %d undecided; executable contract: %d evaluations in %d cases, %d failures; %.0fs'
          % (pid, npr, nob, len(res), len(refuted), len(undec), sum(a for a, _ in hstat.values()), len(hstat), len(hnew), time.time() - t0))
    for c, e in broken:
        print('  undecided case "%s": %s' % (c, e))
    for c, o in undec[:10]:
        print('  undecided obligation "%s: %s" %s' % (c, o['name'], o['loc']))
    if vacuous:
        print('  contradictory assumptions (not counted): ' + ', '.join(vacuous))
    for x in (perr, herr):
        if x:
            print('  ' + x)
    # a complete proof that no longer goes through: the named obligations failed (the verifier gives no counterexample)
    lost = []
    if complete:
        if perr:
            lost.append((perr, 'the contracts cannot be applied to the current source', '', '', ''))
        for r in res:
            e = r['error'] or ''
            if e.startswith(('killed', 'not started', 'worker')):
                continue
            if e:
                lost.append((r['case'], 'no verification condition: ' + e, '', '', ''))
            if r.get('vacuous'):
                lost.append((r['case'], 'assumptions became contradictory', '', '', ''))
            for o in r['obligations']:
                if o['result'] != 'proved' and not (o['result'] == 'refuted' and o['exact']):
                    lost.append((r['case'], o['name'], o['loc'], '%s (%s)' % (o['result'], o['by']), o['model']))
    if hnew or rnew or lost:
        rp = '%s/evidence/replay/%s.txt' % (V, pid)
        with open(rp, 'w') as f:
            f.write('property %s, tier %s, seed %d\n' % (pid, tier, seed))
            for c, o in rnew[:20]:
                f.write('\nFAILED OBLIGATION  case: %s\n  %s %s (%s)\n  %s\n  verifier output (counter-model):\n%s\n'
                        % (c, o['name'], o['loc'], o['kind'], o['by'], o['model']))
            for c, n, l, b, mo in lost[:20]:
                f.write('\nOBLIGATION NO LONGER PROVED  case: %s\n  %s %s\n  verifier: %s\n%s\n' % (c, n, l, b, mo))
            for h in hnew[:20]:
                f.write('\nFAILING INPUT on the real code (harness/%s.cpp, seed %d): %s\n' % (pid, seed, h))
            f.write('\nreplay: build harness/%s.cpp with %s %s and run it with arguments: %d %s\n' % (pid, ' '.join(hflags), ' '.join(INC), seed, tier))
        for c, o in rnew[:5]:
            print('  refuted obligation "%s: %s" %s' % (c, o['name'], o['loc']))
        for c, n, l, b, mo in lost[:5]:
            print('  no longer proved "%s: %s" %s' % (c, n, l))
        for h in hnew[:5]:
            print('  failing input: ' + h[:400])
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if hnew else ' no-failing-input-found'))
        return 1
    if not proved and not hstat:
        print('nothing could be decided')
        return 2
    return 0


def lost_in(r):
    return bool(r['error'] or r.get('vacuous') or any(o['result'] != 'proved' for o in r['obligations']))


def load_known(pid):
    out = []
    p = V + '/KNOWN-FINDINGS'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) (.*)$', l)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def write_evidence(pid, tier, seed, t0, res, allob, proved, undec, broken, refuted, hstat, hsamples, hnew, herr, perr, vacuous):
    man = {}
    try:
        for c in json.load(open(V + '/MANIFEST.json'))['checks']:
            man[c['property']] = c
    except Exception:
        pass
    level = man.get(pid, {}).get('level', 'proof')
    fns, contracts, libs, assume = {}, set(), set(), []
    byb, tsolve = {}, 0.0
    for r in res:
        for k, v in r['functions'].items():
            fns.setdefault(k, set()).update(v)
        contracts.update(r['contracts'])
        libs.update(r['lib'])
    for _, o in proved:
        byb[o['by']] = byb.get(o['by'], 0) + 1
        tsolve += o['s']
    ev, dn = sum(a for a, _ in hstat.values()), sum(b for _, b in hstat.values())
    try:
        import importlib
        m = importlib.import_module(pid)
        assume = list(getattr(m, 'ASSUMPTIONS', []))
    except Exception:
        pass
    cov = {
        'obligations': len(allob), 'discharged': len(proved),
        'checker_cmd': 'python3-vt check.py %s %s' % (pid, tier),
        'trusted_base': ['frontend/heuast (clang 18 LibTooling) and engine/ (VC generator)', 'z3 5.3.2, cvc5 1.4.2'] +
                        ['model of ' + x for x in sorted(libs)],
        'functions_under_contract': {k: sorted(v) for k, v in sorted(fns.items())},
        'contracts_applied_at_calls': sorted(contracts),
        'obligations_by_back_end': byb, 'solver_s': round(tsolve, 2),
        'cases': [{'case': r['case'], 'obligations': len(r['obligations']),
                   'proved': sum(o['result'] == 'proved' for o in r['obligations']), 'error': r['error'], 'wall_s': r['wall']} for r in res],
        'undecided_obligations': ['%s: %s %s' % (c, o['name'], o['loc']) for c, o in undec][:40],
        'undecided_cases': ['%s: %s' % x for x in broken] + ([perr] if perr else []) + ['contradictory assumptions: ' + c for c in vacuous],
        'refuted_obligations': ['%s: %s %s' % (c, o['name'], o['loc']) for c, o in refuted][:40],
        'evaluations': ev, 'distinct_nontrivial': dn,
        'rule': 'bounded stand-in and replay: executable contract cases run on the real code; distinct by hash of the input, every counted case reaches the contract\'s comparison',
        'samples': hsamples or ['none'],
        'harness_cases': {k: list(v) for k, v in sorted(hstat.items())},
        'harness_error': herr,
        'explanation': 'obligations/discharged count deductive verification conditions generated on this run from the current tree; evaluations count executions of the executable contract (bounded, not proof)',
    }
    e = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assume,
         'wall_s': round(time.time() - t0, 1), 'violations': len(hnew) + len(refuted)}
    os.makedirs(V + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (V, pid), 'w') as f:
        json.dump(e, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
