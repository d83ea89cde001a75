#!/usr/bin/env python3-vt
"""development driver: vt.py PID [case substring]"""
import sys, os, importlib, time
sys.path.insert(0, '/verif/engine'); sys.path.insert(0, '/verif/specs')
from ast_ import Prog
import spec as S
pid = sys.argv[1]
only = sys.argv[2] if len(sys.argv) > 2 else None
src = '/verif/roots/%s.cpp' % pid
js = '/tmp/%s.json' % pid
rc = os.system('bash /verif/run_ast.sh /tmp/heuast %s %s 2>&1 | grep -E "error" | head' % (js, src))
m = importlib.import_module(pid)
sp = S.Spec(pid, Prog(js))
sp.tier = os.environ.get('VERIF_TIER', 'quick')
m.build(sp)
t = time.time()
res = S.run_all(sp, only=only)
S.report(res)
print('total %.1f' % (time.time() - t))
