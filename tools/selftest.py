#!/usr/bin/env python3
"""Setup: the verifier answers and notices an obviously false contract."""
import os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
os.makedirs(R + '/evidence/replay', exist_ok=True)
code = r'''
import vp_without_spu
from pyvc import env, core, instr
src = """
def total(xs):
    s = 0
    for x in xs:
        s += x
    return s

def evens(xs):
    out = []
    for x in xs:
        if x % 2 == 0:
            out.append(x)
    return out
"""
ns = {'__vf_instrumented__': True, '__name__': 'selftest_mod'}
import types, sys
m = types.ModuleType('selftest_mod'); sys.modules['selftest_mod'] = m; m.__dict__.update(ns)
exec(compile(instr.transform(src, 'selftest', 'selftest_mod'), 'selftest', 'exec'), m.__dict__)
def good(e):
    xs = e.int_seq('xs')
    ys = m.evens(xs)
    for k in e.each('k', e.len(ys)):
        e.prove('even', e.eq(e.get(ys, k) % 2, 0))
    e.prove('not longer', e.len(ys) <= e.len(xs))
def bad(e):
    xs = e.int_seq('xs')
    ys = m.evens(xs)
    e.prove('same length', e.eq(e.len(ys), e.len(xs)))
r = env.run_sym(good)
assert r['status'] == 'ok' and all(o['status'] == 'discharged' for o in r['obligations']) and r['obligations'], r
r = env.run_sym(bad)
assert any(o['status'] == 'refuted' for o in r['obligations']) or r['status'] != 'ok', r
print('selftest ok')
'''
e = dict(os.environ, PYTHONPATH=f'{R}:/opt/vp/plugin:/repo', JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1')
sys.exit(subprocess.run(['/opt/venv/bin/python', '-c', code], env=e).returncode)
