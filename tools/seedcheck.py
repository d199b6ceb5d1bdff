#!/usr/bin/env python3
"""seedcheck.py [--notest] ID...   apply each planted bug to /repo, confirm build/tests/demo, run its check, undo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notest = '--notest' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


for i in ids:
    d = f'{V}/seeded/{i}'
    meta = json.load(open(d + '/meta.json'))
    out = [i, meta['property']]
    r = sh('bash', d + '/demo.sh', cwd='/repo')
    out.append('demo0=%d' % r.returncode)
    if r.returncode:
        print(r.stdout[-800:], r.stderr[-1500:])
    r = sh('git', '-C', '/repo', 'apply', d + '/patch.diff')
    if r.returncode:
        print(i, 'DOES NOT APPLY', r.stderr)
        continue
    try:
        if not notest:
            r = sh('bash', '/opt/vp/build.sh')
            out.append('build=%d' % r.returncode)
            sh('bash', '/opt/vp/test.sh', '/tmp/seed.o.json')
            p = set(json.load(open('/tmp/seed.o.json'))['passed'])
            out.append('tests_lost=%d' % len(base - p))
            if base - p:
                print(sorted(base - p)[:5])
        r = sh('bash', d + '/demo.sh', cwd='/repo')
        out.append('demo1=%d' % r.returncode)
        r = sh('python3', V + '/check.py', meta['property'], cwd=V)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        out.append('check=%d %s' % (r.returncode, v[:1]))
        f = V + '/tools/seed_results.json'
        q = json.load(open(f)) if os.path.exists(f) else {}
        q[i] = 'not caught' if r.returncode != 1 or not v else meta['property'] + ' ' + ', '.join(
            os.path.basename(x.split('replay=')[1].split()[0])[len(meta['property']) + 1:].replace('.json', '') + (' (failed obligation)' if x.endswith('no-failing-input-found') else '')
            for x in v)
        json.dump(q, open(f, 'w'), indent=1, sort_keys=True)
    finally:
        sh('git', '-C', '/repo', 'checkout', '-q', '--', '.')
        if not notest and '.cpp' in open(d + '/patch.diff').read():
            sh('bash', '/opt/vp/build.sh')
    print(*out, flush=True)
