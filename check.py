#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]   decide one property on /repo's current tree.

exit 0: every obligation discharged (or its labelled bounded stand-in passed)
exit 1: VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import json, os, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')


def env():
    e = dict(os.environ)
    e['PYTHONPATH'] = f'{ROOT}:/opt/vp/plugin:{REPO}'
    e['JAX_PLATFORMS'] = 'cpu'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e['OMP_NUM_THREADS'] = e['OPENBLAS_NUM_THREADS'] = '1'
    e['TF_CPP_MIN_LOG_LEVEL'] = '3'
    return e


def worker(prop, mode, scratch, only=None, seed=1, mult=1.0, preset=None, procs=6, wait=True, tag=''):
    out = os.path.join(scratch, f'{mode}{tag}.json')
    cmd = [PY, '-m', 'pyvc.worker', '--prop', prop, '--mode', mode, '--out', out, '--seed', str(seed), '--mult', str(mult), '--procs', str(procs)]
    if only:
        cmd += ['--only', ','.join(only)]
    if preset:
        cmd += ['--preset', preset]
    log = open(out + '.log', 'w')
    p = subprocess.Popen(cmd, cwd=scratch, env=dict(env(), TMPDIR=scratch), stdout=log, stderr=subprocess.STDOUT)
    p.vf_out = out
    return finish(p) if wait else p


def finish(p, timeout=800):
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        return dict(error='worker timeout', results=[])
    try:
        return json.load(open(p.vf_out))
    except Exception as e:
        log = ''
        try:
            log = open(p.vf_out + '.log').read()[-2000:]
        except Exception:
            pass
        return dict(error=f'no worker output: {e}', tb=log, results=[])


def known(prop):
    f = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'open':
                    out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'vf-{prop}-')
    os.chmod(scratch, 0o711)
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    try:
        rc = run(prop, tier, seed, t0, scratch)
    finally:
        subprocess.run(['rm', '-rf', '--', scratch])
    sys.exit(rc)


def is_done(r):
    return r['status'] == 'ok' and r.get('obligations') and all(o['status'] == 'discharged' for o in r['obligations']) and 'end' in r['covered']


def replay_path(prop, name):
    return os.path.join(ROOT, 'evidence', 'replay', f'{prop}-{name}.json')


def violation(prop, name, doc, nfif=False):
    p = replay_path(prop, name)
    json.dump(doc, open(p, 'w'), indent=1, default=repr)
    print(f'VIOLATION property={prop} replay={p}' + (' no-failing-input-found' if nfif else ''), flush=True)


def run(prop, tier, seed, t0, scratch):
    thorough = tier == 'thorough'
    mult = 10.0 if thorough else 1.0
    kf = known(prop)
    special = os.path.join(ROOT, 'specs', f'{prop}_native.py')
    pn = None
    if os.path.exists(special):
        pn = subprocess.Popen([PY, special, os.path.join(scratch, 'native.json'), tier, str(seed)], cwd=scratch, env=dict(env(), TMPDIR=scratch),
                              stdout=open(os.path.join(scratch, 'native.json.log'), 'w'), stderr=subprocess.STDOUT)
        pn.vf_out = os.path.join(scratch, 'native.json')
    ps = worker(prop, 'sym', scratch, procs=5, wait=False)
    pc = worker(prop, 'conc', scratch, seed=seed, mult=mult, procs=3, wait=False)
    sym, conc = finish(ps), finish(pc)
    native = finish(pn) if pn else None
    violations = []       # (name, doc, nfif)

    def listed(nm, doc):
        return any(k.get('harness') == nm and k.get('match', '') in str(doc.get('why', '')) for k in kf)

    def alarms():
        return [v for v in violations if not listed(v[0], v[1])]
    undecided = []
    labels = {}
    if conc.get('error'):
        undecided.append(f'concrete worker: {conc["error"]} {conc.get("tb", "")[-600:]}')
    if sym.get('error'):
        undecided.append(f'symbolic worker: {sym["error"]} {sym.get("tb", "")[-600:]}')
    for r in conc.get('results', []):
        if r.get('fail'):
            f = r['fail']
            violations.append((r['name'], dict(property=prop, kind='failing input on the real code', harness=r['name'], why=f['why'], inputs=f['inputs'],
                                               seed=f.get('seed'), size=f.get('size'), traceback=f.get('tb'),
                                               rerun=f'cd {ROOT} && {PY} -m pyvc.replay {prop} {r["name"]} --seed {f.get("seed")} --size {f.get("size")}'), False))
        elif r.get('status') == 'error':
            undecided.append(f'{r["name"]} (concrete): {r["why"]}')
    failed_h = {v[0] for v in alarms()}
    if conc.get('error') and sym.get('error'):
        # the code cannot even be imported/loaded by the specification
        violations.append(('load', dict(property=prop, kind='specification cannot be bound to the code', sym=sym, conc=conc), True))
    # a proof can miss a time limit on a loaded machine: those left over get one more attempt with longer limits
    again = [r['name'] for r in sym.get('results', []) if r['status'] in ('ok', 'unsupported') and not is_done(r)]
    left = 620 - (time.time() - t0)
    if again and not alarms() and left > 60:
        os.environ.update(VF_SLOW='4', VF_BUDGET=str(left * .7))
        r2 = {r['name']: r for r in worker(prop, 'sym', scratch, only=again, procs=6, tag='again').get('results', [])}
        for k in ('VF_SLOW', 'VF_BUDGET'):
            del os.environ[k]
        sym['results'] = [r2[r['name']] if r['name'] in r2 and (is_done(r2[r['name']]) or r['status'] == 'unsupported') else r for r in sym['results']]
    total = disch = 0
    backends = {}
    stime = 0.0
    proved, bounded_ok, details = [], [], []
    need = []
    for r in sym.get('results', []):
        obs = r.get('obligations', [])
        bad = [o for o in obs if o['status'] != 'discharged']
        stime += r.get('solver_s', 0)
        isb = r.get('bound') is not None
        if r['status'] == 'ok' and not bad and obs and not isb and 'end' in r['covered']:
            proved.append(r['name'])
            total += len(obs); disch += len(obs)
            for o in obs:
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
        elif r['status'] == 'ok' and not bad and obs and isb and 'end' in r['covered']:
            bounded_ok.append((r['name'], r['bound'], len(obs), 'bounded by design'))
        else:
            need.append((r, bad))
            undecided.append(f'{r["name"]}: {r["status"]} {r.get("why") or ""} undischarged={[o["label"] for o in bad][:5]}')
        details.append(dict(harness=r['name'], status=r['status'], why=r.get('why'), paths=r['paths'], obligations=len(obs), undischarged=len(bad),
                            solver_s=r.get('solver_s'), wall_s=r.get('wall_s'), notes=r.get('notes'), what=r.get('what')))
    # obligations that were not discharged: look for a failing input, then for a bounded verdict
    todo = [x for x in need if x[0]['name'] not in failed_h]
    if todo and not alarms():
        names = [x[0]['name'] for x in todo]
        b = worker(prop, 'bounded', scratch, only=names, procs=6)
        bres = {r['name']: r for r in b.get('results', [])}
        for r, bad in todo:
            nm = r['name']
            br = bres.get(nm)
            found = None
            cands = [o for o in bad if o.get('inputs')]
            if br:
                cands = [o for o in br['obligations'] if o['status'] == 'refuted' and o.get('inputs')] + cands
            for o in cands[:6]:
                pf = os.path.join(scratch, 'preset.json')
                json.dump(o['inputs'], open(pf, 'w'))
                for s in range(3):
                    rr = worker(prop, 'conc', scratch, only=[nm], seed=seed + s, preset=pf, procs=1, tag='r')
                    f = (rr.get('results') or [{}])[0].get('fail')
                    if f:
                        found = dict(property=prop, kind='counterexample of the verifier, replayed on the real code', obligation=o['label'], harness=nm,
                                     why=f['why'], inputs=f['inputs'], preset=o['inputs'], formula=o.get('formula'), traceback=f.get('tb'),
                                     rerun=f'cd {ROOT} && {PY} -m pyvc.replay {prop} {nm} --preset <this file>')
                        break
                if found:
                    break
            if not found:
                rr = worker(prop, 'conc', scratch, only=[nm], seed=seed + 77, mult=6.0, procs=1, tag='r')
                f = (rr.get('results') or [{}])[0].get('fail')
                if f:
                    found = dict(property=prop, kind='failing input on the real code', harness=nm, why=f['why'], inputs=f['inputs'], seed=f.get('seed'),
                                 size=f.get('size'), traceback=f.get('tb'),
                                 rerun=f'cd {ROOT} && {PY} -m pyvc.replay {prop} {nm} --seed {f.get("seed")} --size {f.get("size")}')
            if found:
                violations.append((nm, found, False))
                continue
            ref = [o for o in bad if o['status'] == 'refuted']
            bref = [o for o in (br or {}).get('obligations', []) if o['status'] == 'refuted']
            if ref or bref:
                violations.append((nm, dict(property=prop, kind='failed obligation', harness=nm, obligations=(ref or bref)[:3],
                                            verifier_output=[o.get('formula') for o in (ref or bref)[:3]], unbounded=r['status'], why=r.get('why')), True))
                continue
            n_b = len((br or {}).get('obligations', []))
            n_bd = sum(o['status'] == 'discharged' for o in (br or {}).get('obligations', []))
            if br and br['status'] == 'ok' and n_b and n_bd == n_b:
                bounded_ok.append((nm, br['bound'], n_b, r.get('why') or 'obligation undecided'))
            else:
                cr = [c for c in conc.get('results', []) if c['name'] == nm]
                bounded_ok.append((nm, f'concrete runs only ({cr[0].get("runs") if cr else 0})', n_bd, r.get('why') or (br or {}).get('why') or 'undecided'))
    if native is not None:
        if native.get('error'):
            undecided.append(f'native back end: {native["error"]} {native.get("tb", "")[-500:]}')
            violations.append(('native', dict(property=prop, kind='native back end failed', detail=native), True))
        for v in native.get('violations', []):
            violations.append((v['name'], v['doc'], v.get('nfif', False)))
        total += native.get('obligations', 0)
        disch += native.get('discharged', 0)
        for k, v in native.get('backends', {}).items():
            backends[k] = backends.get(k, 0) + v
        for k in native.get('proved', []):
            proved.append(k)
        for k in native.get('bounded', []):
            bounded_ok.append(tuple(k))
        stime += native.get('solver_s', 0)
        details += native.get('details', [])
    # known findings
    kept = alarms()
    for k in kf:
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    runs = sum(r.get('runs', 0) for r in conc.get('results', []))
    if not kept and total == 0 and not bounded_ok and runs == 0:
        kept.append(('vacuous', dict(property=prop, kind='no obligation was generated', undecided=undecided, sym=sym.get('error'), conc=conc.get('error'),
                                     sym_tb=sym.get('tb'), conc_tb=conc.get('tb')), True))
    extra = sym.get('extra') or conc.get('extra') or {}
    fns = sorted({f for r in sym.get('results', []) for f in r.get('functions', [])} | set(extra.get('FUNCTIONS', [])) | set((native or {}).get('functions', [])))
    lvl = level_of(prop)
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl,
              coverage=dict(obligations=total, discharged=disch, checker_cmd=f'python3 {ROOT}/check.py {prop} --tier {tier}',
                            trusted_base=extra.get('TRUSTED', []) + (native or {}).get('trusted', []) + [
                                'pyvc: source instrumentation and symbolic hooks (cross-checked against CPython on the repository tests)', 'z3 5.3.2 / cvc5', 'CPython 3.12'],
                            functions_under_contract=fns, proved_harnesses=proved,
                            bounded_stand_ins=[dict(harness=n, bound=b, obligations=k, reason=w) for n, b, k, w in bounded_ok],
                            backends=backends, solver_s=round(stime, 2),
                            undecided=undecided, details=details,
                            concrete=[(r['name'], r.get('what', ''), r.get('runs', 0)) for r in conc.get('results', []) if r.get('runs')],
                            evaluations=runs, distinct_nontrivial=sum(r.get('distinct', 0) for r in conc.get('results', [])),
                            rule='concrete cross-check: every harness is also run on the unmodified code with random inputs; distinct by input tuple, skipped preconditions excluded',
                            samples=[s for r in conc.get('results', [])[:6] for s in r.get('samples', [])]),
              assumptions=extra.get('ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(kept))
    json.dump(ev, open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w'), indent=1, default=repr)
    for nm, doc, nf in sorted(kept, key=lambda x: x[2]):
        violation(prop, nm, doc, nf)
    print(f'{prop}: proved={len(proved)} obligations={disch}/{total} bounded={[(b[0], b[1]) for b in bounded_ok]} runs={runs} '
          f'violations={len(kept)} wall={time.time() - t0:.1f}s', flush=True)
    for u in undecided:
        print('  undecided:', u[:400])
    return 1 if kept else 0


def level_of(prop):
    try:
        m = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'proof'


if __name__ == '__main__':
    main()
