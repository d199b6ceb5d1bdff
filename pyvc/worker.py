"""Runs the harnesses of one property in one mode; prints one JSON document to --out."""
from __future__ import annotations
import argparse, importlib, json, os, random, signal, sys, time, traceback, multiprocessing as mp


class H:
    def __init__(self, name, fn, bound=2, budget=60, conc=200, conc_s=6, functions=(), timeout_ms=10000, branch_ms=2000,
                 sym=True, size=3, unbounded=True, cover=('end',), what='', max_paths=4000, mbqi=True):
        self.max_paths, self.mbqi = max_paths, mbqi
        self.name, self.fn, self.bound, self.budget = name, fn, bound, budget
        self.conc, self.conc_s, self.functions = conc, conc_s, list(functions)
        self.timeout_ms, self.branch_ms = timeout_ms, branch_ms
        self.sym, self.size, self.unbounded, self.cover = sym, size, unbounded, cover
        self.what = what or (fn.__doc__ or '').strip().split('\n')[0]


def load(prop, mode):
    import vp_without_spu  # noqa: F401
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    hdr = importlib.import_module(f'specs.{prop}_cfg') if os.path.exists(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', f'{prop}_cfg.py')) else None
    names = instrument_list(prop)
    if mode in ('sym', 'bounded'):
        from pyvc import instr
        f = instr.Finder(names, os.environ.get('VERIF_REPO', '/repo'))
        sys.meta_path.insert(0, f)
    m = importlib.import_module(f'specs.{prop}')
    m.__dict__['__vf_harness__'] = True
    if mode in ('sym', 'bounded') and 'jax' in sys.modules:
        from pyvc import models
        models.enable_trees()
    if mode in ('sym', 'bounded'):
        miss = [n for n in names if n in sys.modules and not sys.modules[n].__dict__.get('__vf_instrumented__')]
        if miss:
            raise RuntimeError(f'not instrumented: {miss}')
    return m


def instrument_list(prop):
    import ast
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', f'{prop}.py')
    for s in ast.parse(open(p).read()).body:
        if isinstance(s, ast.Assign) and getattr(s.targets[0], 'id', '') == 'INSTRUMENT':
            return ast.literal_eval(s.value)
    return []


def budget_of(h):
    return min(h.budget * 1.5, float(os.environ['VF_BUDGET'])) if os.environ.get('VF_BUDGET') else h.budget


def _sym_one(args):
    prop, i, mode = args
    h = HS[i]
    from pyvc import env
    t0 = time.time()
    try:
        bound = h.bound if mode == 'bounded' else (None if h.unbounded else h.bound)
        sys.setrecursionlimit(20000)
        slow = int(os.environ.get('VF_SLOW', '1'))       # a second attempt gets longer solver limits
        r = env.run_sym(h.fn, bound=bound, timeout_ms=h.timeout_ms * min(slow, 2), branch_ms=h.branch_ms * slow, budget=budget_of(h), max_paths=h.max_paths, mbqi=h.mbqi)
    except BaseException as e:
        r = dict(status='error', why=f'{type(e).__name__}: {e}', tb=traceback.format_exc()[-3000:], obligations=[], paths=0, checks=0, solver_s=0,
                 wall_s=time.time() - t0, notes=[], covered=[], bound=None)
    r['name'] = h.name
    r['functions'] = h.functions
    r['what'] = h.what
    for ob in r['obligations']:
        for k in list(ob):
            if k not in ('label', 'status', 'backend', 'time', 'formula', 'pc', 'info', 'inputs', 'reason', 'tb'):
                ob.pop(k)
    return r


def _conc_one(args):
    prop, i, seed, mult, preset = args
    h = HS[i]
    from pyvc import env
    t0 = time.time()
    n = skipped = obl = 0
    distinct = set()
    fail = None
    samples = []
    rr = random.Random(seed * 1000003 + i)
    if preset is not None:
        r = env.run_conc(h.fn, seed, preset, h.size)
        return dict(name=h.name, runs=1, fail=None if r['ok'] else dict(r, harness=h.name, preset=preset))
    while n < h.conc * mult and time.time() - t0 < h.conc_s * mult:
        s = rr.randrange(1 << 40)
        size = h.size if rr.random() < .7 else h.size + rr.choice([1, 3, 6])
        r = env.run_conc(h.fn, s, None, size)
        n += 1
        obl += r['n']
        if r.get('skip'):
            skipped += 1
            continue
        if not r['ok']:
            fail = dict(r, harness=h.name)
            break
        d = repr(sorted((k, repr(v)[:60]) for k, v in r['inputs'].items()))
        distinct.add(hash(d))
        if len(samples) < 1:
            samples.append(d[:300])
    return dict(name=h.name, what=h.what, runs=n, skipped=skipped, obligations=obl, distinct=len(distinct), fail=fail, samples=samples, wall_s=round(time.time() - t0, 2))


HS = []


def _guard(fn, args, q, j, limit):
    try:
        os.setpgrp()
        q.put((j, fn(args)))
    except BaseException as e:
        q.put((j, dict(name=HS[args[1]].name, status='error', why=f'{type(e).__name__}: {e}', tb=traceback.format_exc()[-2000:], obligations=[],
                       paths=0, checks=0, solver_s=0, wall_s=0, notes=[], covered=[], bound=None, functions=[], what='', runs=0, fail=None)))


def pool(fn, tasks, procs, limits):
    """Fork one process per task, at most procs at once, each with its own time limit."""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    res = {}
    todo = list(enumerate(tasks))
    live = {}
    while todo or live:
        while todo and len(live) < procs:
            j, t = todo.pop(0)
            p = ctx.Process(target=_guard, args=(fn, t, q, j, limits[j]))
            p.start()
            live[j] = (p, time.time())
        try:
            while True:
                j, r = q.get(timeout=0.05)
                res[j] = r
        except Exception:
            pass
        for j in list(live):
            p, t0 = live[j]
            if j in res:
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[j]
            elif not p.is_alive():
                time.sleep(0.2)
                try:
                    while True:
                        jj, r = q.get(timeout=0.1)
                        res[jj] = r
                except Exception:
                    pass
                if j not in res:
                    res[j] = dict(name=HS[tasks[j][1]].name, status='error', why='worker died', obligations=[], paths=0, checks=0, solver_s=0, wall_s=time.time() - t0,
                                  notes=[], covered=[], bound=None, functions=[], what='', runs=0, fail=None)
                live.pop(j, None)
            elif time.time() - t0 > limits[j]:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    pass
                p.kill()
                res[j] = dict(name=HS[tasks[j][1]].name, status='unsupported', why='time limit', obligations=[], paths=0, checks=0, solver_s=0,
                              wall_s=time.time() - t0, notes=[], covered=[], bound=None, functions=[], what='', runs=0, fail=None)
                live.pop(j, None)
    return [res[j] for j in range(len(tasks))]


def other_tree():
    """for trying changes on a copy: the spu-less importer reads /repo, whatever the path says"""
    repo = os.environ.get('VERIF_REPO', '/repo')
    if repo == '/repo':
        return
    import vp_without_spu as v

    class F:
        @staticmethod
        def find_spec(name, path=None, target=None):
            return v._Finder.find_spec(name, [repo] if path is None and name == 'mplang' else path, target)
    sys.meta_path[:] = [F if f is v._Finder else f for f in sys.meta_path]


def main():
    global HS
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--mode', required=True)
    ap.add_argument('--out', required=True)
    ap.add_argument('--only', default='')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--mult', type=float, default=1.0)
    ap.add_argument('--preset', default='')
    ap.add_argument('--procs', type=int, default=6)
    a = ap.parse_args()
    t0 = time.time()
    other_tree()
    try:
        m = load(a.prop, a.mode)
        HS = m.harnesses()
    except BaseException as e:
        json.dump(dict(error=f'{type(e).__name__}: {e}', tb=traceback.format_exc()[-4000:]), open(a.out, 'w'))
        return
    only = set(a.only.split(',')) if a.only else None
    idx = [i for i, h in enumerate(HS) if (not only or h.name in only)]
    if a.mode in ('sym', 'bounded'):
        idx = [i for i in idx if HS[i].sym]
        tasks = [(a.prop, i, a.mode) for i in idx]
        res = pool(_sym_one, tasks, a.procs, [budget_of(HS[i]) + 30 for i in idx])
    else:
        idx = [i for i in idx if HS[i].conc > 0]
        preset = json.load(open(a.preset)) if a.preset else None
        tasks = [(a.prop, i, a.seed, a.mult, preset) for i in idx]
        res = pool(_conc_one, tasks, a.procs, [HS[i].conc_s * a.mult + 60 for i in idx])
    extra = {}
    for k in ('ASSUMPTIONS', 'TRUSTED', 'FUNCTIONS'):
        if hasattr(m, k):
            extra[k] = getattr(m, k)
    json.dump(dict(results=res, wall_s=round(time.time() - t0, 2), extra=extra,
                   symh=[h.name for h in HS if h.sym], conch=[h.name for h in HS]), open(a.out, 'w'), default=repr)


if __name__ == '__main__':
    main()
