"""python -m pyvc.replay PROP HARNESS [--seed S --size N | --preset FILE]: rerun a failing input on the real code."""
import argparse, json, os, sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('harness')
    ap.add_argument('--seed', type=int, default=1); ap.add_argument('--size', type=int, default=3); ap.add_argument('--preset', default='')
    a = ap.parse_args()
    for p in ('/opt/vp/plugin', '/repo'):
        if p not in sys.path:
            sys.path.insert(1, p)
    os.environ.setdefault('JAX_PLATFORMS', 'cpu')
    from pyvc import worker, env
    m = worker.load(a.prop, 'conc')
    h = [x for x in m.harnesses() if x.name == a.harness][0]
    preset = None
    if a.preset:
        d = json.load(open(a.preset))
        preset = d.get('preset', d)
    r = env.run_conc(h.fn, a.seed, preset, a.size)
    print(json.dumps(r, indent=1, default=repr))
    sys.exit(0 if r['ok'] else 1)


if __name__ == '__main__':
    main()
