"""C18  Cluster descriptions are validated and preserved."""
import z3
from pyvc.worker import H
from pyvc import core, containers as C
from pyvc.core import Sort

INSTRUMENT = ['mplang.libs.device.cluster']
ASSUMPTIONS = ['the extra fields of a RuntimeInfo do not use its reserved names (documented precondition)', 'descriptions are given as the documented types: dictionaries, lists, strings']
TRUSTED = []

import importlib.util
import sys
import types
import vp_without_spu  # noqa
import json
import os
import mplang


def load():
    # mplang.libs.device's __init__ needs spu; the module itself does not
    import mplang.libs
    if 'mplang.libs.device' not in sys.modules:
        p = types.ModuleType('mplang.libs.device')
        p.__path__ = [os.path.join(os.path.dirname(mplang.__file__), 'libs', 'device')]
        sys.modules['mplang.libs.device'] = p
    import mplang.libs.device.cluster as m
    return m


K = load()
INFO, VAL = Sort('Info'), Sort('Value', truth=lambda x: True)
NAME = Sort('Name', pytype=str)
KIND = Sort('Kind', pytype=str, methods={h: (lambda x, h=h: core.wrap(z3.Function(h, x.t.sort(), z3.StringSort())(x.t), 'str')) for h in ('lower', 'upper', 'casefold')})
SINGLE = ('ppu', 'tee')


def one_member(env, kind):
    return env.or_(*[env.eq(kind.lower(), k) for k in SINGLE])


def description(env, part):
    """any number of nodes and devices, with any names, ranks, kinds and members"""
    n, nd = env.length('nodes'), 0 if part == 'nodes' else env.length('devices')
    name, rank, ep, info = env.fn('name', ['int'], NAME, conc=names), env.fn('rank', ['int'], 'int', conc=lambda r, i: r.choice([i, i, i, i, i, r.randint(-1, 4)])), env.fn('endpoint', ['int'], VAL), env.fn('info', ['int'], INFO)
    dname, kind, size, member, config = env.fn('dname', ['int'], NAME, conc=names), env.fn('kind', ['int'], KIND, conc=lambda r, i: r.choice(['ppu', 'PPU', 'tee', 'SPU', 'x'])), env.fn('size', ['int'], 'int', conc=lambda r, i: r.choice([1, 1, 1, 0, 2])), env.fn('member', ['int', 'int'], 'int', conc=lambda r, i, j: r.randint(0, 3)), env.fn('config', ['int'], VAL)
    odd = env.fn('odd_rank', ['int', 'int'], 'int', conc=lambda r, i, j: 0)
    if part == 'devices':
        rank = lambda i: i          # proper nodes
    node = lambda i: K.Node(name=name(i), rank=rank(i), endpoint=ep(i), runtime_info=info(i))
    if env.sym:
        q = z3.Int('sq')
        zs = z3.Function('size', z3.IntSort(), z3.IntSort())
        core.ENG.assume(z3.ForAll([q], zs(q) >= 0, patterns=[zs(q)]))
    mem = lambda d, j: K.Node(name=name(member(d, j)), rank=rank(member(d, j)) + odd(d, j), endpoint=ep(member(d, j)), runtime_info=info(member(d, j)))
    dev = lambda d: K.Device(name=dname(d), kind=kind(d), members=env.seq(f'members{d}', lambda j: mem(d, j), n=size(d)), config=config(d))
    if env.sym:
        return n, nd, C.sym_dict('nodes_by', NAME, node, n=n), (C.sym_dict('devices_by', NAME, dev, n=nd) if part != 'nodes' else {}), types.SimpleNamespace(**{k: v for k, v in locals().items()})
    nodes, devices = {}, {}
    for i in range(n):
        nodes[name(i) if env.rng.random() < .97 else 'other'] = node(i)
    for d in range(nd):
        devices[dname(d)] = dev(d)
    return len(nodes), len(devices), nodes, devices, None


def names(r, i):
    return f'n{i}'


def values(d):
    return list(d.values())


def h_accept(env, part):
    """A description is accepted exactly when names fit, ranks are 0..n-1 without repeats, members are the cluster's nodes, and PPU and TEE devices have one member."""
    n, nd, nodes, devices, _ = description(env, part)
    r = env.run(K.ClusterSpec, 'c', nodes, devices)
    if env.sym:
        N, nk = (lambda i: nodes._sym.at(i)), (lambda i: nodes._sym.key(i))
        D, dk = (lambda i: devices._sym.at(i)), (lambda i: devices._sym.key(i))
    else:
        N, D, nk, dk = values(nodes).__getitem__, values(devices).__getitem__, list(nodes).__getitem__, list(devices).__getitem__
    i, j, d, k = (env.int(x, 0) for x in 'ijdk')
    if r[0] == 'ok':
        env.prove('node keys are names', env.implies(i < n, env.eq(nk(i), N(i).name)) if env.sym or i < n else True)
        if part != 'nodes' if env.sym else d < nd:
            env.prove('device keys are names', env.implies(d < nd, env.eq(dk(d), D(d).name)))
        if env.sym or i < n:
            env.prove('ranks are in range', env.implies(i < n, env.and_(N(i).rank >= 0, N(i).rank < n)))
        if env.sym or i < n and j < n:
            env.prove('ranks do not repeat', env.implies(env.and_(i < n, j < n, env.eq(N(i).rank, N(j).rank)), env.eq(i, j)))
        if part != 'nodes' and bool(d < nd):
            m = D(d).members
            env.prove('PPU and TEE devices have one member', env.implies(one_member(env, D(d).kind), env.eq(env.len(m), 1)))
            if bool(k < env.len(m)):
                env.prove('members are nodes of the cluster', env.exists(n, lambda x: env.eq(env.get(m, k), N(x))))
        env.cover('accepted')
        return
    env.prove('a refusal is a ValueError', isinstance(r[1], ValueError), r)
    keys = env.and_(env.forall(n, lambda i: env.eq(nk(i), N(i).name)), part == 'nodes' or env.forall(nd, lambda d: env.eq(dk(d), D(d).name)))
    inr = env.forall(n, lambda i: env.and_(N(i).rank >= 0, N(i).rank < n))
    dist = env.forall(n, lambda i: env.forall(n, lambda j: env.implies(env.eq(N(i).rank, N(j).rank), env.eq(i, j))))
    known = True if part == 'nodes' else env.forall(nd, lambda d: env.forall(env.len(D(d).members), lambda j: env.exists(n, lambda i: env.eq(env.get(D(d).members, j), N(i)))))
    single = part == 'nodes' or env.forall(nd, lambda d: env.implies(one_member(env, D(d).kind), env.eq(env.len(D(d).members), 1)))
    for f in (keys, inr, dist, known, single):
        env.assume(f)
    env.prove('only invalid descriptions are refused', False, r)
    env.cover('refused')


def h_round(env):
    """Writing an accepted description out and reading it back gives an equal one; addresses are listed by rank."""
    n, nd = env.length('nodes'), env.length('devices')
    name, ep = env.fn('name', ['int'], NAME, conc=names), env.fn('endpoint', ['int'], VAL)
    order = env.fn('rank', ['int'], 'int', conc=lambda r, i: i)
    inv = env.fn('node_at', ['int'], 'int', conc=lambda r, i: i)
    ver, plat, ops, extra = (env.fn(x, ['int'], VAL) for x in ('version', 'platform', 'ops', 'extra'))
    dname, kind, size, member, config = env.fn('dname', ['int'], NAME, conc=names), env.fn('kind', ['int'], KIND), env.fn('size', ['int'], 'int', conc=lambda r, i: 1), env.fn('member', ['int', 'int'], 'int', conc=lambda r, i, j: r.randint(0, 0)), env.fn('config', ['int'], VAL)
    if env.sym:
        x, y = z3.Ints('sx sy')
        zr, zi, zs, zm, zn = (z3.Function(nm, *([z3.IntSort()] * k), z3.IntSort()) for nm, k in (('rank', 1), ('node_at', 1), ('size', 1), ('member', 2), ('xx', 1)))
        N = core.iterm(n)
        ok = lambda t: z3.And(t >= 0, t < N)
        for f, g in ((zr, zi), (zi, zr)):
            core.ENG.assume(z3.ForAll([x], z3.Implies(ok(x), z3.And(ok(f(x)), g(f(x)) == x)), patterns=[f(x)]))
        core.ENG.assume(z3.ForAll([x], zs(x) >= 0, patterns=[zs(x)]))
        core.ENG.assume(z3.ForAll([x, y], z3.And(ok(zm(x, y)), zi(zr(zm(x, y))) == zm(x, y)), patterns=[zm(x, y)]))
    info = lambda i: K.RuntimeInfo(version=ver(i), platform=plat(i), op_bindings=ops(i), extra={'custom': extra(i)})
    node = lambda i: K.Node(name=name(i), rank=order(i), endpoint=ep(i), runtime_info=info(i))
    dev = lambda d: K.Device(name=dname(d), kind=kind(d), members=env.seq(f'members{d}', lambda j: node(member(d, j)), n=size(d)), config=config(d))
    nodes, devices = C.sym_dict('nodes_by', NAME, node, n=n), C.sym_dict('devices_by', NAME, dev, n=nd)
    spec = object.__new__(K.ClusterSpec)
    for k, v in dict(cluster_id=env.opaque('id', VAL), nodes=nodes, devices=devices).items():
        object.__setattr__(spec, k, v)
    i, j = env.int('i', 0), env.int('j', 0)
    env.assume(i < n)
    env.assume(env.forall(n, lambda x: env.eq(nodes._sym.key(x), name(x))))
    env.assume(env.forall(nd, lambda x: env.eq(devices._sym.key(x), dname(x))))
    env.assume(env.forall(nd, lambda x: env.implies(one_member(env, kind(x)), env.eq(size(x), 1))))
    eps = env.run(lambda: spec.endpoints)
    env.prove('as many addresses as nodes', eps[0] == 'ok' and env.eq(env.len(eps[1]), n))
    env.prove('at r the address of the node of rank r', env.eq(env.get(eps[1], order(i)), ep(i)))
    d = env.run(spec.to_dict)
    env.prove('written', d[0] == 'ok', d)
    # nodes are written in rank order: shown at an arbitrary position, used at the ranks of the members
    p = env.int('p', 0)
    env.assume(p < n)
    at = env.eq(env.get(d[1]['nodes'], p)['name'], name(inv(p)))
    env.prove('nodes are written in rank order', at)
    core.ENG.assume(z3.ForAll([x], z3.Implies(ok(x), z3.substitute(core.bterm(at), (core.iterm(p), x))), patterns=[zi(x)]))
    r = env.run(K.ClusterSpec.from_dict, d[1])
    env.prove('read back', r[0] == 'ok', r)
    if r[0] != 'ok':
        return
    b = r[1]
    env.prove('the same cluster', env.eq(b.cluster_id, spec.cluster_id))
    env.prove('the same number of nodes and devices', env.and_(env.eq(env.len(b.nodes), n), env.eq(env.len(b.devices), nd)))
    env.prove('the node is there', b.nodes._sym.has(name(i)))
    env.prove('the same node', env.eq(b.nodes._sym.at_key(name(i)) if hasattr(b.nodes._sym, 'at_key') else b.nodes[name(i)], node(i)))
    d = env.int('d', 0)
    env.assume(d < nd)
    env.assume(j < size(d))
    x, y = b.devices[devices._sym.key(d)], dev(d)
    env.prove('the same device', env.and_(env.eq(x.name, y.name), env.eq(x.kind, y.kind), env.eq(x.config, y.config), env.eq(env.len(x.members), size(d))))
    env.prove('the same members', env.eq(env.get(x.members, j), node(member(d, j))))
    env.cover('end')


def h_by_rank(env):
    """Looking a node up by rank gives the node of that rank, and fails when there is none."""
    n = env.length('nodes')
    rank = env.fn('rank', ['int'], 'int', conc=lambda r, i: (i * 7 + 3) % 5 if n != 5 else i)
    node = lambda i: K.Node(name=env.fn('name', ['int'], NAME, conc=names)(i), rank=rank(i), endpoint=None, runtime_info=None)
    spec = object.__new__(K.ClusterSpec)
    nodes = C.sym_dict('nodes_by', NAME, node, n=n) if env.sym else {names(None, i): node(i) for i in range(n)}
    object.__setattr__(spec, 'nodes', nodes)
    env.assume(env.forall(n, lambda i: env.forall(n, lambda j: env.implies(env.eq(rank(i), rank(j)), env.eq(i, j)))))
    q = env.int('rank', -1)
    r = env.run(spec.get_node_by_rank, q)
    if r[0] == 'ok':
        env.prove('the node of that rank', env.eq(r[1].rank, q))
        env.prove('a node of the cluster', env.exists(n, lambda i: env.eq(r[1].rank, rank(i))))
        env.cover('found')
    else:
        env.prove('KeyError', isinstance(r[1], KeyError), r)
        env.prove('no node has the rank', env.forall(n, lambda i: env.not_(env.eq(rank(i), q))))
        env.cover('missing')


def h_round_run(env):
    """The same round trip on real dictionaries, built directly, read from configuration, or made by simple()."""
    g = env.rng
    n = g.randint(1, 6)
    how = g.choice(['direct', 'config', 'simple'])
    info = lambda: dict(version=g.choice(['1', '', 'N/A']), platform=g.choice(['x', '']), op_bindings=g.choice([{}, {'a': 'b'}]), **g.choice([{}, {'zone': 'z', 'n': 3}]))
    if how == 'simple':
        kw = dict(endpoints=g.choice([None, [f'h{g.randint(0, 9)}:{i}' for i in range(n)]]), op_bindings=g.choice([None, [{f'k{i}': f'v{i}'} for i in range(n)]]), spu_world_size=g.choice([None, g.randint(1, n)]))
        kw.update(g.choice([{}, {}, {'enable_ppu_device': False}, {'enable_spu_device': False}, {'enable_ppu_device': False, 'enable_spu_device': False}, {'endpoints': ['h'] * (n + 1)}, {'op_bindings': [{}] * (n + 1)}]))
        r = env.run(lambda: K.ClusterSpec.simple(n, **kw))
        bad = kw['endpoints'] is not None and len(kw['endpoints']) != n or kw['op_bindings'] is not None and len(kw['op_bindings']) != n or not kw.get('enable_ppu_device', True) and not kw.get('enable_spu_device', True)
        env.prove('simple() refuses only bad arguments', (r[0] == 'exc') == bad and (not bad or isinstance(r[1], ValueError)), r)
        if bad:
            return
        spec = r[1]
        want = {f'node{i}': (i, kw['endpoints'][i] if kw['endpoints'] else f'localhost:{5000 + i}', kw['op_bindings'][i] if kw['op_bindings'] else {}) for i in range(n)}
        env.prove('the nodes asked for', {k: (x.rank, x.endpoint, x.runtime_info.op_bindings) for k, x in spec.nodes.items()} == want, spec)
        one = [d for d in spec.devices.values() if d.kind.lower() == 'ppu']
        env.prove('one PPU per node', [tuple(d.member_ranks) for d in one] == ([(i,) for i in range(n)] if kw.get('enable_ppu_device', True) else []))
        spu = [d for d in spec.devices.values() if d.kind.lower() == 'spu']
        env.prove('one SPU over the first nodes', [d.member_ranks for d in spu] == ([tuple(range(kw['spu_world_size'] or n))] if kw.get('enable_spu_device', True) else []), spec)
    elif how == 'config':
        nm = g.sample(['a', 'b', 'c', 'd', 'e', 'f', 'g'], n)
        cfg = {'nodes': [{'name': x, 'endpoint': f'{x}:{i}', **g.choice([{}, {'runtime_info': info()}, {'rank': 9}])} for i, x in enumerate(nm)], 'devices': {f'd{k}': {'kind': g.choice(['SPU', 'custom']), 'members': [g.choice(nm) for _ in range(g.randint(0, 4))], **g.choice([{}, {'config': {'p': k}}])} for k in range(g.randint(0, 3))}}
        if g.random() < .5:
            cfg['cluster_id'] = g.choice(['cid', '', ' c '])
        before = json.dumps(cfg)
        bad = g.random() < .2 and g.choice(['dup', 'member', 'ppu', 'section'])
        if bad == 'dup':
            cfg['nodes'].insert(g.randint(0, n), dict(cfg['nodes'][0]))
        elif bad == 'member':
            cfg['devices']['x'] = {'kind': 'SPU', 'members': [nm[0], 'zz']}
        elif bad == 'ppu':
            cfg['devices']['x'] = {'kind': g.choice(['PPU', 'tee', 'TEE']), 'members': g.choice([[], [nm[0], nm[-1]]])}
        elif bad:
            del cfg[g.choice(['nodes', 'devices'])]
        r = env.run(K.ClusterSpec.from_dict, cfg)
        env.prove('refused exactly when invalid', (r[0] == 'exc') == bool(bad) and (not bad or isinstance(r[1], ValueError)), (bad, r))
        if bad:
            return
        spec = r[1]
        env.prove('the configuration is not changed', json.dumps(cfg) == before)
        env.prove('ranks follow the list', [(spec.nodes[x].rank, spec.nodes[x].endpoint) for x in nm] == [(i, f'{x}:{i}') for i, x in enumerate(nm)])
        env.prove('members as written', all([m.name for m in spec.devices[k].members] == v['members'] and spec.devices[k].kind == v['kind'] for k, v in cfg['devices'].items()))
    else:
        perm = g.sample(range(n), n)
        inf = [info() for _ in range(n)]
        nodes = [K.Node(f'n{i}', perm[i], f'e{i}', K.RuntimeInfo(x['version'], x['platform'], x['op_bindings'], {k: v for k, v in x.items() if k not in ('version', 'platform', 'op_bindings')})) for i, x in enumerate(inf)]
        spec = K.ClusterSpec(g.choice(['c', '', ' C ']), {x.name: x for x in nodes}, {f'd{k}': K.Device(f'd{k}', g.choice(['SPU', 'x']), [g.choice(nodes) for _ in range(g.randint(0, 3))], g.choice([{}, {'p': 1}])) for k in range(g.randint(0, 3))})
    env.prove('addresses by rank', list(spec.endpoints) == [spec.get_node_by_rank(i).endpoint for i in range(n)] and all(spec.get_node_by_rank(i).rank == i for i in range(n)), spec)
    back = K.ClusterSpec.from_dict(json.loads(json.dumps(spec.to_dict())))
    env.prove('an equal description', back == spec, (spec, back))
    env.prove('the same addresses', list(back.endpoints) == list(spec.endpoints))
    env.cover(how)


def harnesses():
    return [H('accept-' + p, (lambda env, p=p: h_accept(env, p)), conc=2000, conc_s=4, functions=['ClusterSpec.__post_init__'], what=h_accept.__doc__, mbqi=False, branch_ms=50, budget=240) for p in ('nodes', 'devices')] + [
        H('round', h_round, conc=0, functions=['ClusterSpec.to_dict', 'ClusterSpec.from_dict', 'ClusterSpec.endpoints'], what=h_round.__doc__, mbqi=False, branch_ms=150, budget=400),
        H('by-rank', h_by_rank, conc=200, functions=['ClusterSpec.get_node_by_rank'], what=h_by_rank.__doc__),
        H('round-run', h_round_run, sym=False, conc=3000, conc_s=6, functions=['ClusterSpec.to_dict', 'ClusterSpec.from_dict', 'ClusterSpec.simple', 'ClusterSpec.endpoints'], what=h_round_run.__doc__)]
