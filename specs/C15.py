"""C15  The driver hands each party its own values and regroups the answers."""
import atexit
import concurrent.futures as cf
import os
import pathlib
import shutil
import socket
import sys
import tempfile
import threading
import time
import types
import jax
import numpy as np
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M, instr
from pyvc.core import Sort

INSTRUMENT = ['mplang.backends.simp_driver.ops', 'mplang.backends.simp_driver.values', 'mplang.backends.simp_driver.mem', 'mplang.backends.simp_driver.http',
              'mplang.backends.simp_worker.http', 'mplang.backends.simp_worker.request', 'mplang.backends.simp_worker.infra', 'mplang.backends.simp_worker.comm_context',
              'mplang.backends.simp_worker.state', 'mplang.runtime.interpreter', 'mplang.edsl.graph']
ASSUMPTIONS = ['an operation has up to 4 operands and up to 3 results (workers, and the values they exchange, are arbitrary)',
               'a thread pool runs every submitted call, in any order, and its future yields that call\'s result or failure; concurrent.futures.wait returns futures that have ended, all of them unless one failed',
               'evaluating a graph on a worker is an arbitrary function of worker, graph and inputs (C07, C13), yielding as many values as the graph has outputs',
               'an object store returns under a name what was stored under it (C01)']
TRUSTED = ['serde round trips graphs, uris and values (C03, C06)', 'httpx delivers a request to the endpoint it names and returns its response']

import vp_without_spu  # noqa
# the secure processing unit is not installed; nothing in this property concerns it
if 'mplang.backends.spu_state' not in sys.modules:
    sys.modules['mplang.backends.spu_impl'] = types.ModuleType('mplang.backends.spu_impl')
    _spu = types.ModuleType('mplang.backends.spu_state')

    class SPUState:
        dialect_name = 'spu'

        def __init__(self, *a, **k):
            pass

        def shutdown(self):
            pass
    _spu.SPUState = SPUState
    sys.modules['mplang.backends.spu_state'] = _spu
import mplang as mp
import mplang.backends
from mplang.backends import tensor_impl  # noqa
import mplang.edsl.typing as T
from mplang.edsl.graph import Graph
from mplang.edsl import serde
from mplang.dialects import simp
from mplang.backends.simp_driver import ops as O
from mplang.backends.simp_driver import mem as ME
from mplang.backends.simp_driver import http as HT
from mplang.backends.simp_driver.values import DriverVar
from mplang.backends.simp_worker import http as WH
from mplang.backends.simp_worker import request as RQ
from mplang.backends.simp_worker.infra import WorkerInfra
from mplang.backends.simp_driver.state import SimpDriver
from mplang.runtime.interpreter import Interpreter
from mplang.runtime.object_store import ObjectStore
from fastapi import FastAPI

truthy = lambda nm: (lambda x: core.mkbool(z3.Function('truth_' + nm, x.t.sort(), z3.BoolSort())(x.t)))
A, U, D = Sort('Argument'), Sort('Uri', truth=lambda x: True), Sort('Data', truth=truthy('data'))
KINDS = sorted(O.DRIVER_HANDLERS)


def operation(kind, nin, nout):
    g = Graph()
    ins = [g.add_input(f'x{i}', T.MPType(T.TensorType(T.f32, (i + 1,)), None)) for i in range(nin)]
    inner = Graph()
    g.add_op(opcode=kind, inputs=ins, output_types=[T.MPType(T.TensorType(T.f32, (i + 1,)), (0, i)) for i in range(nout)], attrs={'parties': [0, 1], 'k': 'v'}, regions=[inner])
    return g.operations[0]


FUT = Sort('Future')


def h_dispatch(env):
    """Every worker gets the operation with its own element of every per-party argument and the shared ones as they are; the k-th returned object holds at r the k-th result of worker r."""
    kind = env.choice('kind', KINDS)
    nin, nout = env.choice('nin', [0, 1, 2, 3, 4] if kind == KINDS[0] else [2]), env.choice('nout', [0, 1, 2, 3] if kind == KINDS[0] else [1, 2])
    world = env.length('world', 1)
    op = operation(kind, nin, nout)
    shared = [env.choice(f'shared{i}', [False, True]) for i in range(nin)]
    own = [env.fn(f'own{i}', ['int'], A) for i in range(nin)]
    pub = [env.opaque(f'pub{i}', A) for i in range(nin)]
    args = [pub[i] if shared[i] else DriverVar(env.seq(f'arg{i}', lambda r, i=i: own[i](r), n=world)) for i in range(nin)]
    gives = env.fn('nothing', ['int'], 'bool')
    ans = [env.fn(f'answer{k}', ['int'], U) for k in range(nout)]
    fut = env.fn('future', ['int'], FUT)
    state = {'n': 0}

    def submit(rank, graph, inputs, job_id=None):
        env.prove('a worker of this cluster', env.and_(rank >= 0, rank < world))
        env.prove('as many inputs as operands', env.eq(env.len(inputs), nin))
        for i in range(nin):
            env.prove('its own element of a per-party argument, a shared one as it is', env.eq(env.get(inputs, i), pub[i] if shared[i] else own[i](rank)), (i,))
        env.prove('one operation', len(graph.operations) == 1)
        o = graph.operations[0]
        env.prove('the operation', o.opcode == kind and dict(o.attrs) == {'parties': [0, 1], 'k': 'v'} and len(o.regions) == 1 and o.regions[0] is op.regions[0])
        env.prove('on the inputs in order', len(graph.inputs) == nin == len(o.inputs) and all(a is b for a, b in zip(graph.inputs, o.inputs)))
        env.prove('its results are what the worker returns, in order', len(graph.outputs) == nout == len(o.outputs) and all(a is b for a, b in zip(graph.outputs, o.outputs)))
        env.prove('of the same types', all(a.type == b.type for a, b in zip(o.outputs, op.outputs)))
        return fut(rank)

    def collect(futures):
        env.prove_seq('every worker is asked once, in order', futures, world, lambda r: fut(r))
        return env.seq('results', lambda r: None if nout == 0 or gives(r) else C.VList([ans[k](r) for k in range(nout)]) if env.sym else [ans[k](r) for k in range(nout)], n=world)
    drv = types.SimpleNamespace(world_size=world, submit=submit, collect=collect)
    submit._vf_ok = collect._vf_ok = True
    interp = types.SimpleNamespace(get_dialect_state=lambda nm: drv if nm == 'simp' else None)
    r = env.run(O.DRIVER_HANDLERS[kind], interp, op, *args)
    env.prove('succeeds', r[0] == 'ok', r)
    out = r[1]
    if nout == 0:
        env.prove('nothing is returned', len(out) == 0)
        return
    outs = [out] if nout == 1 else out
    env.prove('as many objects as results', len(outs) == nout and (nout != 1 or isinstance(out, DriverVar)))
    for k in range(nout):
        v = outs[k]
        env.prove('one element for every worker', env.and_(isinstance(v, DriverVar), env.eq(env.len(v.values), world)))
        env.prove('at r: the k-th result of worker r', env.forall(world, lambda r, k=k: env.implies(env.not_(gives(r)), env.eq(v[r], ans[k](r)))))
        env.prove('nothing from a worker without results', env.forall(world, lambda r, k=k: env.implies(gives(r), v[r] is None)))
    env.cover('end')


class Store:
    """an object store by its contract: get(uri) is a function of the name, put returns a new name for the value"""
    _vf_ok = True

    def __init__(self, rank, get, put):
        self.rank, self._get, self._put = rank, get, put

    def get(self, uri):
        if uri is None:
            raise KeyError(uri)
        return self._get(self.rank, uri)

    def put(self, v, *a, **k):
        return self._put(self.rank, v)


def optional(env, nm, n, sort):
    """a list of n values some of which are missing"""
    f, miss = env.fn(nm, ['int'], sort), env.fn(nm + '_missing', ['int'], 'bool')
    return env.seq(nm + 's', lambda i: None if miss(i) else f(i), n=n), f, miss


def h_mem_worker(env):
    """A local worker runs the graph on what its own store holds under the given names, in order, and returns names for its results, in order."""
    world = 7
    rank = env.int('rank', 0, world - 1)
    n, m = env.length('n'), env.length('m')
    inputs, uri, miss = optional(env, 'uri', n, U)
    outs, val, none = optional(env, 'result', m, D)
    graph = types.SimpleNamespace(outputs=env.seq('outputs', lambda i: i, n=m), inputs=[], operations=[])
    INF = Sort('Infra')
    calls = []
    inf = env.fn('infra', ['int'], INF)
    rankof = env.fn('rank_of', [INF], 'int')
    stored, named = env.fn('stored', ['int', U], D), env.fn('name_of', ['int', D], U)
    INF.attrs['store'] = lambda x: Store(rankof(x), stored, named)
    INF.attrs['rank'] = lambda x: rankof(x)
    if not env.sym:
        made = [types.SimpleNamespace(rank=r, store=Store(r, stored, named)) for r in range(world)]
        inf, rankof = (lambda r: made[r]), (lambda x: x.rank)
    infras = env.seq('infras', lambda i: inf(i), n=world)
    fail = env.choice('fails', [False, True])

    class It:
        _vf_ok = True

        def evaluate_graph(self, g, ins, job=None):
            calls.append('eval')
            env.prove('the graph', g is graph)
            env.prove('as many inputs', env.eq(env.len(ins), n))
            env.prove('what its own store holds under the given names', env.forall(n, lambda i: env.implies(env.not_(miss(i)), env.eq(env.get(ins, i), stored(rankof(inf(rank)), uri(i))))))
            env.prove('nothing where the worker has nothing', env.forall(n, lambda i: env.implies(miss(i), env.get(ins, i) is None)))
            if fail:
                raise ValueError('the program failed')
            return outs

        def shutdown(self):
            calls.append('shutdown')

    def mk(infra, job):
        env.prove('an interpreter of this worker', env.eq(infra, inf(rank)))
        calls.append('new')
        return It()
    env.patch(ME, 'create_request_interpreter', mk)
    pool = types.SimpleNamespace(submit=lambda f, *a, **k: done(env, f, a, k))
    pool.submit._vf_ok = True
    drv = ME.SimpMemDriver(world, infras, types.SimpleNamespace(executor=pool, shutdown=lambda **k: None))
    r = env.run(lambda: drv.submit(rank, graph, inputs))
    env.prove('submitted', r[0] == 'ok', r)
    kind, res = r[1]
    env.prove('evaluated once, and cleaned up', calls == ['new', 'eval', 'shutdown'], calls)
    env.prove('a failure of the program is the failure of the request', (kind == 'exc') == fail, r)
    if fail:
        return
    if bool(env.eq(m, 0)):
        env.prove('no results', res is None or env.eq(env.len(res), 0))
        return
    env.prove('as many names as results', env.eq(env.len(res), m))
    env.prove('the name of each result, in order', env.forall(m, lambda i: env.implies(env.not_(none(i)), env.eq(env.get(res, i), named(rankof(inf(rank)), val(i))))))
    env.prove('none for a missing result', env.forall(m, lambda i: env.implies(none(i), env.get(res, i) is None)))
    env.cover('end')


def done(env, f, a, k):
    return env.run(f, *a, **k)


class Failed(Exception):
    def __init__(self, f):
        self.f = f


def h_collect(env, kind):
    """Any number of futures: all results in the order of the futures, or the failure of one of them."""
    n = env.length('n')
    value, failed, over = env.fn('value', [FUT], D), env.fn('failed', [FUT], 'bool'), env.fn('over', [FUT], 'bool')
    fut = env.fn('future', ['int'], FUT)
    allover = env.forall(n, lambda i: over(fut(i)))
    anyfail = env.exists(n, lambda i: env.and_(over(fut(i)), failed(fut(i))))

    def exception(f):
        if kind == 'mem':
            env.prove('looks only at calls that have ended', over(f))
        return Failed(f) if failed(f) else None

    def result(f, timeout=None):
        if failed(f):
            raise Failed(f)
        return value(f)
    FUT.methods.update(exception=exception, result=result, cancel=lambda f: None, done=lambda f: over(f), cancelled=lambda f: False)

    def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
        env.prove_seq('waits for these calls', fs, n, fut)
        if timeout is not None or return_when not in (cf.ALL_COMPLETED, cf.FIRST_EXCEPTION):
            raise core.Unsupported('another way of waiting')
        env.assume(allover if return_when == cf.ALL_COMPLETED else env.or_(allover, anyfail))

        # the set of those that have ended, in arbitrary order; where(i) finds call i in it
        c = C.fresh_int('ended')
        env.assume(env.and_(c >= 0, c <= n))
        of, where = env.fn('ended_call', ['int'], 'int'), env.fn('where', ['int'], 'int')
        env.assume(env.forall(c, lambda j: env.and_(of(j) >= 0, of(j) < n, over(fut(of(j))))))
        env.assume(env.forall(n, lambda i: env.implies(over(fut(i)), env.and_(where(i) >= 0, where(i) < c, env.eq(of(where(i)), i)))))
        s = C.VSet()
        s._sym = C.SetBase(lambda x: env.and_(over(x), env.exists(n, lambda i: env.eq(fut(i), x))), c, C.sym_seq(c, lambda j: fut(of(j)), 'tuple'))
        s._sym.distinct = True
        rest = C.VSet()
        rest._sym = C.SetBase(lambda x: env.and_(env.not_(over(x)), env.exists(n, lambda i: env.eq(fut(i), x))))
        return s, rest
    M.STUBS[cf.wait] = wait
    stopped = C.VList()
    fs = env.seq('futures', lambda i: fut(i), n=n)
    if kind == 'mem':
        drv = ME.SimpMemDriver(3, [], types.SimpleNamespace(shutdown=lambda wait=True: stopped.append(wait)))
        drv._mesh.shutdown._vf_ok = True
    else:
        drv = object.__new__(HT.SimpHttpDriver)
    r = env.run(drv.collect, fs)
    if r[0] == 'exc':
        env.prove('the failure of one of the calls', isinstance(r[1], Failed), r)
        f = r[1].f
        env.prove('that failed', env.and_(failed(f), env.exists(n, lambda i: env.eq(fut(i), f))))
        return
    env.prove('none failed', env.forall(n, lambda i: env.not_(failed(fut(i)))))
    env.prove_seq('results in the order of the calls', r[1], n, lambda i: value(fut(i)))
    env.prove('and the workers keep running', len(stopped) == 0)
    env.cover('end')


def drive(coro):
    try:
        coro.send(None)
    except StopIteration as s:
        return s.value
    raise core.Unsupported('the handler waits for something else')


def route(app, method, path):
    for r in app.routes:
        if getattr(r, 'path', '') == path and method in (getattr(r, 'methods', None) or ()):
            return r.endpoint
    raise core.Unsupported('no such route')


class Loop:
    """run_in_executor by its contract: the call is made once, its outcome is the outcome of awaiting"""
    _vf_ok = True

    def run_in_executor(self, pool, f, *a):
        async def go():
            return f(*a)
        return go()


def h_http(env, what):
    """From the driver's request to its answer: the addressed worker runs the graph on what its store holds under the given names; the names of its results come back in order."""
    W = env.length('world', 1)
    endpoint = env.fn('endpoint', ['int'], 'str')
    rank = env.int('rank', 0)
    env.assume(rank < W)
    n, m = env.length('n'), env.length('m')
    inputs, uri, miss = optional(env, 'uri', n, U)
    outs, val, none = optional(env, 'result', m, D)
    graph = types.SimpleNamespace(outputs=env.seq('outputs', lambda i: i, n=m), inputs=[], operations=[])
    stored, named = env.fn('stored', ['int', U], D), env.fn('name_of', ['int', D], U)
    store = Store(rank, stored, named)
    fail = env.choice('fails', [False, True])
    job = env.choice('job', [None, 'j7'])
    posted, calls = [], []
    # serialization: an encoding stands for what was encoded (C03, C06)
    table = []

    def dumps(v):
        table.append(v)
        return f'enc{len(table) - 1}'

    def loads(s):
        if not (isinstance(s, str) and s.startswith('enc')):
            raise core.Unsupported('decodes something else')
        return table[int(s[3:])]
    env.patch(serde, 'dumps_b64', dumps)
    env.patch(serde, 'loads_b64', loads)
    env.patch(WH, 'asyncio', types.SimpleNamespace(get_running_loop=Loop))

    class It:
        _vf_ok = True

        def evaluate_graph(self, g, ins, j=None):
            calls.append('eval')
            env.prove('the graph', g is graph)
            env.prove('as many inputs', env.eq(env.len(ins), n))
            env.prove('what its own store holds under the given names', env.forall(n, lambda i: env.implies(env.not_(miss(i)), env.eq(env.get(ins, i), stored(rank, uri(i))))))
            env.prove('nothing where the worker has nothing', env.forall(n, lambda i: env.implies(miss(i), env.get(ins, i) is None)))
            if fail:
                raise ValueError('the program failed')
            return outs

        def shutdown(self):
            calls.append('shutdown')

    class Comm:
        _vf_ok = True

        def wait_pending_sends(self, *a, **k):
            env.prove('sends are awaited after the evaluation', calls[-1] == 'eval')
            calls.append('sends')
    infra = types.SimpleNamespace(store=store, rank=rank)

    def mk(inf, j):
        env.prove('an interpreter of this worker for this job', inf is infra and j == (job or 'anonymous'), j)
        calls.append('new')
        return It()
    env.patch(RQ, 'create_request_interpreter', mk)
    app = FastAPI()
    WH.register_routes(app, rank=rank, world_size=W, infra=infra, comm=Comm(), store=store, exec_pool=None)
    run, got = route(app, 'POST', '/exec'), route(app, 'POST', '/fetch')
    req = lambda cls, **kw: types.SimpleNamespace(**{**{k: f.default for k, f in cls.model_fields.items()}, **kw})

    class Resp:
        _vf_ok = True

        def __init__(self, r):
            self.r = r

        def raise_for_status(self):
            if self.r[0] == 'exc':
                raise HT.httpx.HTTPStatusError('status', request=None, response=None)

        def json(self):
            return self.r[1]

    class Client:
        _vf_ok = True

        def post(self, url, json=None, **k):
            posted.append(url)
            for path, call, cls in (('/exec', lambda q: drive(run(q)), WH.ExecRequest), ('/fetch', got, WH.FetchRequest)):
                if what == path[1:]:
                    env.prove('asks the worker of that rank', env.eq(url, endpoint(rank) + path))
                    r = env.run(lambda: call(req(cls, **json)))
                    return Resp(r)
            raise core.Unsupported('another request')
    drv = object.__new__(HT.SimpHttpDriver)
    drv._endpoints = env.seq('endpoints', lambda i: endpoint(i), n=W)
    drv._world_size, drv._client = W, Client()
    drv._executor = types.SimpleNamespace(submit=lambda f, *a, **k: done(env, f, a, k))
    drv._executor.submit._vf_ok = True
    if what == 'fetch':
        u = env.opaque('wanted', U)
        r = env.run(lambda: drv.fetch(rank, u))
        env.prove('submitted', r[0] == 'ok', r)
        env.prove('fetches what that worker holds under that name', r[1][0] == 'ok' and env.eq(r[1][1], stored(rank, u)), r[1])
        env.cover('end')
        return
    r = env.run(lambda: drv.submit(rank, graph, inputs, job) if job else drv.submit(rank, graph, inputs))
    env.prove('submitted', r[0] == 'ok', r)
    kind, res = r[1]
    env.prove('one request, evaluated once, cleaned up', len(posted) == 1 and calls == ['new', 'eval'] + ([] if fail else ['sends']) + ['shutdown'], calls)
    env.prove('a failure of the program is the failure of the request', (kind == 'exc') == fail, r)
    if fail:
        return
    if bool(env.eq(m, 0)):
        env.prove('no results', res is None or env.eq(env.len(res), 0))
        return
    env.prove('as many names as results', env.eq(env.len(res), m))
    env.prove('the name of each result, in order', env.forall(m, lambda i: env.implies(env.not_(none(i)), env.eq(env.get(res, i), named(rank, val(i))))))
    env.prove('none for a missing result', env.forall(m, lambda i: env.implies(none(i), env.get(res, i) is None)))
    env.cover('end')


def h_endpoints(env):
    """The driver addresses the worker of rank r at the r-th endpoint it was given."""
    n = env.length('n', 1)
    ep = env.fn('given', ['int'], 'str')
    env.patch(HT.httpx, 'Client', lambda *a, **k: None)
    env.patch(HT.concurrent.futures, 'ThreadPoolExecutor', lambda *a, **k: None)
    eps = env.seq('given', lambda i: ep(i), n=n)
    r = env.run(HT.SimpHttpDriver, eps)
    env.prove('succeeds', r[0] == 'ok', r)
    d = r[1]
    env.prove('as many workers as endpoints', env.and_(env.eq(d.world_size, n), env.eq(env.len(d._endpoints), n)))
    full = lambda e: env.or_(e.startswith('http://'), e.startswith('https://'))
    env.prove('the r-th endpoint, completed by the scheme if it has none', env.forall(n, lambda i: env.and_(env.implies(full(ep(i)), env.eq(env.get(d._endpoints, i), ep(i))), env.implies(env.not_(full(ep(i))), env.eq(env.get(d._endpoints, i), 'http://' + ep(i))))))
    env.cover('end')


def h_fetch(env):
    """Fetching a returned object yields, at r, what worker r holds under its own name."""
    n = env.length('n', 1)
    uris, uri, miss = optional(env, 'uri', n, U)
    stored = env.fn('stored', ['int', U], D)

    class Driver(SimpDriver):
        _vf_ok = True
        world_size = n

        def fetch(self, rank, u):
            return types.SimpleNamespace(result=fin(stored(rank, u)))
        submit = collect = shutdown = None

    def fin(v):
        def result(timeout=None):
            return v
        result._vf_ok = True
        return result
    Driver.__abstractmethods__ = frozenset()
    it = Interpreter(name='driver', handlers={})
    it.set_dialect_state('simp', Driver())
    v = DriverVar(uris)
    M.STUBS[jax.tree_util.tree_map] = lambda f, x: f(x)      # of a single leaf
    fetch = instr.extract(mp, ['fetch'])['fetch'] if env.sym else mp.fetch
    r = env.run(lambda: fetch(v, context=it))
    env.prove('succeeds', r[0] == 'ok', r)
    out = r[1]
    if bool(env.eq(n, 1)):
        env.prove('the only value', out is None if bool(miss(0)) else env.eq(out, stored(0, uri(0))))
        return
    env.prove('one value for every worker', env.eq(env.len(out), n))
    env.prove('at r: what worker r holds', env.forall(n, lambda i: env.implies(env.not_(miss(i)), env.eq(env.get(out, i), stored(i, uri(i))))))
    env.prove('nothing from a worker without a value', env.forall(n, lambda i: env.implies(miss(i), env.get(out, i) is None)))
    env.cover('end')


def h_request(env):
    """The interpreter of a request is that of the worker: its store, its rank, its messages, its handlers, and a party set of its own."""
    rank, world = env.int('rank', 0), env.length('world', 1)
    env.assume(rank < world)
    job, job2 = env.str('job'), env.str('job2')
    sent = []

    class Comm:
        _vf_ok = True

        def send(self, to, key, data, **k):
            sent.append((to, key, data))
    Comm.rank, Comm.world_size = rank, world
    inf = WorkerInfra(rank=rank, world_size=world, communicator=Comm(), store=ObjectStore(), handlers={'op': len}, root_dir=pathlib.Path('/nowhere'), async_ops=frozenset(['simp.shuffle']))
    r = env.run(RQ.create_request_interpreter, inf, job)
    r2 = env.run(RQ.create_request_interpreter, inf, job2)
    env.prove('succeeds', r[0] == r2[0] == 'ok', (r, r2))
    for it in (r[1], r2[1]):
        w = it.get_dialect_state('simp')
        env.prove('of this rank, in this world', env.and_(env.eq(w.rank, rank), env.eq(w.world_size, world)))
        env.prove('on the store of the worker', it.store is inf.store and w.store is inf.store)
        env.prove('with its handlers', it.handlers == inf.handlers and it.async_ops == {'simp.shuffle'})
        env.prove('no party restriction yet', w.current_parties is None)
        to = env.int('to', 0)
        env.assume(env.and_(to < world, env.not_(env.eq(to, rank))))
        s = env.run(it.comm_ctx.send, to, 'data')
        env.prove('sends', s[0] == 'ok', s)
    env.prove('through the communicator of the worker', len(sent) == 2 and all(x[2] == 'data' for x in sent) and env.and_(*[env.eq(x[0], to) for x in sent]))
    env.prove('different jobs do not share a key', env.implies(env.not_(env.eq(job, job2)), env.not_(env.eq(sent[0][1], sent[1][1]))))
    env.prove('party sets are not shared between requests', r[1].get_dialect_state('simp') is not r2[1].get_dialect_state('simp'))
    env.cover('end')


# ---- the whole of it, with real threads and on the loopback interface
def program(env, world):
    """a random multi-party program and what it should yield: per object the list of its values by rank"""
    import mplang.dialects.tensor as tensor
    objs, want = [], []

    def add(o, w):
        objs.append(o)
        want.append(w)
    for i in range(env.int('srcs', 1, 3)):
        ps = tuple(p for p in range(world) if env.choice(f's{i}.{p}', [True, True, False])) or (0,)
        base = env.int(f'base{i}', -50, 50)
        vals = [None] * world
        for p in ps:
            o = simp.constant((p,), np.array([base + 7 * p, p], dtype=np.int64)) if hasattr(simp, 'constant') else None
            w = [None] * world
            w[p] = [base + 7 * p, p]
            add(o, w)
        del vals
    for j in range(env.int('steps', 1, 5)):
        kind = env.choice(f'kind{j}', ['two', 'shuffle', 'add'])
        k = env.int(f'k{j}', 0, len(objs) - 1)
        o, w = objs[k], want[k]
        have = tuple(r for r in range(world) if w[r] is not None)
        if kind == 'two':
            ps = tuple(r for r in have if env.choice(f'p{j}.{r}', [True, True, False])) or have

            def two(x):
                return tensor.run_jax(lambda t: (t + 1, t * 2), x)
            a, b = simp.pcall_static(ps, two, o)
            add(a, [[v + 1 for v in w[r]] if r in ps else None for r in range(world)])
            add(b, [[v * 2 for v in w[r]] if r in ps else None for r in range(world)])
        elif kind == 'shuffle':
            routing = {t: have[env.int(f'r{j}.{t}', 0, 7) % len(have)] for t in range(world) if env.choice(f't{j}.{t}', [True, False])} or {world - 1: have[0]}
            add(simp.shuffle_static(o, routing), [w[routing[r]] if r in routing else None for r in range(world)])
        else:
            k2 = env.int(f'k2{j}', 0, len(objs) - 1)
            o2, w2 = objs[k2], want[k2]
            both = tuple(r for r in have if w2[r] is not None)
            if both:
                add(simp.pcall_static(both, lambda x, y: tensor.run_jax(lambda a, b: a - b, x, y), o, o2), [[a - b for a, b in zip(w[r], w2[r])] if r in both else None for r in range(world)])
    return objs, want


def norm(x, world):
    x = [x] if world == 1 else x
    return [None if v is None else np.asarray(v).tolist() for v in x]


def run_program(env, interp, world):
    with interp:
        direct, want = program(env, world)
        for o, w in zip(direct, want):
            env.prove('at r: the value of worker r', norm(mp.fetch(o, follow_device=False), world) == w, (w, mp.fetch(o, follow_device=False)))

    def whole():
        return program(env, world)[0]
    traced = mp.compile(whole, context=interp)
    outs = mp.evaluate(traced, context=interp)
    for o, w in zip(outs, want):
        env.prove('compiled: at r the value of worker r', norm(mp.fetch(o, context=interp, follow_device=False), world) == w, w)


class Replay:
    """choices drawn once, repeated when the same name is asked again"""

    def __init__(self, env):
        self.env, self.seen = env, {}

    def int(self, nm, a, b):
        if nm not in self.seen:
            self.seen[nm] = self.env.int(nm, a, b)
        return max(a, min(b, self.seen[nm]))

    def choice(self, nm, opts):
        if nm not in self.seen:
            self.seen[nm] = self.env.choice(nm, opts)
        return self.seen[nm]

    def prove(self, *a):
        self.env.prove(*a)


_sims = {}


def h_mem_cluster(env):
    """Programs on a local cluster of real threads."""
    world = env.choice('world', [1, 2, 3, 4])
    if world not in _sims:
        os.environ['MPLANG_DATA_ROOT'] = tempfile.mkdtemp(prefix='c15')
        atexit.register(shutil.rmtree, os.environ['MPLANG_DATA_ROOT'], True)
        _sims[world] = mp.make_simulator(world)
        atexit.register(lambda d=_sims[world]: d.get_dialect_state('simp').shutdown())
    run_program(Replay(env), _sims[world], world)


_http = {}


def http_cluster(world):
    if world in _http:
        return _http[world]
    import logging
    import uvicorn
    logging.getLogger('mplang').setLevel(logging.CRITICAL)
    root = tempfile.mkdtemp(prefix='c15')
    os.environ['MPLANG_DATA_ROOT'] = root
    atexit.register(shutil.rmtree, root, True)
    socks = []
    for r in range(world):
        so = socket.socket()
        so.bind(('127.0.0.1', 0))
        socks.append(so)
    eps = [f'127.0.0.1:{so.getsockname()[1]}' for so in socks]
    for r in range(world):
        app = WH.create_worker_app(r, world, ['http://' + e for e in eps])
        srv = uvicorn.Server(uvicorn.Config(app, log_level='critical'))
        threading.Thread(target=srv.run, kwargs=dict(sockets=[socks[r]]), daemon=True).start()
        for _ in range(1000):
            if srv.started:
                break
            time.sleep(0.01)
    _http[world] = mp.make_driver(eps)
    return _http[world]


def h_http_cluster(env):
    """Programs on real workers on the loopback interface."""
    world = env.choice('world', [1, 2, 3])
    run_program(Replay(env), http_cluster(world), world)


def harnesses():
    hs = [H('dispatch', h_dispatch, conc=150, conc_s=5, functions=['_generic_simp_dispatch', '_collect_to_hostvars', '_wrap_op_as_graph', 'DriverVar'], what=h_dispatch.__doc__),
          H('local-worker', h_mem_worker, conc=300, conc_s=3, functions=['SimpMemDriver.submit', 'SimpMemDriver._run_worker'], what=h_mem_worker.__doc__)]
    for k in ('mem', 'http'):
        nm = {'mem': 'SimpMemDriver', 'http': 'SimpHttpDriver'}[k]
        hs.append(H(f'collect-{k}', (lambda env, k=k: h_collect(env, k)), conc=0, mbqi=False, branch_ms=100, functions=[f'{nm}.collect'], what=h_collect.__doc__))
    for k in ('exec', 'fetch'):
        hs.append(H(f'http-{k}', (lambda env, k=k: h_http(env, k)), conc=300, conc_s=3, functions=['SimpHttpDriver.submit', 'SimpHttpDriver._do_request', 'execute', '_do_execute'] if k == 'exec' else ['SimpHttpDriver.fetch', 'SimpHttpDriver._do_fetch', 'fetch'], what=h_http.__doc__))
    hs += [H('endpoints', h_endpoints, conc=0, functions=['SimpHttpDriver.__init__'], what=h_endpoints.__doc__),
           H('fetch', h_fetch, conc=200, conc_s=2, functions=['mplang.fetch'], what=h_fetch.__doc__),
           H('request', h_request, conc=0, functions=['create_request_interpreter'], what=h_request.__doc__),
           H('mem-cluster', h_mem_cluster, sym=False, conc=150, conc_s=20, functions=['MemCluster', 'SimpMemDriver']),
           H('http-cluster', h_http_cluster, sym=False, conc=60, conc_s=20, functions=['SimpHttpDriver', 'register_routes'])]
    return hs
