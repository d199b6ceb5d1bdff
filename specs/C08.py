"""C08  Concurrent evaluation runs each operation once, after its inputs."""
import threading, time, types, concurrent.futures
from pyvc.worker import H
from pyvc import core, models as M

INSTRUMENT = ['mplang.runtime.interpreter']
ASSUMPTIONS = ['context switches are considered at every lock operation, queue operation, task submission and task completion; code between two of these runs unobserved by the other threads because shared state is only touched under the lock (checked by the real-thread harness only)',
               'operation implementations terminate']
TRUSTED = ['queue.Queue, threading.Lock and concurrent.futures.Executor are replaced by a scheduler that may run any enabled step; their own behaviour is trusted']

import vp_without_spu  # noqa
import mplang.runtime.interpreter as IP
from mplang.edsl.graph import Graph
import mplang.edsl.typing as T
from mplang.backends.simp_worker.comm_context import CommContext
from specs.C07 import rand_graph, denote, sem_op

F32 = T.TensorType(T.f32, ())


class Hang(Exception):
    pass


class Boom(Exception):
    pass


class Sched:
    """Decides which enabled step runs next; steps of other threads run at the points where this thread may be preempted."""

    def __init__(self, env, fine=0):
        self.env, self.tasks, self.n, self.held, self.depth = env, [], 0, False, 0
        self.ip = None
        self.fine = fine        # how many times another thread may cut in between two statements outside the lock

    def tracer(self, frame, ev, arg):
        co = frame.f_code
        if not (co.co_filename.endswith('interpreter.py') and '_evaluate_graph_async.' in co.co_qualname) or 'run_handler' in co.co_qualname:
            return None
        if ev == 'line' and self.fine and self.tasks and not self.held:
            i = self.pick(len(self.tasks) + 1, 9)
            if i:
                self.fine -= 1
                self.finish(i - 1)
        return self.tracer

    def pick(self, k, rare=1):
        if k <= 1:
            return 0
        self.n += 1
        return self.env.choice(f'sched{self.n}', list(range(1, k)) + [0] * (1 if self.env.sym else rare))

    def preempt(self):
        """let other threads finish any number of submitted tasks"""
        while self.tasks and not self.held and not self.depth:
            i = self.pick(len(self.tasks) + 1, 4)
            if i == 0:
                return
            self.finish(i - 1)

    def finish(self, i):
        fut = self.tasks.pop(i)
        self.depth += 1
        try:
            fut.run()
        finally:
            self.depth -= 1

    # -- what the evaluator sees
    def Lock(self):
        s = self

        class L:
            def __enter__(l): l.acquire()
            def __exit__(l, *a): l.release()

            def acquire(l, *a, **k):
                s.preempt()
                if s.held:
                    raise Hang('lock taken twice')
                s.held = True
                return True

            def release(l):
                s.held = False
        return L()
    RLock = Lock

    def Queue(self, *a):
        s = self
        items = []

        class Q:
            def put(q, x, *a, **k): items.append(x)
            put_nowait = put

            def get(q, *a, **k):
                while True:
                    s.preempt()
                    if items:
                        return items.pop(0)
                    if not s.tasks:
                        raise Hang('nothing is running and nothing is ready')
                    s.finish(s.pick(len(s.tasks)))

            def qsize(q): return len(items)
            def empty(q): return not items
        return Q()
    SimpleQueue = Queue

    def submit(self, fn, *a, **k):
        s = self

        class Fut:
            cbs, done_ = (), False
            val = exc = None

            def run(f):
                saved = s.ip._tls
                s.ip._tls = types.SimpleNamespace()      # a pool thread
                try:
                    f.val = fn(*a, **k)
                except BaseException as e:
                    if isinstance(e, (core.Control, Hang)) or type(e).__name__ in ('Refuted', 'Skip'):
                        raise
                    f.exc = e
                finally:
                    s.ip._tls = saved
                f.done_ = True
                saved = s.ip._tls
                s.ip._tls = types.SimpleNamespace()
                try:
                    for cb in f.cbs:
                        try:
                            cb(f)
                        except Exception as e:      # the executor logs and drops it
                            if isinstance(e, (core.Control, Hang)) or type(e).__name__ in ('Refuted', 'Skip'):
                                raise
                finally:
                    s.ip._tls = saved

            def result(f, timeout=None):
                if f.exc is not None:
                    raise f.exc
                return f.val

            def exception(f, timeout=None): return f.exc
            def done(f): return f.done_
            def cancelled(f): return False

            def add_done_callback(f, cb):
                if f.done_:
                    try:
                        cb(f)
                    except Exception as e:
                        if isinstance(e, (core.Control, Hang)) or type(e).__name__ in ('Refuted', 'Skip'):
                            raise
                else:
                    f.cbs = (*f.cbs, cb)
        fut = Fut()
        self.tasks.append(fut)
        self.preempt()
        return fut

    def shutdown(self, *a, **k): pass


def install(env, s):
    env.patch(IP, 'threading', types.SimpleNamespace(Lock=s.Lock, RLock=s.RLock, local=types.SimpleNamespace, get_ident=lambda: 0, current_thread=threading.current_thread))
    env.patch(IP, 'queue', types.SimpleNamespace(Queue=s.Queue, SimpleQueue=s.SimpleQueue, Empty=Exception))


def interp(env, s, handlers, async_ops, ctx=None):
    ip = IP.Interpreter(executor=s, handlers=handlers, comm_ctx=ctx)
    ip._tls = types.SimpleNamespace()
    ip.async_ops = async_ops
    s.ip = ip
    return ip


def small_graph(env, nops=2, few=False):
    """Every graph of at most nops operations with at most 2 operands and 2 results (up to renaming)."""
    g = Graph()
    vals = [g.add_input('x', F32)] if env.choice('inputs', [1, 0]) else []
    for k in range(env.choice('n', list(range(nops + 1)))):
        m = env.choice(f'arity{k}', [1, 2] if few else [0, 1, 2]) if vals else 0
        ins = [vals[env.choice(f'a{k}.{j}', list(range(len(vals))))] for j in range(m)]
        outs = env.choice(f'outs{k}', [1, 2] if few else [1, 0, 2])
        vals += g.add_op('vf.op%d' % env.choice(f'async{k}', [1, 0]), ins, [F32] * outs, attrs={'k': k})
    for v in reversed(vals):
        g.add_output(v)
    return g


def three(env):
    """Three operations; the third joins, follows or ignores the first two, which may be synchronous or asynchronous."""
    g = Graph()
    x = g.add_input('x', F32)
    a, b = g.add_op('vf.op%d' % env.choice('async0', [0, 1]), [x], [F32] * 2, attrs={'k': 0})
    ins = [[x], [a], [b, a]][env.choice('wire1', [0, 1, 2])]
    c, = g.add_op('vf.op%d' % env.choice('async1', [0, 1]), ins, [F32], attrs={'k': 1})
    ins = [[x], [a, c], [c, c], [b]][env.choice('wire2', [0, 1, 2, 3])]
    d, = g.add_op('vf.op%d' % env.choice('async2', [0, 1]), ins, [F32], attrs={'k': 2})
    for v in (d, x, c, c, a):
        g.add_output(v)
    return g


def evaluate(env, g, s, bad=None, badop=None, ctx=None, log=None, hook=None):
    log = [] if log is None else log
    avail = {v: True for v in g.inputs}

    def impl(ip, op, *args):
        env.prove('an operation starts at most once', op not in log, (op, log))
        log.append(op)
        want = [ref[v] for v in op.inputs if v in ref]
        env.prove('it starts after its operands, with their values', list(args) == want and len(want) == len(op.inputs), (op, args))
        rs = sem_op(op, args)
        if bad == 'raise' and op is badop:
            raise Boom(op.name)
        if bad == 'count' and op is badop:
            rs = rs[:-1] if env.choice('fewer', [0, 1]) else rs + ['extra']
            return tuple(rs)
        for v, r in zip(op.outputs, rs):
            ref[v] = r
        if hook:
            hook(ip, op)
        return rs[0] if len(rs) == 1 else tuple(rs)
    ref = dict(zip(g.inputs, [('in', i) for i in range(len(g.inputs))]))
    hs = {f'vf.op{i}': impl for i in range(4)}
    if bad == 'missing':
        hs.pop(badop.opcode)
    ip = interp(env, s, hs, {'vf.op0', 'vf.op2'}, ctx)
    install(env, s)
    before = dict(vars(ip._tls))
    if s.fine:
        import sys
        old = sys.gettrace()
        sys.settrace(s.tracer)
        try:
            r = env.run(ip.evaluate_graph, g, [('in', i) for i in range(len(g.inputs))])
        finally:
            sys.settrace(old)
    else:
        r = env.run(ip.evaluate_graph, g, [('in', i) for i in range(len(g.inputs))])
    env.prove('it does not hang', not (r[0] == 'exc' and isinstance(r[1], Hang)), r)
    if r[0] == 'ok':
        env.prove('communication context of the caller is back', vars(ip._tls) == before)
    return r, log


def verdict(env, g, r, log, bad):
    if bad:
        env.prove('a failing operation fails the evaluation', r[0] == 'exc', r)
        if bad == 'raise':
            env.prove('with its own failure', isinstance(r[1], Boom), r)
        return
    env.prove('no error', r[0] == 'ok', r)
    want = denote(g, [('in', i) for i in range(len(g.inputs))], sem_op)
    env.prove('the result is the sequential one', list(r[1]) == want, (r[1], want))
    env.prove('every operation ran', len(log) == len(g.operations) and set(log) == set(g.operations))


def h_sched(env, nops=2, fail=False):
    """All small graphs, all schedules."""
    g = small_graph(env, nops, fail) if nops < 3 else three(env)
    bad = badop = None
    if fail:
        if not g.operations:
            return
        bad = env.choice('bad', ['raise', 'count', 'missing', 'undef'])
        badop = g.operations[env.choice('badop', list(range(len(g.operations))))]
        if bad == 'count' and len(badop.outputs) != 2:
            return
        if bad == 'undef':
            x = Graph().add_input('zz', F32)
            badop.inputs.append(x)
    s = Sched(env)
    r, log = evaluate(env, g, s, bad, badop)
    verdict(env, g, r, log, bad)


def h_random(env):
    """Larger random graphs, random schedules, random failures."""
    g = rand_graph(env)
    bad = env.choice('bad', [None, None, 'raise', 'count', 'missing', 'undef'])
    badop = None
    if bad:
        c = [op for op in g.operations if bad != 'count' or len(op.outputs) > 1]
        if not c:
            bad = None
        else:
            badop = c[env.int('badop', 0, len(c) - 1)]
            if bad == 'undef':
                badop.inputs.append(Graph().add_input('zz', F32))
    r, log = evaluate(env, g, Sched(env, env.choice('fine', [0, 1, 2, 5])), bad, badop)
    verdict(env, g, r, log, bad)


def h_fine(env):
    """Join and chain graphs where one thread may cut in between any two statements of another one outside the lock."""
    g = Graph()
    x = g.add_input('x', F32)
    a, = g.add_op('vf.op0', [x], [F32], attrs={'k': 0})
    b, = g.add_op('vf.op0', [[x], [a]][env.choice('w', [0, 1])], [F32], attrs={'k': 1})
    c, = g.add_op('vf.op%d' % env.choice('async2', [0, 1]), [a, b], [F32], attrs={'k': 2})
    g.add_output(c)
    r, log = evaluate(env, g, Sched(env, 1))
    verdict(env, g, r, log, None)


class Comm:
    world_size = 2

    def __init__(self): self.sent = []
    def send(self, to, key, data, *, is_raw_bytes=False): self.sent.append((data, key))


def keys_of(env, g, tag, nested):
    """one rank's run: operation -> key of a message it sends at its start and at its end"""
    comm = Comm()
    got = {}
    s = Sched(types.SimpleNamespace(sym=env.sym, choice=lambda n, c: env.choice(tag + n, c)))

    def hook(ip, op):
        path = op.attrs['k']
        ip.current_comm_ctx().send(1, (path, 'start'))
        if nested and op.regions:
            ip.evaluate_graph(op.regions[0], [])
            ip.current_comm_ctx().send(1, (path, 'end'))
    evaluate(env, g, s, ctx=CommContext(comm, 'job', 0), hook=hook)
    return comm.sent


def h_contexts(env, nops=3):
    """Two ranks run the same graph under different schedules: corresponding operations use the same message keys, all different."""
    if env.sym:
        g = small_graph(env, nops)
    else:
        g = rand_graph(env)
        for i, op in enumerate(g.operations):
            if env.choice(f'nest{i}', [0, 1]):
                sub = Graph()
                for j in range(env.int(f'sub{i}', 1, 2)):
                    y, = sub.add_op('vf.op%d' % env.choice(f'sa{i}.{j}', [0, 1]), [], [F32], attrs={'k': (i, j)})
                sub.add_output(y)
                op.regions.append(sub)
    a = keys_of(env, g, 'A', True)
    b = keys_of(env, g, 'B', True)
    env.prove('same message, same key on both ranks', sorted(map(repr, a)) == sorted(map(repr, b)), (a, b))
    env.prove('no key is used twice', len({k for _, k in a}) == len(a), a)


def h_threads(env):
    """The real executor, lock and queue, with random delays."""
    g = rand_graph(env)
    seen, lock = [], threading.Lock()
    bad = env.choice('bad', [None, None, 'raise'])
    badop = g.operations[env.int('b', 0, len(g.operations) - 1)] if bad and g.operations else None
    delays = {op: env.int(f'd{i}', 0, 3) * 0.0004 for i, op in enumerate(g.operations)}

    def impl(ip, op, *args):
        with lock:
            seen.append(op)
        time.sleep(delays[op])
        if op is badop:
            raise Boom()
        rs = sem_op(op, args)
        return rs[0] if len(rs) == 1 else tuple(rs)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        ip = IP.Interpreter(executor=ex, handlers={f'vf.op{i}': impl for i in range(4)})
        ip.async_ops = {'vf.op0', 'vf.op2', 'vf.op3'}
        out = {}

        def go():
            out['r'] = env.run(ip.evaluate_graph, g, [('in', i) for i in range(len(g.inputs))])
        t = threading.Thread(target=go, daemon=True)
        t.start(); t.join(20)
        env.prove('it does not hang', not t.is_alive())
    env.prove('no operation ran twice', len(set(seen)) == len(seen))
    if badop is not None:
        env.prove('fails', out['r'][0] == 'exc' and isinstance(out['r'][1], Boom), out)
    else:
        env.prove('result', out['r'][0] == 'ok' and list(out['r'][1]) == denote(g, [('in', i) for i in range(len(g.inputs))], sem_op), out)


def h_key(env):
    """The structural graph key used in message contexts is a function of the graph's structure only (not of names or object identity)."""
    import copy
    g = rand_graph(env)
    h = Graph()
    m = {}
    for i, v in enumerate(g.inputs):
        m[v] = h.add_input(f'other{i}', v.type)
    for op in g.operations:
        at = dict(reversed(list({'z': 1, **op.attrs}.items()))) if env.choice('re', [0, 1]) else {**op.attrs, 'z': 1}
        op.attrs['z'] = 1
        for a, b in zip(op.outputs, h.add_op(op.opcode, [m[x] for x in op.inputs], [o.type for o in op.outputs], attrs=at)):
            m[a] = b
    for o in g.outputs:
        h.add_output(m[o])
    ip = IP.Interpreter()
    env.prove('equal structure, equal key', ip._graph_exec_key(g) == ip._graph_exec_key(h))


def harnesses():
    F = ['Interpreter._evaluate_graph_async', '_evaluate_graph_async.on_op_done', '_evaluate_graph_async.execute_op']
    return [*[H(f'{nm}-{n}', (lambda env, n=n, f=f: h_sched(env, n, f)), unbounded=False, bound=3, conc=300, conc_s=2, functions=F, budget=150, max_paths=40000,
                what=f'all schedules of all graphs of {n} operations (n=3: the join/chain/fan-out shapes), ' + nm) for nm, f in (('schedules', False), ('failures', True)) for n in (1, 2, 3)],
            H('fine', h_fine, unbounded=False, bound=3, conc=12000, conc_s=10, functions=F, budget=150, max_paths=40000, what=h_fine.__doc__),
            H('random', h_random, sym=False, conc=3000, conc_s=10, functions=F),
            H('contexts', h_contexts, sym=False, conc=1500, conc_s=10, functions=F),
            H('threads', h_threads, sym=False, conc=150, conc_s=10, functions=F),
            H('graph-key', h_key, sym=False, conc=300, conc_s=4, functions=['Interpreter._graph_exec_key'])]
