"""C09  Communication keys match between ranks and are never reused."""
from pyvc.worker import H
from pyvc import core

INSTRUMENT = ['mplang.backends.simp_worker.comm_context', 'mplang.runtime.interpreter']
FUNCTIONS = ['CommContext.__init__', 'CommContext.spawn', 'CommContext.send', 'CommContext.send_sync', 'CommContext.recv']
ASSUMPTIONS = ['a CommContext is used by one thread at a time (its counters are not locked; the schedulers give every concurrent operation its own child)',
               'ranks are integers; context ids and suffixes are arbitrary strings']

import vp_without_spu  # noqa
from mplang.backends.simp_worker.comm_context import CommContext
from specs.C08 import h_contexts as c08_contexts


class Comm:
    """Records what the context asks the communicator to do."""
    world_size = 5

    def __init__(self):
        self.log, self.fails = [], False

    def check(self):
        if self.fails:
            raise TimeoutError('no answer')

    def send(self, to, key, data, *, is_raw_bytes=False):
        self.log.append(('send', to, key, data, is_raw_bytes))
        self.check()
        return 'handle'

    def send_sync(self, to, key, data, *, is_raw_bytes=False, timeout=None):
        self.log.append(('send_sync', to, key, data, is_raw_bytes, timeout))
        self.check()

    def recv(self, frm, key, *, timeout=None):
        self.log.append(('recv', frm, key, None, None, timeout))
        self.check()
        return 'payload'


OPS = ['send', 'send_sync', 'recv']


def act(ctx, op, peer, data='x', raw=False, timeout=None):
    if op == 'send':
        return ctx.send(peer, data, is_raw_bytes=raw)
    if op == 'send_sync':
        return ctx.send_sync(peer, data, is_raw_bytes=raw, timeout=timeout)
    return ctx.recv(peer, timeout=timeout)


def state(env, name, cid, rank):
    """A context after arbitrary earlier traffic: any count per peer, any number of children."""
    c = Comm()
    ctx = CommContext(c, cid, rank)
    env.bind(ctx, '_id', '_seq', '_spawn_counter')
    ctx._seq = env.int_map(name + '.seq', range(5), default=True)
    ctx._spawn_counter = env.int(name + '.spawned', 0, conc=lambda r: r.choice([0, 1, 2, 10, 11]))
    return ctx, c


def cnt(env, ctx, peer):
    return ctx._seq.get(peer, 0) if not env.sym else env.run(ctx._seq.get, peer, 0)[1]


def h_step(env):
    """Every operation: one message, to that peer, unchanged payload, key made of context id and that peer's counter; only that counter moves."""
    cid = env.str('cid')
    ctx, c = state(env, 'c', cid, env.int('rank', 0, 4))
    peer, other = env.int('peer', 0, 4), env.int('other', 0, 4)
    env.assume(env.not_(env.eq(peer, other)))
    op = env.choice('op', OPS)
    data, t = env.opaque('data', D), env.opaque('timeout', T)
    raw = env.bool('raw')
    s0, o0, sp0 = cnt(env, ctx, peer), cnt(env, ctx, other), ctx._spawn_counter
    c.fails = bool(env.choice('fails', [0, 1]))
    r = env.run(act, ctx, op, peer, data, raw, t)
    env.prove('a failure of the communicator is passed on', r[0] == ('exc' if c.fails else 'ok') and (not c.fails or isinstance(r[1], TimeoutError)), r)
    res = r[1]
    env.prove('exactly one message', len(c.log) == 1 and c.log[0][0] == op)
    m = c.log[0]
    env.prove('goes to the peer', env.eq(m[1], peer))
    if op != 'recv':
        env.prove('payload unchanged', env.and_(env.eq(m[3], data), env.iff(m[4], raw)))
    if op != 'send':
        env.prove('timeout passed on', env.eq(m[5], t))
    env.prove('result passed on', c.fails or res == {'send': 'handle', 'send_sync': None, 'recv': 'payload'}[op])
    env.prove('counter of the peer advances by one', env.eq(cnt(env, ctx, peer), s0 + 1))
    env.prove('other counters unchanged', env.eq(cnt(env, ctx, other), o0))
    env.prove('children unaffected', env.eq(ctx._spawn_counter, sp0))
    ctx2, c2 = state(env, 'd', cid, env.int('rank2', 0, 4))
    peer2 = env.int('peer2', 0, 4)
    env.assume(env.eq(cnt(env, ctx2, peer2), s0))
    act(ctx2, env.choice('op2', OPS), peer2)
    env.prove('the key depends only on context id and counter', env.eq(c2.log[0][2], m[2]))


def h_fresh(env):
    """Within a context two different counter values never give the same key."""
    ctx, c = state(env, 'c', env.str('cid'), env.int('rank', 0, 4))
    peer = env.int('peer', 0, 4)
    act(ctx, env.choice('op1', OPS), peer)
    n = env.int('later', 1, conc=lambda r: r.choice([1, 2, 9, 10, 11, 99]))
    ctx._seq[peer] = cnt(env, ctx, peer) + n - 1
    act(ctx, env.choice('op2', OPS), peer)
    env.prove('later key differs', env.not_(env.eq(c.log[0][2], c.log[1][2])))


def spawn(ctx, suffix):
    return ctx.spawn() if suffix is None else ctx.spawn(suffix=suffix)


def h_spawn(env):
    """A child starts empty, keeps rank and communicator, and its id extends the parent's id by '.'+counter."""
    cid = env.str('cid')
    ctx, c = state(env, 'c', cid, env.int('rank', 0, 4))
    p0 = env.int('p', 0, 4)
    before, k = cnt(env, ctx, p0), ctx._spawn_counter
    suf = env.str('suffix') if env.choice('with_suffix', [0, 1]) else None
    ch = spawn(ctx, suf)
    env.prove('same rank', env.eq(ch.rank, ctx.rank))
    env.prove('fresh counters', env.and_(env.eq(cnt(env, ch, p0), 0), env.eq(ch._spawn_counter, 0)))
    env.prove('parent counters unchanged', env.eq(cnt(env, ctx, p0), before))
    env.prove('child number consumed', env.eq(ctx._spawn_counter, k + 1))
    # corresponding children on another rank: same parent id, same position, same suffix -> same key
    ctx2, c2 = state(env, 'd', cid, env.int('rank2', 0, 4))
    env.assume(env.eq(ctx2._spawn_counter, k))
    ch2 = spawn(ctx2, suf)
    act(ch, env.choice('op', OPS), p0)
    act(ch2, env.choice('op2', OPS), env.int('q', 0, 4))
    env.prove('same key on corresponding children', env.eq(c.log[0][2], c2.log[0][2]))


def h_disjoint(env):
    """Contexts of one tree never share a key: a child, its later sibling, and the parent, at any counters."""
    cid = env.str('cid', conc=lambda r: r.choice(['', 'root', 'a.1', 'a.1:0', '1', '.']))
    ctx, c = state(env, 'c', cid, 0)
    sufgen = lambda r: r.choice(['', '0', '1', 'x.1', '1.0', ':0', '0:0'])
    s1 = env.str('s1', conc=sufgen) if env.choice('w1', [0, 1]) else None
    s2 = env.str('s2', conc=sufgen) if env.choice('w2', [0, 1]) else None
    a = spawn(ctx, s1)
    ctx._spawn_counter = ctx._spawn_counter + env.int('between', 0, conc=lambda r: r.choice([0, 0, 1, 8, 9]))
    b = spawn(ctx, s2)
    # a and b (or any descendant) send their n-th message to the same peer
    da = env.str('da', conc=sufgen) if env.choice('deep_a', [0, 1]) else None
    db = env.str('db', conc=sufgen) if env.choice('deep_b', [0, 1]) else None
    for x, dsuf, nm in ((a, da, 'a'), (b, db, 'b')):
        # every descendant's id is its ancestor's id, or starts with it and a dot (see h_prefix)
        if dsuf is not None:
            x._id = x._id + '.' + dsuf
        x._seq[1] = env.int('n' + nm, 0, conc=lambda r: r.choice([0, 1, 10]))
        act(x, 'send', 1)
    ctx._seq[1] = env.int('np', 0, conc=lambda r: r.choice([0, 1, 10]))
    act(ctx, 'send', 1)
    ka, kb, kp = c.log[0][2], c.log[1][2], c.log[2][2]
    env.prove('siblings (and their descendants) never share a key', env.not_(env.eq(ka, kb)))
    env.prove('child and parent never share a key', env.not_(env.eq(ka, kp)))


def h_prefix(env):
    """Induction step used by h_disjoint: a child's id is its parent's id, a dot, and something."""
    cid = env.str('cid')
    ctx, c = state(env, 'c', cid, 0)
    suf = env.str('suffix') if env.choice('with_suffix', [0, 1]) else None
    ch = spawn(ctx, suf)
    env.prove('id extends the parent id', env.run(lambda: ch._id.startswith(cid + '.'))[1])
    # and the key is that id, a colon and a number
    ch._seq[2] = env.int('n', 0)
    act(ch, 'recv', 2)
    env.prove('key extends the id', env.run(lambda: c.log[0][2].startswith(ch._id + ':'))[1])


def h_history(env):
    """Whole histories over the public API: two ranks run the same random SPMD program; keys match pairwise and are never reused."""
    A, B = Comm(), Comm()
    cid = env.str('cid', conc=lambda r: r.choice(['', 'j', 'a.0', '1']))
    ca, cb = [CommContext(A, cid, 0)], [CommContext(B, cid, 1)]
    n = env.length('n', 0, 8)
    for i in range(n):
        A.fails = B.fails = False
        k = env.choice(f'kind{i}', ['ab', 'ba', 'third_a', 'third_b', 'spawn', 'spawn_s'])
        w = env.int(f'ctx{i}', 0, len(ca) - 1, conc=lambda r: r.randrange(len(ca)))
        if k == 'ab':
            A.fails, B.fails = env.choice(f'fa{i}', [0, 0, 1]), env.choice(f'fb{i}', [0, 0, 1])
            env.run(act, ca[w], env.choice(f's{i}', OPS[:2]), 1)
            env.run(act, cb[w], 'recv', 0)
        elif k == 'ba':
            A.fails, B.fails = env.choice(f'fa{i}', [0, 0, 1]), env.choice(f'fb{i}', [0, 0, 1])
            env.run(act, cb[w], env.choice(f's{i}', OPS[:2]), 0)
            env.run(act, ca[w], 'recv', 1)
        elif k == 'third_a':
            act(ca[w], env.choice(f's{i}', OPS), 2)
        elif k == 'third_b':
            act(cb[w], env.choice(f's{i}', OPS), 3)
        else:
            suf = env.str(f'suf{i}', conc=lambda r: r.choice(['', '0', '1', 'x', '1.0'])) if k == 'spawn_s' else None
            ca.append(spawn(ca[w], suf))
            cb.append(spawn(cb[w], suf))
    ka = [m[2] for m in A.log if m[1] == 1]
    kb = [m[2] for m in B.log if m[1] == 0]
    env.prove('same number', len(ka) == len(kb))
    for x, y in zip(ka, kb):
        env.prove('matching keys', x == y)
    env.prove('no key reused', len(set(ka)) == len(ka))
    env.prove('no key reused with a third party', len({(m[1], m[2]) for m in A.log}) == len(A.log))


D = core.Sort('Payload')
T = core.Sort('Timeout')


def harnesses():
    return [H('async', c08_contexts, sym=False, conc=1500, conc_s=8, functions=['Interpreter._evaluate_graph_async', '_graph_exec_key']),
            H('step', h_step, functions=FUNCTIONS), H('fresh', h_fresh, functions=FUNCTIONS), H('spawn', h_spawn, functions=['CommContext.spawn']),
            H('disjoint', h_disjoint, functions=['CommContext.spawn']), H('prefix', h_prefix, functions=['CommContext.spawn']),
            H('history', h_history, sym=False, conc=2000, functions=FUNCTIONS)]
