"""C10  Collectives deliver the right result and their messages pair up."""
import operator
import threading
import types
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M
from pyvc.core import Sort

INSTRUMENT = ['mplang.backends.simp_worker.collective_algorithms', 'mplang.backends.simp_worker.collectives', 'mplang.backends.simp_worker.comm_context']
ASSUMPTIONS = ['all participants call the same collective with the same participants (and root)',
               'deadlock freedom and pairing follow from the per-participant contracts: to every other participant the root has the interactions the contract '
               'lists, in that order, and so has the other side; keys match because interactions with a peer are counted (C09)']
TRUSTED = ['sorting a set of integers yields them in increasing order without repeats (normalize_participants is proved up to 4 participants, and its contract used for any number)']

import vp_without_spu  # noqa
from mplang.backends.simp_worker import collective_algorithms as A
from mplang.backends.simp_worker import collectives as CO
from mplang.backends.simp_worker.comm_context import CommContext
from mplang.backends.simp_worker.mem import LocalMesh
from mplang.edsl.graph import Graph
import mplang.edsl.typing as T

D = Sort('Data')
OPS = {'and': operator.and_, 'or': operator.or_, 'xor': operator.xor}
ALGO = {'and': A.allreduce_bool_and, 'or': A.allreduce_bool_or, 'xor': A.allreduce_bool_xor}


class Group:
    """An arbitrary participant group in increasing rank order, seen by one member, with ghost records of what was exchanged."""

    def __init__(self, env, kind):
        self.env, self.kind = env, kind
        self.world = env.int('world', 1)
        self.n = env.length('n', 1)
        P = z3.Function('P', z3.IntSort(), z3.IntSort())
        q, r = z3.Ints('q r')
        nt = core.iterm(self.n)
        core.ENG.assume(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < nt), P(q) < P(r)), patterns=[z3.MultiPattern(P(q), P(r))]))
        core.ENG.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nt), z3.And(P(q) >= 0, P(q) < core.iterm(self.world))), patterns=[P(q)]))
        self.P = lambda k: core.mkint(P(core.iterm(k)))
        self.ps = C.sym_seq(self.n, self.P, 'tuple')
        self.me = env.int('me', 0)
        env.assume(self.me < self.n)
        self.rank = self.P(self.me)
        self.world_size = self.world
        F = lambda s: z3.Function(s, z3.IntSort(), z3.BoolSort())
        no = lambda x: False
        self.sent, self.rcvd = C.Heap(lambda x: core.mkbool(z3.BoolVal(False)), 'bool'), C.Heap(lambda x: core.mkbool(z3.BoolVal(False)), 'bool')
        self.value = None       # peer -> what it sends
        self.on_send = None

    def aside(self, fn):
        """obligations in a path of their own, so that they add nothing to the path being followed"""
        if core.ENG.choose(2) == 0:
            fn()
            raise core.Kill('checked')

    def peer(self, x):
        env = self.env
        env.prove('only participants are contacted', env.exists(self.n, lambda k: env.eq(self.P(k), x)))
        env.prove('nobody contacts itself', env.not_(env.eq(x, self.rank)))

    def send(self, to, data, *, is_raw_bytes=False):
        def check():
            self.peer(to)
            self.env.prove('one message to each', self.env.not_(self.sent.get(to)))
            self.on_send(to, data)
        self.aside(check)
        self.sent.set(to, True)

    def send_sync(self, to, data, *, is_raw_bytes=False, timeout=None):
        self.send(to, data, is_raw_bytes=is_raw_bytes)

    def recv(self, frm, *, timeout=None):
        def check():
            self.peer(frm)
            self.env.prove('one message from each', self.env.not_(self.rcvd.get(frm)))
            self.on_recv(frm)
        self.aside(check)
        self.rcvd.set(frm, True)
        return self.value(frm)

    def spawn(self, *a, **k):
        raise core.Unsupported('child context')


def setup(env, role, kind):
    g = Group(env, kind)

    def normalize(ctx, participants):
        env.prove('participants of the call', participants is g.arg and ctx is g)
        return g.ps
    g.arg = env.opaque('participants', Sort('Participants'))
    M.STUBS[A.normalize_participants] = normalize
    env.assume(env.eq(g.me, 0) if role == 'root' else g.me > 0)
    env.rep = True
    return g


def others(env, g):
    """an arbitrary other participant"""
    for k in env.each('other', g.n):
        env.assume(env.not_(env.eq(k, g.me)))
        if core.ENG.feasible():
            yield k


def h_gather(env, which, role):
    """barrier, allgather and the boolean all-reduces: the least rank collects everything, then answers everybody."""
    g = setup(env, role, which)
    root = g.P(0)
    boolean = which in OPS
    given = core.wrap(z3.Function('given', z3.IntSort(), z3.BoolSort())(core.iterm(g.rank)), 'bool')
    fb = z3.Function('given', z3.IntSort(), z3.BoolSort())
    fd = z3.Function('givenD', z3.IntSort(), D.z)
    own = lambda x: core.mkbool(fb(core.iterm(x))) if boolean else core.wrap(fd(core.iterm(x)), D)
    mine = own(g.rank)
    answer = env.bool('answer') if boolean else C.sym_seq(g.n, lambda k: own(g.P(k)))
    if role == 'root':
        g.value = own if which != 'barrier' else (lambda x: True)
        g.on_recv = lambda frm: env.prove('collects before answering', env.not_(g.sent.get(frm)))
    else:
        g.value = lambda x: answer if which != 'barrier' else True
        g.on_recv = lambda frm: env.prove('offers its value before waiting for the answer', env.and_(env.eq(frm, root), g.sent.get(root)))
    payload = []

    def on_send(to, data):
        if role == 'root':
            env.prove('answers a participant only after having heard from it', g.rcvd.get(to))
            for j in env.each('heard', g.n):
                env.prove('answers only after having heard from everybody', env.or_(env.eq(j, 0), g.rcvd.get(g.P(j))))
        else:
            env.prove('contacts the root only', env.eq(to, root))
            if which != 'barrier':
                env.prove('its own value', env.eq(data, mine))
        payload.append((to, data))
        if role == 'root' and which != 'barrier':
            result_like(data, 'the answer sent')
    g.on_send = on_send

    def result_like(data, what):
        """data is the collective's result"""
        if which == 'allgather':
            env.prove_seq(what, data, g.n, lambda k: own(g.P(k)))
        else:
            env.prove(what + ' is the value returned', is_result(data))
    acc = {}

    def is_result(v):
        recs = [r for r in core.ENG.recs if r.kind == 'bool']
        if not recs:
            raise core.Unsupported('the reduction is not an accumulator over the participants')
        rec = recs[-1]
        acc['rec'] = rec
        return env.iff(v, rec.at(g.n))
    fn = {'barrier': A.barrier, 'allgather': A.allgather, **ALGO}[which]
    args = (g,) if which == 'barrier' else (g, mine)
    r = env.run(fn, *args, participants=g.arg)
    env.prove('no error', r[0] == 'ok', r)
    for k in others(env, g):
        p = g.P(k)
        if role == 'root':
            env.prove('hears from and answers every other participant', env.and_(g.sent.get(p), g.rcvd.get(p)))
        else:
            env.prove('talks to the root and to nobody else', env.iff(env.and_(g.sent.get(p), g.rcvd.get(p)), env.eq(k, 0)))
            env.prove('no one-sided message', env.iff(g.sent.get(p), g.rcvd.get(p)))
    if role != 'root':
        if boolean:
            env.prove('returns the answer', env.iff(r[1], answer))
        elif which == 'allgather':
            env.prove_seq('returns the answer', r[1], g.n, lambda k: own(g.P(k)))
    elif which == 'allgather':
        result_like(r[1], 'result')
    elif boolean:
        env.prove('result is the accumulated value', is_result(r[1]))
        rec = acc['rec']
        f = lambda k: rec.at(k)
        env.prove('starts from the root\'s value', env.iff(f(0), mine))
        k = C.fresh_int('ind')
        env.assume(env.and_(k >= 0, k < g.n))
        env.unfold(k)
        # spec: fold of the participants' values in rank order
        S = z3.Function('fold', z3.IntSort(), z3.BoolSort())
        op = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[which]
        t = core.iterm(k)
        core.ENG.assume(S(0) == fb(core.iterm(root)))
        core.ENG.assume(S(t + 1) == z3.If(t == 0, S(t), op(S(t), fb(core.iterm(g.P(k))))))
        env.prove('each step combines the next participant\'s value (induction)', z3.Implies(core.bterm(f(k)) == S(t), core.bterm(f(k + 1)) == S(t + 1)))
        if which in ('and', 'or'):
            w = which == 'and'
            q = z3.Int('iq')
            P = lambda q: core.iterm(g.P(core.mkint(q)))
            lit = lambda x: x if w else z3.Not(x)
            Q = lambda m: lit(core.bterm(f(core.mkint(m)))) == z3.And(lit(fb(core.iterm(root))), z3.ForAll([q], z3.Implies(z3.And(q >= 1, q < m), lit(fb(P(q))))))
            env.prove('quantified meaning (induction start)', Q(z3.IntVal(0)))
            env.prove('quantified meaning (induction step)', z3.Implies(Q(t), Q(t + 1)))
    env.cover('end')


def h_broadcast(env, role):
    """Everybody returns the root's value; the root sends it once to each other participant."""
    g = setup(env, role, 'broadcast')
    env.ctx = g
    v, rv = env.opaque('mine', D), env.opaque('roots', D)
    # any member may be the root
    ri = env.int('ri', 0)
    env.assume(ri < g.n)
    root = g.P(ri)
    is_root = role == 'root'
    g2 = g
    g.me = env.int('me2', 0)
    env.assume(g.me < g.n)
    g.rank = g.P(g.me)
    env.assume(env.eq(g.me, ri) if is_root else env.not_(env.eq(g.me, ri)))
    g.value = lambda x: rv

    def on_send(to, data):
        env.prove('only the root sends', is_root)
        env.prove('the root\'s value', env.eq(data, v))
    g.on_send = on_send
    g.on_recv = lambda frm: env.prove('received from the root', env.eq(frm, root) if not is_root else False)
    r = env.run(A.broadcast, g, v, root=root, participants=g.arg)
    env.prove('no error', r[0] == 'ok', r)
    env.prove('the root\'s value is returned', env.eq(r[1], v if is_root else rv))
    for k in others(env, g):
        p = g.P(k)
        env.prove('sent to everybody by the root, by nobody else', env.iff(g.sent.get(p), is_root))
        env.prove('received from the root only', env.iff(g.rcvd.get(p), env.eq(k, ri) if not is_root else False))
    env.cover('end')


def h_broadcast_bad(env):
    """A root that is not a member is refused before anything is sent."""
    g = setup(env, env.choice('role', ['root', 'other']), 'broadcast')
    x = env.int('x')
    env.assume(env.forall(g.n, lambda k: env.not_(env.eq(g.P(k), x))))
    g.on_send = g.on_recv = lambda *a: env.fail('nothing is exchanged')
    r = env.run(A.broadcast, g, env.opaque('v', D), root=x, participants=g.arg)
    env.prove('refused', r[0] == 'exc' and isinstance(r[1], ValueError), r)


def h_normalize(env):
    """Sorted, without repeats, the same ranks; empty groups, ranks outside the world and groups without the caller are refused."""
    w = env.int('world', 1, conc=lambda r: r.randint(1, 6))
    me = env.int('rank', 0, conc=lambda r: r.randint(0, 5))
    m = env.choice('m', [0, 1, 2, 3, 4])
    xs = [env.int(f'x{i}', conc=lambda r: r.randint(-1, 6)) for i in range(m)]
    ctx = types.SimpleNamespace(rank=me, world_size=w)
    r = env.run(A.normalize_participants, ctx, (list if env.choice('kind', [0, 1]) else tuple)(xs))
    ok = env.and_(m > 0, *[env.and_(x >= 0, x < w) for x in xs], env.or_(False, *[env.eq(x, me) for x in xs]))
    env.prove('accepted exactly when it is a group of this world with the caller', env.iff(ok, r[0] == 'ok'), r)
    if r[0] != 'ok':
        env.prove('reported', isinstance(r[1], ValueError), r)
        return
    ps = list(r[1])
    env.prove('increasing', env.and_(True, *[a < b for a, b in zip(ps, ps[1:])]))
    for x in xs:
        env.prove('every member is there', env.or_(False, *[env.eq(x, p) for p in ps]))
    for p in ps:
        env.prove('nobody else is there', env.or_(False, *[env.eq(x, p) for x in xs]))


def h_resolve(env):
    """Explicit participants, else the operation's parties, else the current parties, else everybody."""
    op = types.SimpleNamespace(attrs={})
    opp = env.choice('op', ['none', 'no attribute', 'parties', 'bad'])
    if opp == 'parties':
        op.attrs['parties'] = [env.int(f'o{i}', 0, 4) for i in range(env.choice('no', [0, 1, 2]))]
    if opp == 'bad':
        op.attrs['parties'] = env.choice('b', [3, {1}])
    cur = tuple(env.int(f'c{i}', 0, 4) for i in range(2)) if env.choice('cur', [0, 1]) else None
    exp = [env.int(f'e{i}', 0, 4) for i in range(env.choice('ne', [0, 2]))] if env.choice('exp', [0, 1]) else None
    W = env.choice('W', [1, 3])
    w = types.SimpleNamespace(rank=0, world_size=W, current_parties=cur)
    r = env.run(CO.resolve_participants, w, op=None if opp == 'none' else op, participants=exp)
    if exp is None and opp == 'bad':
        env.prove('refused', r[0] == 'exc', r)
        return
    env.prove('no error', r[0] == 'ok', r)
    want = exp if exp is not None else op.attrs['parties'] if opp == 'parties' else cur if cur is not None else range(W)
    env.prove('the right ones', len(r[1]) == len(want) and all(bool(env.eq(a, b)) if not env.sym else True for a, b in zip(r[1], want)))
    for a, b in zip(r[1], want):
        env.prove('the right ones', env.eq(a, b))


# --- whole runs: every participant, values symbolic.  Participants are deterministic and receives name their sender, so one
# schedule decides all of them (Kahn network): a participant that cannot proceed in it cannot proceed in any.
class Blocked(BaseException):
    pass


class Net:
    def __init__(self, world):
        self.world_size, self.sent, self.got = world, {}, set()


class Comm:
    """one rank's communicator in a replayed run: sends are remembered, receives look up or block"""

    def __init__(self, env, net, rank):
        self.env, self.net, self.rank, self.world_size = env, net, rank, net.world_size
        self.i = 0

    def send(self, to, key, data, *, is_raw_bytes=False):
        m = (self.rank, to, key)
        self.env.prove('receiver is in the world', 0 <= to < self.world_size)
        self.seen = getattr(self, 'seen', set())
        self.env.prove('no key is used twice for one addressee', m not in self.seen)
        self.seen.add(m)
        self.net.sent.setdefault(m, data)

    def send_sync(self, to, key, data, *, is_raw_bytes=False, timeout=None):
        self.send(to, key, data)

    def recv(self, frm, key, *, timeout=None):
        m = (frm, self.rank, key)
        if m not in self.net.sent:
            raise Blocked()
        self.net.got.add(m)
        return self.net.sent[m]


def simulate(env, world, members, prog, key='job'):
    """run prog(rank, ctx) on every member; returns results; fails on deadlock and on messages nobody receives"""
    net = Net(world)
    todo, res = list(members), {}
    while todo:
        progress = False
        for r in list(todo):
            before = len(net.sent)
            try:
                res[r] = env.run(prog, r, CommContext(Comm(env, net, r), key, r))
            except Blocked:
                progress |= len(net.sent) > before
                continue
            todo.remove(r)
            progress = True
        if not progress:
            env.fail('deadlock', (todo, list(net.sent)))
            return None
    env.prove('every message sent is received', set(net.sent) == net.got, (net.sent, net.got))
    return res


def h_run(env, which):
    """All groups of a world of at most 4, every root: results, pairing, no deadlock; two collectives in a row."""
    if env.sym:
        world = env.choice('world', [2, 3, 4, 1])
        members = env.choice('mask', list(range(1, 1 << world)))
        members = [r for r in range(world) if members >> r & 1]
    else:
        world = env.int('world', 1, 12)
        members = [r for r in range(world) if env.choice(f'in{r}', [1, 1, 0])] or [world - 1]
    root = members[env.choice('root', list(range(len(members))))] if which == 'broadcast' else None
    # values differ per rank
    vals = {r: (env.bool(f'b{r}') if which in OPS else env.opaque(f'v{r}', D)) for r in members}
    vals2 = {r: env.opaque(f'w{r}', D) for r in members}
    listed = list(reversed(members)) + members[:1]          # order and repeats do not matter

    def prog(r, ctx):
        if which == 'broadcast':
            a = A.broadcast(ctx, vals[r], root=root, participants=listed)
        elif which == 'barrier':
            a = A.barrier(ctx, participants=listed)
        elif which == 'allgather':
            a = A.allgather(ctx, vals[r], participants=listed)
        else:
            a = ALGO[which](ctx, vals[r], participants=listed)
        return a, A.allgather(ctx, vals2[r], participants=listed)
    res = simulate(env, world, members, prog)
    if res is None:
        return
    acc = vals[members[0]]
    for r in members[1:]:
        if which in OPS:
            acc = {'and': env.and_, 'or': env.or_, 'xor': lambda a, b: env.not_(env.iff(a, b))}[which](acc, vals[r])
    for r in members:
        env.prove('no error', res[r][0] == 'ok', res[r])
        a, b = res[r][1]
        if which == 'broadcast':
            env.prove('everyone has the root\'s value', env.eq(a, vals[root]))
        elif which == 'allgather':
            env.prove_seq('everyone has all values in order', a, len(members), lambda k: vals[members[k]])
        elif which in OPS:
            env.prove('everyone has the combination of all', env.iff(a, acc))
        env.prove_seq('the next collective works too', b, len(members), lambda k: vals2[members[k]])
    for r in range(world):
        if r not in members:
            x = env.run(A.barrier, CommContext(Comm(env, Net(world), r), 'x', r), participants=listed)
            env.prove('non-members are rejected', x[0] == 'exc' and isinstance(x[1], ValueError), x)


def h_uniform(env):
    """verify_uniform_predicate returns the common value, or raises on every participant; the wrappers use the resolved group."""
    world = env.choice('world', [2, 3, 1])
    members = env.choice('mask', list(range(1, 1 << world)))
    members = [r for r in range(world) if members >> r & 1]
    preds = {r: env.bool(f'p{r}') for r in members}
    how = env.choice('how', ['explicit', 'op', 'current', 'all'])
    if how == 'all' and len(members) < world:
        return
    op = types.SimpleNamespace(attrs={'parties': tuple(members)} if how == 'op' else {})

    def prog(r, ctx):
        w = types.SimpleNamespace(rank=r, world_size=world, current_parties=tuple(members) if how == 'current' else None)
        kw = dict(op=op, participants=list(members) if how == 'explicit' else None)
        CO.barrier(ctx, w, **kw)
        g = CO.allgather_bool(ctx, w, preds[r], **kw)
        x = CO.allreduce_bool_xor(ctx, w, preds[r], **kw)
        b = CO.broadcast(ctx, w, r, root=members[-1], **kw)
        return CO.verify_uniform_predicate(ctx, w, preds[r], **kw), g, x, b
    res = simulate(env, world, members, prog)
    if res is None:
        return
    same = env.and_(True, *[env.iff(preds[r], preds[members[0]]) for r in members])
    for r in members:
        env.prove('accepted exactly when uniform', env.iff(same, res[r][0] == 'ok'), res[r])
        if res[r][0] == 'ok':
            v, g, x, b = res[r][1]
            env.prove('the predicate', env.iff(v, preds[r]))
            env.prove('broadcast through the wrapper', b == members[-1])
            env.prove_seq('allgather through the wrapper', g, len(members), lambda k: preds[members[k]])


def h_threads(env):
    """Real threads over the in-memory communicator: random groups, random sequences of collectives."""
    world = env.int('world', 1, env.choice('big', [3, 5, 12]))
    members = [r for r in range(world) if env.choice(f'm{r}', [1, 1, 0])] or [0]
    prog = [env.choice(f'c{i}', ['barrier', 'broadcast', 'allgather', 'and', 'or', 'xor']) for i in range(env.int('n', 1, 6))]
    roots = [members[env.int(f'r{i}', 0, len(members) - 1)] for i in range(len(prog))]
    vals = {r: [bool(env.choice(f'v{r}.{i}', [0, 1])) for i in range(len(prog))] for r in members}
    mesh = LocalMesh(world)
    out, entered = {}, [0] * len(prog)
    lock = threading.Lock()

    def go(r):
        ctx = CommContext(mesh.comms[r], 'job', r)
        res = []
        for i, c in enumerate(prog):
            with lock:
                entered[i] += 1
            v = vals[r][i]
            if c == 'barrier':
                A.barrier(ctx, participants=members)
                res.append(entered[i] == len(members))
            elif c == 'broadcast':
                res.append(A.broadcast(ctx, (r, i), root=roots[i], participants=members))
            elif c == 'allgather':
                res.append(list(A.allgather(ctx, (r, i), participants=members)))
            else:
                res.append(ALGO[c](ctx, v, participants=members))
        out[r] = res
    ts = [threading.Thread(target=go, args=(r,), daemon=True) for r in members]
    for t in ts:
        t.start()
    for t in ts:
        t.join(10)
    alive = any(t.is_alive() for t in ts)
    mesh.shutdown()
    env.prove('no deadlock', not alive)
    import functools
    for r in members:
        for i, c in enumerate(prog):
            vs = [vals[m][i] for m in members]
            want = {'barrier': lambda: True, 'broadcast': lambda: (roots[i], i), 'allgather': lambda: [(m, i) for m in members],
                    'and': lambda: all(vs), 'or': lambda: any(vs), 'xor': lambda: bool(sum(vs) % 2)}[c]()
            env.prove('result of ' + c, out[r][i] == want, (r, i, out[r][i], want))
    env.prove('mailboxes are empty', all(not c._mailbox for c in mesh.comms) if hasattr(mesh.comms[0], '_mailbox') else True)


def harnesses():
    hs = []
    for w in ('barrier', 'allgather', 'and', 'or', 'xor'):
        for role in ('root', 'other'):
            hs.append(H(f'{w}-{role}', (lambda env, w=w, role=role: h_gather(env, w, role)), conc=0, functions=[f'collective_algorithms.{w}'], budget=120, branch_ms=300, what=h_gather.__doc__))
    for role in ('root', 'other'):
        hs.append(H(f'broadcast-{role}', (lambda env, role=role: h_broadcast(env, role)), conc=0, functions=['collective_algorithms.broadcast'], budget=120, branch_ms=300))
    hs.append(H('broadcast-refused', h_broadcast_bad, conc=0, functions=['collective_algorithms.broadcast']))
    hs.append(H('normalize', h_normalize, unbounded=False, bound=4, conc=600, conc_s=2, functions=['normalize_participants'], budget=200))
    hs.append(H('resolve', h_resolve, unbounded=False, bound=2, conc=300, conc_s=2, functions=['resolve_participants']))
    for w in ('barrier', 'broadcast', 'allgather', 'and', 'or', 'xor'):
        hs.append(H(f'run-{w}', (lambda env, w=w: h_run(env, w)), unbounded=False, bound=4, conc=200, conc_s=2, functions=[f'collective_algorithms.{w}'], budget=200))
    hs.append(H('uniform', h_uniform, unbounded=False, bound=3, conc=200, conc_s=2, functions=['verify_uniform_predicate', 'allgather_bool', 'allgather_obj', 'broadcast', 'barrier'], budget=200))
    hs.append(H('threads', h_threads, sym=False, conc=150, conc_s=10, functions=['ThreadCommunicator']))
    return hs
