"""C13  Each party executes exactly its share of a multi-party program."""
import threading
import types
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M, loops
from pyvc.core import Sort

INSTRUMENT = ['mplang.backends.simp_worker.ops', 'mplang.backends.simp_worker.collectives', 'mplang.backends.simp_worker.comm_context', 'mplang.backends.simp_worker.collective_algorithms']
ASSUMPTIONS = ['Interpreter.evaluate_graph(region, inputs) evaluates the region on the inputs and returns its outputs as a list (C07, C08), or raises',
               'an operation has as many outputs as its region (established when the graph is traced, C06)',
               'verify_uniform_predicate returns the common predicate of the participants or raises (proved in C10)',
               'calls have up to 7 operands (loops: 9 state values, 2 captures) - Python argument lists are explored at fixed lengths']
TRUSTED = ['CommContext pairs messages by peer and position (C09)']

import vp_without_spu  # noqa
import mplang.edsl as el
import mplang.edsl.typing as T
from mplang.backends.simp_worker import SimpWorker
from mplang.backends.simp_worker import ops as O
from mplang.backends.simp_worker import collectives as CO
from mplang.backends.simp_worker.comm_context import CommContext
from mplang.backends.simp_worker.mem import LocalMesh
from mplang.dialects import simp
from mplang.edsl.graph import Graph, Operation
from mplang.runtime.interpreter import Interpreter
from mplang.runtime.object_store import ObjectStore
from specs.C10 import simulate, Blocked

D = Sort('Data')
HANDLER = O.WORKER_HANDLERS
PCALL, DYN, SHUFFLE, CONVERGE, COND, WHILE = (HANDLER[p.name] for p in (
    simp.pcall_static_p, simp.pcall_dynamic_p, simp.shuffle_static_p, simp.converge_p, simp.uniform_cond_p, simp.while_loop_p))


class Interp(Interpreter):
    """the interpreter as the handlers see it: its contract, with a record of the evaluations"""

    def __init__(self, worker, ctx=None):
        self.worker, self.ctx, self.evals, self.on_eval = worker, ctx, [], None

    def get_dialect_state(self, name):
        return self.worker if name == 'simp' else None

    def current_comm_ctx(self, *a):
        return self.ctx

    def evaluate_graph(self, graph, inputs, job_id=None):
        self.evals.append((graph, list(inputs)))
        return self.on_eval(graph, list(inputs))


def worker(rank, world=None, cur=None):
    return types.SimpleNamespace(rank=rank, world_size=world, communicator=object(), current_parties=cur)


def region(env, n):
    return types.SimpleNamespace(outputs=env.seq('outs', lambda i: i, n=n), inputs=[], operations=[])


def h_pcall(env, static):
    """Named parties run the region once, on the operands; others run nothing and have empty results of the right number."""
    rank = env.int('rank', 0, conc=lambda r: r.randint(0, 3))
    parties = env.int_seq('parties', lo=0, hi=None, nhi=4, conc=lambda r: r.randint(0, 3))
    args = [env.opaque(f'a{i}', D) for i in range(env.choice('nargs', [0, 1, 3, 2, 7]))]
    n = env.length('n_out', 0)
    reg = region(env, n)
    op = types.SimpleNamespace(opcode='simp.pcall', attrs={'parties': parties, 'fn_name': 'f'} if static else {}, regions=[reg], outputs=env.seq('oouts', lambda i: i, n=n), inputs=args)
    prev = env.choice('prev', [None, (0,), (0, 1, 2)])
    w = worker(rank, 4, prev)
    it = Interp(w)
    out = env.fn('out', ['int'], D)
    results = env.seq('results', lambda i: out(i), n=n)
    fails = env.choice('fails', [False, True])
    seen = []

    def on_eval(g, inputs):
        env.prove('the call\'s own region', g is reg)
        env.prove('once', len(it.evals) == 1)
        env.prove('on the operands', len(inputs) == len(args) and all(x is y for x, y in zip(inputs, args)))
        seen.append(w.current_parties)
        if fails:
            raise ValueError('local')
        return results
    it.on_eval = on_eval
    mine = env.exists(env.len(parties), lambda k: env.eq(env.get(parties, k), rank)) if static else True
    r = env.run(PCALL if static else DYN, it, op, *args)
    ran = len(it.evals)
    env.prove('runs exactly on the named parties', env.iff(mine, ran > 0))
    env.prove('set of current parties is restored', w.current_parties is prev, w.current_parties)
    env.prove('the failure, and only that, is reported', env.iff(r[0] == 'exc', fails and ran > 0) if r[0] == 'ok' or (isinstance(r[1], ValueError) and str(r[1]) == 'local') else False, r)
    if ran and static:
        env.prove('current parties are those of the call', seen[0] is parties or list(seen[0]) == list(parties))
    if r[0] != 'ok':
        return
    res = r[1]
    if bool(env.eq(n, 0)):
        env.prove('no results', env.eq(env.len(res), 0), res)
    elif bool(env.eq(n, 1)):
        env.prove('the single result' if ran else 'the single result is empty', env.eq(res, out(0)) if ran else res is None, res)
    else:
        env.prove_seq('results in order' if ran else 'empty results of the right number', res, n, (lambda i: out(i)) if ran else (lambda i: None))
    env.cover('end')


class Ctx:
    """communication context with ghost records"""

    def __init__(self, env):
        self.env = env
        no = lambda x: core.mkbool(z3.BoolVal(False))
        self.sent, self.rcvd = (C.Heap(no, 'bool'), C.Heap(no, 'bool')) if env.sym else (CH(), CH())

    def aside(self, fn):
        if not self.env.sym:
            return fn()
        if core.ENG.choose(2) == 0:
            fn()
            raise core.Kill('checked')

    def send(self, to, data, *, is_raw_bytes=False):
        self.aside(lambda: self.on_send(to, data, is_raw_bytes))
        self.sent.set(to, True)

    def send_sync(self, to, data, *, is_raw_bytes=False, timeout=None):
        self.send(to, data, is_raw_bytes=is_raw_bytes)

    def recv(self, frm, *, timeout=None):
        self.aside(lambda: self.on_recv(frm))
        self.rcvd.set(frm, True)
        return self.value(frm)


class CH(dict):
    def get(self, k):
        return dict.get(self, k, False)

    def set(self, k, v):
        self[k] = v


def h_shuffle(env):
    """Any routing table, any rank: the messages this party sends and awaits, their order, and its result."""
    me = env.int('me', 0, conc=lambda r: r.randint(0, 3))
    n = env.length('n', 0, 4)
    src = env.fn('src', ['int'], 'int', conc=lambda r, k: r.randint(0, 3))
    if env.sym:
        # the routing of every key as a function of the key
        dst, keyf = (z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ('route', 'routing.key'))
        routing = C.sym_dict('routing', 'int', lambda i: core.mkint(dst(keyf(core.iterm(i)))), n)
    else:
        ks = env.rng.sample(range(5), n) if env.rng else list(range(n))
        ks = [env.int(f'k{i}', 0, 4, conc=lambda r, k=k: k) for i, k in enumerate(ks)]
        env.assume(len(set(ks)) == n)
        routing = {k: src(k) for k in ks}
    has = lambda k: env.run(lambda: k in routing)[1]
    val = (lambda k: core.mkint(dst(core.iterm(k)))) if env.sym else (lambda k: routing.get(k, -1))
    if env.sym:
        q = z3.Int('rq')
        core.ENG.assume(z3.ForAll([q], dst(q) >= 0, patterns=[dst(q)]))
    data = env.opaque('data', D)
    ctx = Ctx(env)
    give = env.fn('give', ['int'], D)
    ctx.value = give
    exch = lambda p: env.and_(has(me), env.eq(val(me), p), has(p), env.eq(val(p), me), env.not_(env.eq(p, me)))

    def on_send(to, x, raw):
        env.prove('sends only to parties routed from it', env.and_(has(to), env.eq(val(to), me), env.not_(env.eq(to, me))))
        env.prove('its own value, as an object', env.and_(env.eq(x, data), env.not_(raw)))
        env.prove('one message to each', env.not_(ctx.sent.get(to)))
        env.prove('in an exchange the lower rank\'s message comes first', env.implies(env.and_(exch(to), me > to), ctx.rcvd.get(to)))
    ctx.on_send = on_send

    def on_recv(frm):
        env.prove('receives only from its source', env.and_(has(me), env.eq(val(me), frm), env.not_(env.eq(frm, me))))
        env.prove('one message', env.not_(ctx.rcvd.get(frm)))
        env.prove('in an exchange the lower rank\'s message comes first', env.implies(env.and_(exch(frm), me < frm), ctx.sent.get(frm)))
        # whoever waits has sent all it has to send, or waits for a lower rank that sends before it waits
        for j in env.each('pending', n):
            k = key(j)
            env.prove('waits only when nobody waits for it in turn', env.or_(env.not_(env.eq(val(k), me)), env.eq(k, me), ctx.sent.get(k), env.and_(exch(frm), me > frm)))
    ctx.on_recv = on_recv
    key = (lambda j: routing._sym.key(j)) if env.sym else (lambda j: list(routing)[j])
    op = types.SimpleNamespace(attrs={'routing': routing}, regions=[], outputs=[0], inputs=[0], opcode='simp.shuffle')
    it = Interp(worker(me, 5), ctx)
    it.on_eval = lambda *a: env.fail('nothing to evaluate')
    r = env.run(SHUFFLE, it, op, data)
    env.prove('no error', r[0] == 'ok', r)
    for j in env.each('target', n):
        k = key(j)
        env.prove('every target routed from here gets its message', env.iff(ctx.sent.get(k), env.and_(env.eq(val(k), me), env.not_(env.eq(k, me)))))
        env.prove('waits for its source only', env.iff(ctx.rcvd.get(k), env.and_(has(me), env.eq(val(me), k), env.not_(env.eq(k, me)))))
    if not bool(has(me)):
        env.prove('no value for a party that is not a target', r[1] is None, r)
    elif bool(env.eq(val(me), me)):
        env.prove('its own value stays', env.eq(r[1], data), r)
    else:
        env.prove('the value of its source', env.eq(r[1], give(val(me))), r)
        env.prove('received from its source', ctx.rcvd.get(val(me)))
    env.cover('end')


def h_shuffle_run(env):
    """All parties together: sequences of shuffles over the real contexts, every routing table."""
    if env.sym:
        world = env.choice('world', [2, 3, 1])
        steps = 1
        W = world
    else:
        world = env.int('world', 1, 6)
        steps = env.int('steps', 1, 4)
    tables = []
    for s in range(steps):
        code = env.choice(f'code{s}', list(range((world + 1) ** world))) if env.sym else None
        t = {}
        for k in range(world):
            v = (code // (world + 1) ** k) % (world + 1) if env.sym else env.int(f'r{s}.{k}', 0, world)
            if v:
                t[k] = v - 1
        tables.append(t)
    vals = {r: env.opaque(f'v{r}', D) for r in range(world)}

    def prog(r, ctx):
        w = worker(r, world)
        it = Interp(w, ctx)
        x, trace = vals[r], []
        for t in tables:
            y = SHUFFLE(it, types.SimpleNamespace(attrs={'routing': t}, opcode='simp.shuffle', regions=[], inputs=[0], outputs=[0]), x)
            trace.append(y)
            x = y if y is not None else vals[r]
        return trace
    res = simulate(env, world, list(range(world)), prog)
    if res is None:
        return
    cur = dict(vals)
    for s, t in enumerate(tables):
        nxt = {}
        for r in range(world):
            env.prove('no error', res[r][0] == 'ok', res[r])
            got = res[r][1][s]
            if r in t:
                env.prove('the value of the source', env.eq(got, cur[t[r]]), (t, r))
                nxt[r] = cur[t[r]]
            else:
                env.prove('nothing for others', got is None, (t, r, got))
                nxt[r] = vals[r]
        cur = nxt


def h_converge(env):
    """Exactly one present value is the result; none gives none."""
    n = env.choice('n', [1, 2, 3, 4, 7])
    present = env.choice('present', [-1, 0, 1, 2, 3, 6])
    v = env.opaque('v', D) if env.choice('kind', [0, 1]) else env.choice('falsy', [0, False, '', []])
    args = [v if i == present else None for i in range(n)]
    it = Interp(worker(0, 3))
    r = env.run(CONVERGE, it, types.SimpleNamespace(attrs={}, regions=[], outputs=[0], opcode='simp.converge'), *args)
    env.prove('no error', r[0] == 'ok', r)
    env.prove('the present value', r[1] is (v if present < n and present >= 0 else None), r)


def h_cond(env):
    """One branch, the one the agreed predicate says; verification is asked of this party's own predicate."""
    from mplang.backends.tensor_impl import TensorValue
    import numpy as np
    n = env.length('n_out', 1)
    regs = [region(env, n), region(env, n)]
    attrs = env.choice('attrs', [{'verify_uniform': True}, {'verify_uniform': False}, {}])
    verify = attrs.get('verify_uniform', True)
    op = types.SimpleNamespace(opcode='simp.uniform_cond', attrs=dict(attrs), regions=regs, outputs=env.seq('oo', lambda i: i, n=n))
    tensor = env.choice('tensor', [False, True])
    p = env.bool('pred') if not tensor else env.choice('tv', [False, True])
    pred = TensorValue.wrap(np.array(p)) if tensor else p
    args = [env.opaque(f'a{i}', D) for i in range(env.choice('nargs', [0, 1, 3, 6]))]
    w = worker(1, 3)
    ctx = object()
    it = Interp(w, ctx)
    agreed, uniform = env.bool('agreed'), env.choice('uniform', [True, False])
    asked = []

    def verdict(c, wk, mine, *, op=None, participants=None):
        asked.append(1)
        env.prove('asks with its own predicate, context and operation', env.and_(c is ctx, wk is w, op is the_op, env.iff(mine, p)))
        if not uniform:
            raise ValueError('not uniform')
        return agreed
    the_op = op
    if env.sym:
        M.STUBS[CO.verify_uniform_predicate] = verdict
    else:
        for mod in (O, CO):
            if hasattr(mod, 'verify_uniform_predicate'):
                env.patch(mod, 'verify_uniform_predicate', verdict)
    out = env.fn('out', ['int', 'int'], D)

    def on_eval(g, inputs):
        which = [i for i in (0, 1) if g is regs[i]]
        env.prove('a region of the conditional', len(which) == 1)
        env.prove('one branch only', len(it.evals) == 1)
        env.prove('on the operands', len(inputs) == len(args) and all(x is y for x, y in zip(inputs, args)))
        env.prove('the branch the predicate says', env.iff(which[0] == 0, agreed if verify else p))
        return env.seq('res', lambda i: out(which[0], i), n=n)
    it.on_eval = on_eval
    r = env.run(COND, it, op, pred, *args)
    env.prove('verified exactly when asked for', len(asked) == (1 if verify else 0), asked)
    if verify and not uniform:
        env.prove('a disagreement is reported and nothing runs', r[0] == 'exc' and not it.evals, r)
        return
    env.prove('no error', r[0] == 'ok', r)
    which = 0 if it.evals[0][0] is regs[0] else 1
    if bool(env.eq(n, 1)):
        env.prove('result of the branch', env.eq(r[1], out(which, 0)), r)
    else:
        env.prove_seq('results of the branch in order', r[1], n, lambda i: out(which, i))
    env.cover('end')


def h_while(env, unrolled):
    """Iterates exactly while the condition holds: proved by the loop invariant state = S(k), k = number of body evaluations."""
    from mplang.backends.tensor_impl import TensorValue
    import numpy as np
    m = env.choice('state', [1, 2, 3, 6, 9])
    caps = [env.opaque(f'c{i}', D) for i in range(env.choice('caps', [0, 1, 2]))]
    S = env.fn('S', ['int', 'int'], D)
    cf = env.fn('cond', ['int'], 'bool', conc=lambda r, k: r.random() < 0.8)
    cond_g, body_g = region(env, 1), region(env, m)
    op = types.SimpleNamespace(opcode='simp.while_loop', attrs={}, regions=[cond_g, body_g], outputs=list(range(m)))
    it = Interp(worker(0, 2))
    it.k = 0
    tensor = False if env.sym else env.choice('tensor', [False, True])
    fails = -1 if env.sym and not unrolled else env.choice('fails', [-1, -1, 1, 2])
    state = lambda k: [S(i, k) for i in range(m)]
    bound = 3 if env.sym and unrolled else 8

    def on_eval(g, inputs):
        k = it.k
        want = state(k) + caps
        env.prove('current state and captures', env.and_(len(inputs) == len(want), *[env.eq(x, y) for x, y in zip(inputs, want)]), (inputs, want))
        if g is cond_g:
            if (env.sym and unrolled and k >= bound) or (not env.sym and k >= bound):
                return [False if not tensor else TensorValue.wrap(np.array(False))]
            c = cf(k)
            return [TensorValue.wrap(np.array(c)) if tensor else c]
        env.prove('the loop body', g is body_g)
        env.prove('the body runs only while the condition holds', cf(k) if not isinstance(k, int) or k < bound else False)
        if fails == k:
            raise ValueError('body')
        it.k = k + 1
        return state(it.k)
    it.on_eval = on_eval
    if env.sym and not unrolled:
        loops.WHILE_HANDLERS.append((lambda info: True, while_rule(env, it, lambda k: {'state': state(k), 'inputs': state(k) + caps, 'captures': caps, 'op': None}, cf)))
    r = env.run(WHILE, it, op, *state(0), *caps)
    if r[0] == 'exc':
        env.prove('only a failing body fails the loop', isinstance(r[1], ValueError) and str(r[1]) == 'body' and bool(env.eq(it.k, fails)), r)
        return
    k = it.k
    env.prove('stops only when the condition fails', env.not_(cf(k)) if not isinstance(k, int) or k < bound else True)
    if m == 1:
        env.prove('final state', env.eq(r[1], S(0, k)), r)
    else:
        env.prove_seq('final state', r[1], m, lambda i: S(i, k))
    env.cover('end')


def while_rule(env, it, forms, cf):
    """Hoare's rule for the loop: locals holding a form of the state keep holding it; other locals the body assigns are unknown."""
    def match(v, f):
        return isinstance(v, (list, tuple)) and len(v) == len(f) and all(x is y or bool_eq(x, y) for x, y in zip(v, f))

    def bool_eq(x, y):
        return loops.must_eq(x, y)

    def handler(cond, body, get, set_, info):
        e = core.ENG
        entry = get()
        f0 = forms(it.k)
        kept = {}
        for nm, v in entry.items():
            for fk, f in f0.items():
                if f is not None and match(v, f):
                    kept[nm] = fk
                    break
        k = C.fresh_int('k')
        e.assume(k >= 0)
        it.k = k
        fk = forms(k)
        set_({nm: (type(entry[nm])(fk[kept[nm]]) if nm in kept else loops.Poison(nm)) for nm in entry})
        if not cond():
            return None
        r = body()
        if r is not None:
            return r
        now = get()
        f1 = forms(it.k)
        env.prove('one body evaluation per iteration', env.eq(it.k, k + 1))
        for nm, f in kept.items():
            v = now.get(nm)
            env.prove('loop invariant: the state after k body evaluations is carried on', isinstance(v, (list, tuple)) and len(v) == len(f1[f]) and all_eq(env, v, f1[f]), (nm, v))
        raise core.Kill('end of the arbitrary iteration')
    return handler


def all_eq(env, a, b):
    return env.and_(True, *[env.eq(x, y) for x, y in zip(a, b)])


# ------------------------------------------------------------ whole programs on real interpreters
mk = el.Primitive('c13.make')
ap = el.Primitive('c13.apply')
nt = el.Primitive('c13.test')
I64 = T.TensorType(T.i64, ()) if hasattr(T, 'i64') else T.TensorType(T.IntegerType(bitwidth=64, signed=True), ())


@mk.def_abstract_eval
def _(*, tag): return I64


@ap.def_abstract_eval
def _(in_types, *, tag, n): return [I64] * n


@nt.def_abstract_eval
def _(in_types, *, below): return I64


def fapply(rank, tag, i, xs):
    return ('ap', rank, tag, i, tuple(xs))


def h_programs(env):
    """Random multi-party programs traced and run by one thread per party, against a reference that knows everything."""
    world = env.int('world', 1, 4)
    prog, ref, uid = [], [], [0]        # statements; variables: (parties, {rank: value})
    everyone = tuple(range(world))

    def sub(label, pool):
        s = [p for p in pool if env.choice(f'{label}.{p}', [1, 1, 0])]
        return tuple(s or pool[:1])
    evals = []          # expected local computations

    def new(parties, f):
        ref.append((tuple(parties), {p: f(p) for p in parties}))
        return len(ref) - 1
    n = env.int('n', 1, 7)
    new_tags = iter(range(1000))
    uid0 = next(new_tags)
    prog.append(('make', everyone, uid0))
    new(everyone, lambda p: ('mk', p, uid0))
    evals += [(p, uid0) for p in everyone]
    for s in range(n):
        k = env.choice(f's{s}', ['make', 'apply', 'apply', 'shuffle', 'converge', 'cond', 'while'])
        tag = next(new_tags)
        x = env.int(f'x{s}', 0, len(ref) - 1)
        px, vx = ref[x]
        if k == 'make':
            ps = sub(f'p{s}', everyone)
            prog.append(('make', ps, tag))
            new(ps, lambda p: ('mk', p, tag))
            evals += [(p, tag) for p in ps]
        elif k == 'apply':
            y = env.int(f'y{s}', 0, len(ref) - 1)
            both = [p for p in px if p in ref[y][0]]
            if not both:
                continue
            ps = sub(f'p{s}', both)
            no = env.int(f'no{s}', 0, 3)
            prog.append(('apply', ps, tag, x, y, no))
            for i in range(no):
                new(ps, lambda p: fapply(p, tag, i, (vx[p], ref[y][1][p])))
            if no:
                evals += [(p, tag) for p in ps]
        elif k == 'shuffle':
            t = {}
            for p in everyone:
                v = env.int(f't{s}.{p}', 0, len(px))
                if v:
                    t[p] = px[v - 1]
            if not t:
                continue
            if env.choice(f'rev{s}', [0, 1]):
                t = dict(reversed(list(t.items())))
            prog.append(('shuffle', x, t))
            new(sorted(t), lambda p: vx[t[p]])
        elif k == 'converge':
            y = env.int(f'y{s}', 0, len(ref) - 1)
            if set(px) & set(ref[y][0]):
                continue
            prog.append(('converge', x, y))
            new(sorted(px + ref[y][0]), lambda p: vx[p] if p in px else ref[y][1][p])
        elif k == 'cond':
            c, ps = env.choice(f'c{s}', [False, True]), sub(f'p{s}', px)
            prog.append(('cond', c, ps, x, tag))
            new(ps, lambda p: fapply(p, (tag, c), 0, (vx[p], vx[p])))
            evals += [(p, (tag, c)) for p in ps]
        else:
            m, ps = env.int(f'm{s}', 0, 3), px
            prog.append(('while', m, ps, x, tag))
            cur = dict(vx)
            for i in range(m):
                cur = {p: fapply(p, tag, 0, (cur[p], vx[p])) for p in ps}
                evals += [(p, tag) for p in ps]
            new(ps, lambda p: cur[p])

    def apn(xs, tag, n):
        if n == 0:
            return None
        r = ap.bind(*xs, tag=tag, n=n)
        return (r,) if n == 1 else tuple(r)
    ap1 = lambda xs, tag: apn(xs, tag, 1)[0]

    def P(parties, f, *a):
        return simp.pcall_static(parties, f, *a)

    def main():
        vs = []
        for st in prog:
            if st[0] == 'make':
                vs.append(P(st[1], lambda: mk.bind(tag=st[2])))
            elif st[0] == 'apply':
                _, ps, tag, x, y, no = st
                r = P(ps, lambda a, b: apn([a, b], tag, no), vs[x], vs[y])
                vs += list(r or ())
            elif st[0] == 'shuffle':
                vs.append(simp.shuffle_static(vs[st[1]], st[2]))
            elif st[0] == 'converge':
                vs.append(simp.converge(vs[st[1]], vs[st[2]]))
            elif st[0] == 'cond':
                _, c, ps, x, tag = st
                pred = P(everyone, lambda: mk.bind(tag=('pred', c)))
                mkb = lambda b: lambda v: P(ps, lambda a: ap1([a, a], (tag, b)), v)
                vs.append(simp.uniform_cond(pred, mkb(True), mkb(False), vs[x]))
            else:
                _, m, ps, x, tag = st
                cnt = P(everyone, lambda: mk.bind(tag=('count', 0)))
                v0 = vs[x]
                out = simp.while_loop(lambda s: P(everyone, lambda c: nt.bind(c, below=m), s[0]),
                                      lambda s: (P(everyone, lambda c: ap1([c], 'inc'), s[0]), P(ps, lambda a, b: ap1([a, b], tag), s[1], v0)),
                                      (cnt, v0))
                vs.append(out[1])
        return vs
    traced = el.trace(main)
    mesh = LocalMesh(world)
    ran, lock, out = [], threading.Lock(), {}

    def note(r, tag):
        with lock:
            ran.append((r, tag))

    def go(r):
        def h_mk(it, op, *a):
            tag = op.attrs['tag']
            if isinstance(tag, tuple) and tag[0] in ('pred', 'count'):
                return tag[1]
            note(r, tag)
            return ('mk', r, tag)

        def h_ap(it, op, *xs):
            tag, n = op.attrs['tag'], op.attrs['n']
            if tag == 'inc':
                return xs[0] + 1
            note(r, tag)
            res = [fapply(r, tag, i, xs) for i in range(n)]
            return res[0] if n == 1 else res
        try:
            w = SimpWorker(r, world, mesh.comms[r], ObjectStore(), {})
            it = Interpreter(name=f'w{r}', handlers={**HANDLER, 'c13.make': h_mk, 'c13.apply': h_ap, 'c13.test': lambda it, op, x: x < op.attrs['below']}, comm_ctx=CommContext(mesh.comms[r], 'j', r))
            it.set_dialect_state('simp', w)
            out[r] = (it.evaluate_graph(traced.graph, [], 'j'), w.current_parties)
        except BaseException as ex:     # noqa: BLE001
            out[r] = ex
    ts = [threading.Thread(target=go, args=(r,), daemon=True) for r in range(world)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(10)
    alive = any(t.is_alive() for t in ts)
    mesh.shutdown()
    env.prove('no deadlock', not alive, (prog, out))
    for r in range(world):
        env.prove('no failure', isinstance(out[r], tuple), (prog, out[r]))
        res, cur = out[r]
        env.prove('current parties restored', cur is None)
        env.prove('as many results as the program has', len(res) == len(ref), (res, ref))
        for i, (ps, vals) in enumerate(ref):
            env.prove('value of this party', res[i] == vals.get(r), (prog, i, r, res[i], vals.get(r)))
    env.prove('each party ran its own local computations and no others', sorted(map(repr, ran)) == sorted(map(repr, evals)), (prog, ran, evals))


def harnesses():
    return [H('pcall', lambda env: h_pcall(env, True), functions=['_pcall_static_worker_impl'], budget=120, conc=400, conc_s=3, what=h_pcall.__doc__),
            H('pcall-dynamic', lambda env: h_pcall(env, False), functions=['_pcall_dynamic_worker_impl'], conc=200, conc_s=2),
            H('shuffle', h_shuffle, functions=['_shuffle_static_worker_impl'], budget=200, branch_ms=300, conc=600, conc_s=4, what=h_shuffle.__doc__),
            H('shuffle-run', h_shuffle_run, unbounded=False, bound=3, functions=['_shuffle_static_worker_impl'], budget=200, conc=400, conc_s=5, what=h_shuffle_run.__doc__),
            H('converge', h_converge, unbounded=False, bound=7, functions=['_converge_worker_impl'], conc=200, conc_s=2),
            H('cond', h_cond, functions=['_uniform_cond_worker_impl'], conc=300, conc_s=3, what=h_cond.__doc__),
            H('while', lambda env: h_while(env, False), functions=['_while_loop_worker_impl'], conc=0, what=h_while.__doc__),
            H('while-unrolled', lambda env: h_while(env, True), unbounded=False, bound=3, functions=['_while_loop_worker_impl'], conc=500, conc_s=3),
            H('programs', h_programs, sym=False, conc=2500, conc_s=15, functions=['WORKER_HANDLERS'], what=h_programs.__doc__)]
