"""C12  Request handles report completion truthfully and in order."""
import concurrent.futures as cf
import threading
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M
from pyvc.core import Sort

INSTRUMENT = ['mplang.backends.simp_worker.base']
ASSUMPTIONS = ['a future is pending until it finishes, fails or is cancelled, and then stays as it is; it may do so at any moment (each interaction of the handle with it is a point where it may)',
               'concurrent.futures.wait returns the finished and unfinished futures, at least one / all finished unless the timeout passed',
               'operations fail with Exceptions',
               'a cancelled request has no result and no failure of its own: batch functions report None for it, waiting for it raises CancelledError']

import vp_without_spu  # noqa
from mplang.backends.simp_worker import base as B

D = Sort('Result')
PENDING, OK, FAIL, CANC = 0, 1, 2, 3
STATUS = {PENDING: B.RequestStatus.PENDING, OK: B.RequestStatus.COMPLETED, FAIL: B.RequestStatus.ERROR, CANC: B.RequestStatus.CANCELLED}


class Fut(cf.Future):
    """A future as the handles see it: a fate, and a moment that comes at any interaction."""

    def __init__(self, env, nm, log=None):
        super().__init__()
        self.env, self.nm, self.log = env, nm, log
        self.fate = env.choice(f'{nm}.fate', [OK, FAIL, CANC])
        self.over = env.choice(f'{nm}.over', [True, False])
        self.value = env.opaque(f'{nm}.value', D)
        self.err = env.choice(f'{nm}.err', [ValueError, TimeoutError])('own ' + nm)
        self.n = 0

    def tick(self):
        if not self.over:
            self.n += 1
            if self.fate != CANC and self.env.choice(f'{self.nm}.t{self.n}', [False, True]):
                self.over = True

    def finish(self):
        self.over = True

    def state(self):
        return self.fate if self.over else PENDING

    def done(self):
        self.tick()
        return self.over

    def cancelled(self):
        self.tick()
        return self.over and self.fate == CANC

    def running(self):
        self.tick()
        return not self.over

    def cancel(self):
        self.tick()
        if self.over:
            return self.fate == CANC
        if self.env.choice(f'{self.nm}.cancellable', [False, True]):
            self.over, self.fate = True, CANC
            return True
        return False

    def get(self, timeout):
        self.tick()
        if not self.over:
            if timeout is None or self.env.choice(f'{self.nm}.intime', [False, True]):
                self.over = True
            else:
                if self.env.choice(f'{self.nm}.late', [False, True]):
                    ex = cf.TimeoutError()
                    self.over = True
                    raise ex
                raise cf.TimeoutError()
        if self.fate == CANC:
            raise cf.CancelledError()

    def result(self, timeout=None):
        self.get(timeout)
        if self.fate == FAIL:
            raise self.err
        return self.value

    def exception(self, timeout=None):
        self.get(timeout)
        return self.err if self.fate == FAIL else None

    def __hash__(self):
        return hash(self.nm)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return self.nm


def handle(env, nm='f'):
    """any request any history may have left behind: pending, or settled in accordance with its future"""
    f = Fut(env, nm)
    r = B.Request(f, 'op') if env.choice(f'{nm}.kind', [0, 1]) == 0 else B.SendRequest(f, 1, 'k')
    if f.over and env.choice(f'{nm}.seen', [False, True]):
        r.status
    return f, r


def truthful(env, f, r):
    env.prove('status tells whether and how the operation ended', r.status == STATUS[f.state()], (r.status, f.state()))
    env.prove('done is told accordingly', r.done == (f.state() != PENDING) or f.over)


def outcome(env, f, res, pend=None):
    """result or own failure of the operation"""
    st = f.state()
    if st == OK:
        env.prove('the operation\'s own result', res[0] == 'ok' and env.eq(res[1], f.value), res)
    elif st == FAIL:
        env.prove('the operation\'s own failure', res[0] == 'exc' and res[1] is f.err, res)
    elif st == CANC:
        env.prove('cancellation is reported', res[0] == 'exc' and isinstance(res[1], cf.CancelledError), res)
    else:
        env.prove('not finished', pend(res), res)


def h_status(env):
    """status and done agree with the future at any moment."""
    f, r = handle(env)
    before = f.state()
    s = r.status
    env.prove('status is the one it has, or had when asked', s == STATUS[f.state()] or (s == STATUS[before]), (s, f.state()))
    d = r.done
    env.prove('settled once and for all', (s == STATUS[PENDING]) or r.status == s)
    env.prove('done only when ended', not d or f.over)
    if f.over:
        truthful(env, f, r)
        repr(r)


def h_wait(env):
    """wait gives the operation's own result or failure, as often as asked; it times out only while the operation is unfinished."""
    f, r = handle(env)
    t = env.choice('timeout', [None, 0, 5])
    was = f.over
    res = env.run(r.wait, t) if env.choice('kw', [0, 1]) else env.run(lambda: r.wait(timeout=t))
    if res[0] == 'exc' and isinstance(res[1], TimeoutError) and res[1] is not f.err:
        env.prove('times out only when given a timeout, and only before the operation has ended', t is not None and not was, res)
    else:
        outcome(env, f, res, lambda x: False)
        truthful(env, f, r)
    again(env, f, r)


def again(env, f, r):
    """asked again, in any way, it says the same"""
    for i in range(2):
        how = env.choice(f'again{i}', ['wait', 'test', 'wait_all', 'testany'])
        if how == 'wait':
            outcome(env, f, env.run(r.wait, None))
        else:
            f.tick()
            if not f.over and how != 'wait_all':
                continue
            if how == 'wait_all':
                f.finish()
                env.patch(cf, 'wait', wait_model(env, []))
            r2 = env.run(r.test) if how == 'test' else env.run(B.wait_all, [r]) if how == 'wait_all' else env.run(B.testany, [r])
            if f.state() == CANC:
                env.prove('cancelled', r2[0] == 'exc' or (r2[1][-1] is None), r2)
            else:
                outcome(env, f, (r2[0], r2[1][-1]) if r2[0] == 'ok' else r2)
        truthful(env, f, r)


def h_test(env):
    """test tells whether the operation has ended, its result, or its failure."""
    f, r = handle(env)
    res = env.run(r.test)
    if res[0] == 'ok' and res[1][0] is False:
        env.prove('no result yet', res[1][1] is None)
        res = env.run(r.test)
        if res[0] == 'ok' and res[1][0] is False:
            return
    if f.state() == CANC:
        env.prove('cancelled', res[0] == 'exc' or tuple(res[1]) == (True, None), res)
    else:
        outcome(env, f, (res[0], res[1][1]) if res[0] == 'ok' else res)
        env.prove('ended', res[0] == 'exc' or res[1][0] is True, res)
    truthful(env, f, r)
    again(env, f, r)


def h_cancel(env):
    """cancel says whether the operation is cancelled, and changes nothing about an operation that has ended."""
    f, r = handle(env)
    was = f.state()
    res = env.run(r.cancel)
    env.prove('no error', res[0] == 'ok', res)
    env.prove('true exactly when cancelled', res[1] is (f.over and f.fate == CANC), (res, f.state()))
    env.prove('an ended operation stays as it is', was == PENDING or f.state() == was)
    if f.over:
        truthful(env, f, r)
        outcome(env, f, env.run(r.wait))


def wait_model(env, seen):
    def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
        fs = set(fs)
        seen.append((frozenset(fs), timeout, return_when))
        order = sorted(fs, key=lambda f: f.nm)
        for f in order:
            f.tick()
        enough = lambda: all(f.over for f in order) if return_when == cf.ALL_COMPLETED else any(f.over for f in order) if return_when == cf.FIRST_COMPLETED else all(f.over for f in order) or any(f.over and f.fate == FAIL for f in order)
        if not enough() and (timeout is None or env.choice('in time', [True, False])):
            if return_when == cf.ALL_COMPLETED:
                for f in order:
                    f.finish()
            else:
                todo = [f for f in order if not f.over]
                todo[env.choice('first', list(range(len(todo))))].finish()
                if not enough():
                    for f in order:
                        f.finish()
        return {f for f in order if f.over}, {f for f in order if not f.over}
    return wait


def batch(env, hi):
    n = env.length('n', 0, hi)
    fr = [handle(env, f'f{i}') for i in range(n)]
    if n >= 2 and env.choice('repeat', [False, True]):
        fr[-1] = fr[0]
    fs, rs = [x[0] for x in fr], [x[1] for x in fr]
    return n, fs, (tuple(rs) if env.choice('tup', [False, True]) else rs)


def res_of(env, f, v):
    return (f.state() == CANC and v is None) or (f.state() == OK and env.eq(v, f.value))


def h_batch(env, which, hi):
    """Several requests, in any mix of states, finishing at any moment."""
    n, fs, rs = batch(env, hi)
    seen = []
    env.patch(cf, 'wait', wait_model(env, seen))
    t = env.choice('timeout', [None, 3])
    fn = getattr(B, which)
    args = (rs,) if which.startswith('test') else (rs, t)
    before = [f.state() for f in fs]
    res = env.run(fn, *args)
    own = [f for f in fs if f.over and f.fate == FAIL and res[0] == 'exc' and res[1] is f.err]
    if res[0] == 'exc' and own:
        if which.endswith('any'):
            # no request in front of the failed one had already ended when the call was made
            i = fs.index(own[0])
            env.prove('fails with the failure of a request that ended', before[i] == FAIL or which == 'wait_any' or fs[i].over)
        return
    if n == 0:
        want = {'wait_all': ('ok', []), 'testall': ('ok', (True, [])), 'testany': ('ok', (None, None))}.get(which)
        env.prove('nothing to wait for', (res[0] == 'ok' and res[1] == want[1]) if want else res[0] == 'exc' and isinstance(res[1], ValueError), res)
        return
    if res[0] == 'exc':
        env.prove('otherwise fails only by running out of time', which.startswith('wait') and t is not None and isinstance(res[1], TimeoutError), res)
        env.prove('... before ' + ('all' if which == 'wait_all' else 'any') + ' had ended', not all(b != PENDING for b in before) if which == 'wait_all' else all(b == PENDING for b in before))
        return
    if which in ('wait_all', 'testall'):
        if which == 'testall':
            if res[1][0] is False:
                env.prove('no results before all have ended', res[1][1] is None and not all(b != PENDING for b in before), res)
                return
            env.prove('all ended', res[1][0] is True, res)
        got = res[1] if which == 'wait_all' else res[1][1]
        env.prove('all have ended', all(f.over for f in fs))
        env.prove('none failed', all(f.fate != FAIL for f in fs), res)
        env.prove('one result per request', len(got) == n, res)
        for f, v in zip(fs, got):
            env.prove('results in the order of the requests', res_of(env, f, v), (got, fs))
        return
    i, v = res[1]
    if i is None:
        env.prove('none had ended', which == 'testany' and v is None and all(b == PENDING for b in before), res)
        return
    env.prove('index of a request that has ended', 0 <= i < n and fs[i].over, res)
    env.prove('its result', res_of(env, fs[i], v), res)


# ---- any number of requests: the batch functions against the contract of Request._finalize
FUT = Sort('Fut')
REQ = Sort('Req')


class Err(Exception):
    def __init__(self, f):
        self.f = f


def h_many(env, which):
    """Any number of requests (each in any state): result order and truthfulness, by loop invariants."""
    e = core.ENG
    done, fate = (z3.Function(x, FUT.z, s) for x, s in (('done', z3.BoolSort()), ('fate', z3.IntSort())))
    value = z3.Function('value', FUT.z, D.z)
    q = z3.Const('fq', FUT.z)
    e.assume(z3.ForAll([q], z3.And(fate(q) >= OK, fate(q) <= CANC), patterns=[fate(q)]))
    n = env.length('n', 0)
    fut = env.fn('fut', ['int'], FUT)
    isdone = lambda f: core.mkbool(done(core.unwrap(f, FUT)))
    isfate = lambda f, w: core.mkbool(fate(core.unwrap(f, FUT)) == w)
    FUT.methods['done'] = lambda f: isdone(f)
    fin = C.Heap(lambda r: core.mkbool(z3.BoolVal(False)), 'bool')     # finalized during the call
    of = z3.Function('of', REQ.z, FUT.z)
    fu = lambda r: core.wrap(of(core.unwrap(r, REQ)), FUT)
    settled = z3.Function('settled', REQ.z, z3.BoolSort())
    rq = z3.Const('rq', REQ.z)
    e.assume(z3.ForAll([rq], z3.Implies(settled(rq), done(of(rq))), patterns=[settled(rq)]))
    isset = lambda r: env.or_(core.mkbool(settled(core.unwrap(r, REQ))), fin.get(r))
    sv = z3.StringVal

    def finalize(r):
        env.prove('only requests that have ended are finalized', isdone(fu(r)))
        fin.set(r, True)

    def status(r):
        f = fate(of(core.unwrap(r, REQ)))
        return core.wrap(z3.If(core.bterm(isset(r)), z3.If(f == OK, sv(STATUS[OK]), z3.If(f == FAIL, sv(STATUS[FAIL]), sv(STATUS[CANC]))), sv(STATUS[PENDING])), 'str')

    def result(r):
        env.prove('a result is looked at only when there is one', isset(r))
        return val(fu(r))
    val = lambda f: core.wrap(value(core.unwrap(f, FUT)), D)      # of a cancelled operation: none
    REQ.attrs.update(_future=fu, _status=status, _result=result, _error=lambda r: Err(fu(r)))
    REQ.methods.update(_finalize=finalize)
    req = env.fn('req', ['int'], REQ)
    rs = env.seq('rs', lambda i: req(i), n=n)
    fut = lambda i: fu(req(i))
    all_done = env.forall(n, lambda i: isdone(fut(i)))
    any_done = env.exists(n, lambda i: isdone(fut(i)))
    t = env.choice('timeout', [None, 3])
    args = (rs,) if which.startswith('test') else (rs, t)
    waits = []

    def wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
        waits.append(1)
        env.prove_seq('waits for these operations', fs, n, fut)
        env.prove('for as long as asked', timeout is t or timeout == t)
        if timeout is None:
            if return_when == cf.ALL_COMPLETED:
                env.assume(all_done)
            elif return_when == cf.FIRST_COMPLETED:
                env.assume(any_done)
            else:
                raise core.Unsupported('other wait')
        mk = lambda p, some: pred_set(p, some)

        def pred_set(p, some):
            c = C.fresh_int('card')
            env.assume(env.and_(c >= 0, env.iff(c > 0, some)))
            s = C.VSet()
            s._sym = C.SetBase(lambda x: env.and_(p(x), env.exists(n, lambda i: env.eq(fut(i), x))), c)
            return s
        return pred_set(isdone, any_done), pred_set(lambda x: env.not_(isdone(x)), env.not_(all_done))
    M.STUBS[cf.wait] = wait
    res = env.run(getattr(B, which), *args)
    member = lambda f: env.exists(n, lambda i: env.eq(fut(i), f))
    if res[0] == 'exc' and isinstance(res[1], Err):
        env.prove('a failure is the own failure of one of the requests', env.and_(isfate(res[1].f, FAIL), isdone(res[1].f), member(res[1].f)))
        if which == 'testall':
            env.prove('fails only when all have ended', all_done)
        return
    if res[0] == 'exc' and isinstance(res[1], ValueError):
        env.prove('refuses only the empty list', env.and_(which == 'wait_any', env.eq(n, 0)), res)
        return
    if res[0] == 'exc':
        env.prove('otherwise fails only by running out of time', which.startswith('wait') and t is not None and isinstance(res[1], TimeoutError), res)
        env.prove('time ran out before enough had ended', env.not_(all_done if which == 'wait_all' else any_done))
        return
    if which in ('wait_all', 'testall'):
        if which == 'testall':
            flag, got = res[1]
            env.prove('tells whether all have ended', env.iff(flag, all_done))
            if not flag:
                env.prove('no results before that', got is None)
                return
        else:
            got = res[1]
        env.prove('all have ended', all_done)
        env.prove('none failed', env.forall(n, lambda i: env.not_(isfate(fut(i), FAIL))))
        env.prove_seq('results in the order of the requests', got, n, lambda i: val(fut(i)))
        return
    i, v = res[1]
    if i is None:
        env.prove('none has ended', env.and_(which == 'testany', env.not_(any_done), v is None))
        return
    env.prove('index of a request that has ended', env.and_(i >= 0, i < n, isdone(fut(i)), env.not_(isfate(fut(i), FAIL))))
    env.prove('its result', env.eq(v, val(fut(i))))
    env.cover('end')


def h_threads(env):
    """Real futures of a real pool, finishing in random order."""
    n = env.int('n', 1, 6)
    ev = [threading.Event() for _ in range(n)]
    fate = [env.choice(f'fate{i}', ['ok', 'ok', 'fail', 'timeout']) for i in range(n)]
    order = env.choice('order', [0, 1, 2])
    which = env.choice('which', ['wait_all', 'wait_any', 'testall', 'testany', 'each'])

    def op(i):
        ev[i].wait(5)
        if fate[i] == 'fail':
            raise ValueError(i)
        if fate[i] == 'timeout':
            raise TimeoutError(f'own {i}')
        return ('r', i)
    with cf.ThreadPoolExecutor(n) as ex:
        rs = [B.SendRequest(ex.submit(op, i), i, 'k') for i in range(n)]
        env.prove('not done before', not any(r.done for r in rs))
        env.prove('tests say so', B.testall(rs) == (False, None) and B.testany(rs) == (None, None))
        try:
            B.wait_any(rs, timeout=0.001) if which == 'wait_any' else B.wait_all(rs, timeout=0.001) if which == 'wait_all' else rs[0].wait(0.001)
            env.fail('waiting runs out of time')
        except TimeoutError as x:
            env.prove('not its own', 'own' not in str(x))
        idx = list(range(n))
        env.rng.shuffle(idx) if env.rng else None
        if which == 'wait_any':
            ev[idx[0]].set()
            try:
                got = ('ok', B.wait_any(rs, timeout=5))
            except Exception as x:      # noqa: BLE001
                got = ('exc', type(x), x.args)
            i = idx[0]
            env.prove('the one that ended', got == ('ok', (i, ('r', i))) if fate[i] == 'ok' else got[0] == 'exc' and got[2] == ((i,) if fate[i] == 'fail' else (f'own {i}',)), got)
        for i in idx:
            ev[i].set()
        bad = [i for i in range(n) if fate[i] != 'ok']
        if which in ('wait_all', 'testall'):
            try:
                if which == 'testall':
                    cf.wait([r._future for r in rs])
                    got = ('ok', B.testall(rs)[1])
                else:
                    got = ('ok', B.wait_all(rs, timeout=5))
            except Exception as x:      # noqa: BLE001
                got = ('exc', x)
            env.prove('all results in order, or a failure', got == ('ok', [('r', i) for i in range(n)]) if not bad else got[0] == 'exc', got)
        for _ in range(2):
            for i, r in enumerate(rs):
                try:
                    got = ('ok', r.wait(5))
                except Exception as x:      # noqa: BLE001
                    got = ('exc', x.args)
                env.prove('own outcome', got == {'ok': ('ok', ('r', i)), 'fail': ('exc', (i,)), 'timeout': ('exc', (f'own {i}',))}[fate[i]], (got, fate[i]))
                env.prove('done', r.done and r.status == ('completed' if fate[i] == 'ok' else 'error'), r.status)
    env.unused = order


def harnesses():
    F = ['Request.status', 'Request.done', 'Request._finalize']
    hs = [H('status', h_status, functions=F, conc=400, conc_s=2), H('wait', h_wait, functions=['Request.wait'], conc=600, conc_s=2, max_paths=40000, budget=100),
          H('test', h_test, functions=['Request.test'], conc=400, conc_s=2), H('cancel', h_cancel, functions=['Request.cancel'], conc=400, conc_s=2)]
    for w in ('wait_all', 'wait_any', 'testall', 'testany'):
        hs.append(H('bounded-' + w, (lambda env, w=w: h_batch(env, w, 2 if env.sym else 6)), unbounded=False, bound=2, functions=[w], conc=1500, conc_s=3, max_paths=100000, budget=200))
    for w in ('wait_all', 'wait_any', 'testall', 'testany'):
        hs.append(H(w, (lambda env, w=w: h_many(env, w)), conc=0, functions=[w], budget=100, branch_ms=300, what=h_many.__doc__))
    hs.append(H('threads', h_threads, sym=False, conc=300, conc_s=8, functions=['wait_all', 'wait_any', 'testall', 'testany', 'Request']))
    return hs
