"""C11  Every message is delivered once, to its addressee, unaltered."""
import base64
import concurrent.futures as cf
import socket
import sys
import threading
import time
import types
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M, loops
from pyvc.core import Sort

INSTRUMENT = ['mplang.backends.simp_worker.base', 'mplang.backends.simp_worker.mem', 'mplang.backends.simp_worker.http']
ASSUMPTIONS = ['threading.Condition: code between acquiring and releasing it runs alone, wait releases it and takes it again',
               'an HTTP PUT reaches the handler of its path with the body and headers it was sent with, or fails; percent-encoding a key and decoding it again gives the key',
               'serialising and deserialising gives back the value (proved in C03)',
               'raw messages are bytes; ranks are integers; a receiver is asked for a key by one thread at a time']
TRUSTED = ['httpx, FastAPI/starlette and uvicorn carry requests faithfully (also run for real on the loopback interface)']

import vp_without_spu  # noqa
# the routes import the request module, which needs the missing spu package; message delivery does not use it
if 'mplang.backends.simp_worker.request' not in sys.modules:
    _m = types.ModuleType('mplang.backends.simp_worker.request')
    _m.create_request_interpreter = None
    sys.modules[_m.__name__] = _m
from fastapi import FastAPI
from urllib.parse import quote
import urllib.parse
from mplang.backends.simp_worker import mem as ME
from mplang.backends.simp_worker import http as HT
from mplang.edsl import serde

D = Sort('Data')


class Cond:
    """The lock of a mailbox as its users see it: what others did meanwhile is arbitrary whenever it is acquired."""

    def __init__(self, env, box):
        self.env, self.box, self.held, self.epoch = env, box, False, 0
        self.notified = self.forever = False
        self.writes = None

    def havoc(self):
        self.epoch += 1
        n = self.epoch
        hf = z3.Function(f'has{n}', z3.IntSort(), z3.StringSort(), z3.BoolSort())
        vf = z3.Function(f'val{n}', z3.IntSort(), z3.StringSort(), D.z)

        def kt(k):
            if not (isinstance(k, tuple) and len(k) == 2):
                raise core.Unsupported('mailbox key')
            return core.unwrap(k[0]), core.unwrap(k[1])
        self.base = C.SymBase(lambda k: core.mkbool(hf(*kt(k))), lambda k: core.wrap(vf(*kt(k)), D))
        core.ENG.touch(self.box)
        self.box._vf_restore((False, self.base, []))

    def unchanged(self, label, *keys):
        """every slot but those of keys is as it was when the lock was acquired"""
        env = self.env
        f, k = env.int('any_frm'), env.str('any_key')
        other = env.and_(True, *[env.not_(env.and_(env.eq(f, a), env.eq(k, b))) for a, b in keys])
        if not bool(other):
            return
        h = bool(self.base.has((f, k)))
        env.prove(label + ': same slots occupied', h == ((f, k) in self.box))
        if h:
            env.prove(label + ': same contents', env.eq(self.box[(f, k)], self.base.val((f, k))))

    def aside(self, fn):
        if core.ENG.choose(2) == 0:
            fn()
            raise core.Kill('checked')

    def __enter__(self):
        self.env.prove('lock is free', not self.held)
        self.held = True
        self.havoc()
        return self

    def __exit__(self, *a):
        self.held = False
        self.last = self.box._vf_save()
        return False

    acquire = __enter__

    def release(self):
        self.__exit__()

    def wait(self, timeout=None):
        self.env.prove('waits with the lock held', self.held)
        self.aside(lambda: self.unchanged('waiting changes nothing'))
        if timeout is None:
            self.forever = True
        self.havoc()
        return True if timeout is None else bool(self.env.choice('woken', [True, False]))

    def wait_for(self, predicate, timeout=None):
        self.env.prove('waits with the lock held', self.held)
        self.havoc()
        if timeout is None:
            self.forever = True
            r = predicate()
            self.env.assume(bool(r))
            return r
        return predicate()

    def notify_all(self):
        self.env.prove('notifies with the lock held', self.held)
        self.notified = self.box._vf_save()

    notifyAll = notify_all

    def notify(self, n=1):
        pass


def loop_rule(before):
    """every iteration starts in an arbitrary state of the mailbox (others act while waiting) and of the clock"""
    def handler(cond, body, get, set_, info):
        entry = get()
        before()
        set_({nm: loops.Poison(nm) for nm in entry})
        if not cond():
            return None
        r = body()
        if r is not None:
            return r
        raise core.Kill('end of the arbitrary iteration')
    loops.WHILE_HANDLERS.append((lambda info: True, handler))


def mk(env, kind):
    rank, world = env.int('rank', 0), env.int('world', 1)
    env.assume(rank < world)
    if kind == 'mem':
        c = ME.ThreadCommunicator(rank, world, use_serde=env.choice('serde', [False, True]))
    else:
        env.patch(HT.httpx, 'Client', FakeClient)
        env.patch(HT.concurrent.futures, 'ThreadPoolExecutor', lambda *a, **k: FakePool())
        cfg = HT.CommConfig(use_binary=env.choice('binary', [True, False]))
        c = HT.HttpCommunicator(rank, world, env.seq('endpoints', lambda i: core.wrap(z3.Function('endpoint', z3.IntSort(), z3.StringSort())(core.iterm(i)), 'str'), n=world), config=cfg)
    if not hasattr(c, '_mailbox') or not hasattr(c, '_cond'):
        raise core.Unsupported('mailbox representation')
    box = C.VDict()
    c._mailbox = box
    cond = Cond(env, box)
    c._cond = cond
    return c, cond


class FakeClient:
    def __init__(self, *a, **k):
        pass


class FakePool:
    def submit(self, fn, *a, **k):
        f = cf.Future()
        try:
            f.set_result(fn(*a, **k))
        except Exception as e:      # noqa: BLE001
            f.set_exception(e)
        return f


def recvd(kind):
    return 'on_receive' if kind == 'http' else '_on_receive'


def h_deliver(env, kind):
    """Delivery fills exactly the slot of (sender, key), wakes the waiters, and refuses an occupied slot without touching it."""
    c, cond = mk(env, kind)
    frm, key, data = env.int('frm'), env.str('key'), env.opaque('data', D)
    r = env.run(getattr(c, recvd(kind)), frm, key, data)
    env.prove('uses the lock once', cond.epoch == 1 and not cond.held)
    occupied = bool(cond.base.has((frm, key)))
    env.prove('refused exactly when the slot is occupied', (r[0] == 'exc') == occupied, r)
    env.prove('nothing is done after releasing the lock', same_state(env, c._mailbox._vf_save(), cond.last))
    if occupied:
        env.prove('reported as an error', isinstance(r[1], RuntimeError), r)
        cond.unchanged('refusal changes nothing')
        return
    env.prove('in its slot', (frm, key) in c._mailbox and bool(env.eq(c._mailbox[(frm, key)], data)))
    cond.unchanged('no other slot', (frm, key))
    # waiters that wait without a timeout are woken after the message is there
    if kind == 'mem':
        env.prove('waiters are woken once it is there', cond.notified is not False and same_state(env, cond.notified, cond.last))
    env.cover('end')


def same_state(env, a, b):
    return a[1] is b[1] and len(a[2]) == len(b[2]) and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(a[2], b[2]))


def h_recv(env, kind):
    """Receiving waits for the slot of (sender, key), hands out its content once, and touches no other slot."""
    c, cond = mk(env, kind)
    frm, key = env.int('frm'), env.str('key')
    t = env.int('timeout', 0) if env.choice('timed', [0, 1]) else None
    if kind == 'http':
        no_stats()
        c.config.default_recv_timeout = env.int('default', 0) if env.choice('dt', [0, 1]) else None
    clock = [env.int('t0', 0)]

    def tick():
        n = C.fresh_int('now')
        env.assume(n >= clock[0])
        clock[0] = n
        return n
    M.STUBS[time.monotonic] = tick
    shut = False
    if kind == 'mem':
        shut = env.choice('shutdown', [False, True])

    def before():
        cond.havoc()
        tick()
        if shut:
            c._shutdown = True
    loop_rule(before)
    r = env.run(c.recv, frm, key, timeout=t)
    env.prove('lock is released', not cond.held)
    env.prove('nothing is done after releasing the lock', same_state(env, c._mailbox._vf_save(), cond.last))
    if r[0] == 'exc':
        if isinstance(r[1], TimeoutError):
            eff = t if t is not None else getattr(getattr(c, 'config', None), 'default_recv_timeout', None)
            env.prove('times out only when asked to', eff is not None)
            env.prove('times out only when the time is over and the message is not there', env.and_(clock[0] - env.inputs['t0'] >= eff, env.not_(cond.base.has((frm, key)))))
        else:
            env.prove('otherwise fails only when shut down', shut and isinstance(r[1], RuntimeError), r)
        cond.unchanged('failing to receive changes nothing')
        return
    env.prove('the message was there', cond.base.has((frm, key)))
    env.prove('the message as it was delivered', env.eq(r[1], cond.base.val((frm, key))), r)
    env.prove('handed out once', (frm, key) not in c._mailbox)
    cond.unchanged('no other slot', (frm, key))
    env.cover('end')


def h_mem_send(env):
    """In memory: the message reaches the mailbox of the addressee, under the sender's rank and the key, once."""
    log = []
    PEER = Sort('Peer')
    full = env.choice('full', [False, True])

    def take(p, frm, key, data):
        log.append((p, frm, key, data))
        if full:
            raise RuntimeError('occupied')
    PEER.methods['_on_receive'] = take
    rank, world, to = env.int('rank', 0), env.int('world', 1), env.int('to')
    env.assume(rank < world)
    use = env.choice('serde', [False, True])
    raw = env.choice('raw', [False, True])
    c = ME.ThreadCommunicator(rank, world, use_serde=use)
    peer = env.fn('peer', ['int'], PEER)
    c.set_peers(env.seq('peers', lambda i: peer(i), n=world))
    data, key = env.opaque('data', D), env.str('key')
    ENC = Sort('Enc')
    enc = env.fn('enc', [D], ENC)
    codec(env, {'dumps': lambda d: enc(d)}, {'loads': ENC}, data, enc)
    sync = env.choice('sync', [False, True])
    r = env.run(c.send_sync if sync else c.send, to, key, data, is_raw_bytes=raw)
    inside = env.and_(to >= 0, to < world)
    if not bool(inside):
        env.prove('no such rank: refused', r[0] == 'exc' and not log, r)
        return
    env.prove('one delivery', len(log) == 1)
    p, f, k, d = log[0]
    env.prove('to the addressee', env.eq(p, peer(to)))
    env.prove('under the sender\'s rank and the key', env.and_(env.eq(f, rank), env.eq(k, key)))
    env.prove('unaltered', env.eq(d, data), (d,))
    env.prove('a refusal is reported', (r[0] == 'exc') == full, r)
    if not full and not sync:
        env.prove('handle of a finished request', r[1].done and r[1].wait() is None)
    env.cover('end')


def codec(env, dumps, loads, data, enc):
    """serialisation contract: loads(dumps(d)) == d"""
    for nm, f in dumps.items():
        M.STUBS[getattr(serde, nm)] = f

    def back(nm):
        def g(x):
            if not bool(env.eq(x, enc(data))):
                raise core.Unsupported('decoding something else')
            return data
        return g
    for nm in loads:
        M.STUBS[getattr(serde, nm)] = back(nm)


def no_stats():
    # the statistics are not part of the property; their arithmetic is on floats
    for nm in ('record_send', 'record_recv', 'record_send_error', 'record_recv_timeout'):
        M.STUBS[getattr(HT.CommStats, nm)] = lambda *a, **k: None


def unsup(why):
    raise core.Unsupported(why)


class Resp:
    def raise_for_status(self):
        pass
    status_code = 200


class Req:
    def __init__(self, headers, content=None, js=None):
        self.headers, self._c, self._j = Hdr({k.lower(): v for k, v in headers.items()}), content, js

    async def body(self):
        return self._c

    async def json(self):
        return self._j


class Hdr(dict):
    def get(self, k, d=None):
        return dict.get(self, k.lower(), d)

    def __getitem__(self, k):
        return dict.__getitem__(self, k.lower())

    def __contains__(self, k):
        return dict.__contains__(self, k.lower())


def drive(coro):
    try:
        coro.send(None)
    except StopIteration as s:
        return s.value
    raise core.Unsupported('the handler waits for something else')


def comm_route(app):
    for r in app.routes:
        if getattr(r, 'path', '').startswith('/comm/') and 'PUT' in (getattr(r, 'methods', None) or ()):
            return r.endpoint
    raise core.Unsupported('no route for messages')


def request_model(cls):
    # contract of pydantic's model construction: declared fields only, defaults filled in, anything of another type refused
    fields = {k: (f.annotation, f.is_required(), f.default) for k, f in cls.model_fields.items()}
    kinds = {str: (str, core.SStr), int: (int, core.SInt), bool: (bool, core.SBool)}

    class Model:
        _vf_ok = True

        def __init__(self, **kw):
            for k, (t, req, d) in fields.items():
                if k not in kw and req:
                    raise TypeError(f'field {k} is missing')
                v = kw.get(k, d)
                if t not in kinds:
                    raise core.Unsupported(f'field {k} of another type')
                if not isinstance(v, kinds[t]):
                    raise TypeError(f'field {k} is not of its type')
                setattr(self, k, v)
    return Model


def h_wire(env):
    """HTTP: what one end sends is what the other end puts into its mailbox, for raw, binary and text messages."""
    posted, got = [], []
    no_stats()
    env.patch(HT.httpx, 'Client', FakeClient)
    env.patch(HT.concurrent.futures, 'ThreadPoolExecutor', lambda *a, **k: FakePool())
    rank = env.choice('rank', [0, 3, 11])
    binary = env.choice('binary', [True, False])
    endpoint = env.fn('endpoint', ['int'], 'str')
    to, key = env.int('to', 0), env.str('key')
    c = HT.HttpCommunicator(rank, 12, env.seq('endpoints', lambda i: endpoint(i), n=12 if not env.sym else env.int('world', 12)), config=HT.CommConfig(use_binary=binary))
    env.assume(to < env.len(c.endpoints))
    raw = env.choice('raw', [False, True])
    isbytes = raw or env.choice('bytes', [False, True])
    data = env.bytes('payload') if isbytes else env.opaque('data', D)
    BIN, TXT = env.bytes('encoded'), env.str('encoded_text')
    quoted = env.fn('quoted', ['str'], 'str')
    M.STUBS[serde.dumps_binary] = lambda d: BIN if d is data else unsup('other data')
    M.STUBS[serde.dumps_b64] = lambda d: TXT if d is data else unsup('other data')

    def back(want, nm):
        def g(x):
            env.prove(f'{nm} is given what was encoded for it', env.eq(x, want))
            return data
        return g
    M.STUBS[serde.loads_binary] = back(BIN, 'the binary decoder')
    M.STUBS[serde.loads_b64] = back(TXT, 'the text decoder')
    B64 = env.str('base64_text')

    class Enc:
        _vf_ok = True

        def decode(self, *a):
            return B64

        def __len__(self):
            return 4

    def b64decode(x, *a, **k):
        env.prove('base64 decoder is given what was encoded', env.eq(x, B64))
        return data
    M.STUBS[base64.b64encode] = lambda d, *a: Enc() if d is data else unsup('other data')
    M.STUBS[base64.b64decode] = b64decode
    env.patch(HT, 'CommRequest', request_model(HT.CommRequest))
    M.STUBS[quote] = lambda s, safe='/', *a, **k: quoted(s) if safe == '' else unsup('quoting with safe characters')
    late = env.choice('fate', ['ok', 'timeout', 'refused'])

    class Client:
        def put(self, url, *, content=None, json=None, headers=None, timeout=None, **k):
            posted.append((url, content, json, dict(headers or {}), timeout))
            if late == 'timeout':
                raise HT.httpx.TimeoutException('late')
            if late == 'refused':
                raise ValueError('connection refused')
            return Resp()
    c.client = Client()
    sync = env.choice('sync', [True, False])
    if sync:
        r = env.run(c.send_sync, to, key, data, is_raw_bytes=raw, timeout=env.choice('t', [None, 5]))
    else:
        r = env.run(c.send, to, key, data, is_raw_bytes=raw)
        if r[0] == 'ok':
            h = r[1]
            r = env.run(h.wait)
    env.prove('a message that was not accepted is reported', (r[0] == 'exc') == (late != 'ok'), r)
    env.prove('one request', len(posted) == 1)
    url, content, js, headers, _ = posted[0]
    env.prove('to the addressee, under the quoted key', env.eq(url, endpoint(to) + '/comm/' + quoted(key)))
    if late != 'ok':
        return
    # the other end
    if 'content-type' not in {k.lower() for k in headers}:
        headers['Content-Type'] = 'application/json'
    app = FastAPI()

    class Comm:
        def on_receive(self, frm, k, d):
            got.append((frm, k, d))
            if occupied:
                raise RuntimeError('occupied')
    occupied = env.choice('occupied', [False, True])
    HT.register_routes(app, rank=1, world_size=12, infra=None, comm=Comm(), store=None, exec_pool=None)
    r2 = env.run(lambda: drive(comm_route(app)(key=key, request=Req(headers, content, js))))
    env.prove('a refusal is reported', (r2[0] == 'exc') == occupied, r2)
    env.prove('delivered once', len(got) == 1)
    frm, k2, d2 = got[0]
    env.prove('under the sender\'s rank', env.eq(frm, rank), frm)
    env.prove('under its key', env.eq(k2, key))
    env.prove('unaltered', d2 is data or env.eq(d2, data), (d2,))
    env.cover('end')


def gen_value(env, nm):
    import numpy as np
    k = env.choice(nm + '.k', ['bytes', 'int', 'str', 'none', 'list', 'dict', 'float', 'tuple', 'array', 'empty'])
    r = env.rng
    n = env.int(nm + '.n', 0, 40)
    return {'bytes': lambda: bytes((i * 37 + n) % 256 for i in range(n)), 'int': lambda: n - 7, 'str': lambda: 'sé\n"' * (n % 4), 'none': lambda: None, 'list': lambda: [n, None, b'x' * n, 'y'],
            'dict': lambda: {'a': n, 'b': [b'\x00\xff']}, 'float': lambda: n / 3, 'tuple': lambda: (n, (n,)), 'array': lambda: np.arange(n), 'empty': lambda: b''}[k]()


def eq(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


KEYS = ['a:0', 'a:1', 'a/b:0', 'a?b:0', 'a#b:0', '%41:0', 'A:0', 'j.0.x:3', 'é:1', '..:1', '../a:0', 'a:00', 'a b:0', 'a+b:0', '//:0', 'a:0 ']


def traffic(env, comms, world, kinds=True):
    """random messages between all ranks, sent and received in unrelated orders by concurrent threads"""
    n = env.int('n', 1, 10)
    msgs, used = [], set()
    for i in range(n):
        f, t, k = env.int(f'f{i}', 0, world - 1), env.int(f't{i}', 0, world - 1), env.choice(f'k{i}', KEYS)
        if (f, t, k) in used:
            continue
        used.add((f, t, k))
        v = gen_value(env, f'v{i}')
        msgs.append((f, t, k, v, isinstance(v, bytes) and env.choice(f'raw{i}', [False, True]), env.choice(f'sync{i}', [False, True])))
    order = env.choice('order', ['recv first', 'send first', 'mixed'])
    got, errs, lock = {}, [], threading.Lock()

    def snd(f):
        try:
            hs = []
            for (a, t, k, v, raw, sync) in msgs:
                if a == f:
                    if sync:
                        comms[f].send_sync(t, k, v, is_raw_bytes=raw)
                    else:
                        hs.append(comms[f].send(t, k, v, is_raw_bytes=raw))
            for h in hs:
                h.wait(20)
        except BaseException as e:      # noqa: BLE001
            errs.append(('send', f, e))

    def rcv(i):
        f, t, k = msgs[i][:3]
        try:
            x = comms[t].recv(f, k, timeout=20)
            with lock:
                got[i] = x
        except BaseException as e:      # noqa: BLE001
            errs.append(('recv', i, e))
    S = [threading.Thread(target=snd, args=(f,), daemon=True) for f in range(world)]
    R = [threading.Thread(target=rcv, args=(i,), daemon=True) for i in reversed(range(len(msgs)))]
    ts = R + S if order == 'recv first' else S + R if order == 'send first' else [x for p in zip(R + [None] * 20, S + [None] * 20) for x in p if x]
    for t in ts:
        t.start()
    for t in ts:
        t.join(25)
    env.prove('no error', not errs, (errs, msgs))
    env.prove('every message is received', not any(t.is_alive() for t in ts) and len(got) == len(msgs), msgs)
    for i, m in enumerate(msgs):
        env.prove('under its own sender and key, unaltered', eq(got[i], m[3]), (m, got[i]))
    for c in comms:
        env.prove('delivered once: nothing is left', not c._mailbox if hasattr(c, '_mailbox') else True)
    # a second message for an occupied slot is reported, the first stays
    f, t = env.int('ff', 0, world - 1), env.int('tt', 0, world - 1)
    comms[f].send_sync(t, 'dup:0', 'first')
    try:
        comms[f].send_sync(t, 'dup:0', 'second')
        env.fail('a second message for an occupied slot is reported')
    except (RuntimeError, TimeoutError):
        pass
    env.prove('the first message stays', comms[t].recv(f, 'dup:0', timeout=5) == 'first')


def h_mem_threads(env):
    """Real threads over the in-memory mesh."""
    world = env.int('world', 1, 4)
    mesh = ME.LocalMesh(world, use_serde=env.choice('serde', [False, True]))
    try:
        traffic(env, mesh.comms, world)
    finally:
        mesh.shutdown()


_servers = {}


def cluster(world):
    if world not in _servers:
        import logging
        import uvicorn
        logging.getLogger('mplang').setLevel(logging.CRITICAL)
        socks = []
        for r in range(world):
            so = socket.socket()
            so.bind(('127.0.0.1', 0))
            socks.append(so)
        eps = [f'http://127.0.0.1:{so.getsockname()[1]}' for so in socks]
        comms = [HT.HttpCommunicator(r, world, eps) for r in range(world)]
        for r in range(world):
            app = FastAPI()
            HT.register_routes(app, rank=r, world_size=world, infra=None, comm=comms[r], store=None, exec_pool=None)
            srv = uvicorn.Server(uvicorn.Config(app, log_level='critical'))
            threading.Thread(target=srv.run, kwargs=dict(sockets=[socks[r]]), daemon=True).start()
            for _ in range(1000):
                if srv.started:
                    break
                time.sleep(0.01)
        _servers[world] = comms
    return _servers[world]


def h_http_threads(env):
    """Real workers on the loopback interface, binary and text transport mixed."""
    world = env.choice('world', [1, 2, 3])
    comms = cluster(world)
    for c in comms:
        c.config.use_binary = env.choice(f'bin{c.rank}', [True, False])
        c._mailbox.clear()
    traffic(env, comms, world)
    c = comms[0]
    try:
        c.recv(0, 'never:0', timeout=0.01)
        env.fail('nothing was sent')
    except TimeoutError:
        pass


class Slow(dict):
    """the slots, each access at a pace of its own: threads that do not exclude each other overtake one another between any two"""
    def __init__(self, rng): self.pace = [rng.random() * .004 for _ in range(64)]; self.i = 0

    def lag(self):
        self.i += 1
        time.sleep(self.pace[self.i % 64])


def _slow(op):
    f = getattr(dict, op)

    def g(self, *a, **k):
        self.lag()
        try:
            return f(self, *a, **k)
        finally:
            self.lag()
    setattr(Slow, op, g)


for _op in ('__contains__', '__setitem__', '__getitem__', '__delitem__', 'pop', 'get', 'setdefault'):
    _slow(_op)


def h_races(env, kind):
    """Deliveries and receptions of the same slot that race: every accepted message is received, once, and unaltered; others are refused."""
    c = HT.HttpCommunicator(0, 2, ['http://a', 'http://b']) if kind == 'http' else ME.ThreadCommunicator(0, 2)
    if type(getattr(c, '_mailbox', None)) is not dict:
        return
    c._mailbox = Slow(env.rng)
    put, keys = getattr(c, recvd(kind)), KEYS[:env.int('keys', 1, 2)]
    taken, got, errs, lock = [], [], [], threading.Lock()
    start = threading.Event()

    def deliver(k, v):
        start.wait()
        try:
            put(1, k, v)
            with lock:
                taken.append((k, v))
        except RuntimeError:
            pass
        except Exception as e:
            errs.append(e)

    def receive(k, timeout):
        try:
            v = c.recv(1, k, timeout=timeout)
            with lock:
                got.append((k, v))
        except TimeoutError:
            pass
        except Exception as e:
            errs.append(e)
    ts = []
    for k in keys:
        for i in range(env.int('deliveries', 1, 3)):
            ts.append(threading.Thread(target=deliver, args=(k, f'{k}/{i}')))
        if kind == 'http':
            for i in range(env.int('receptions', 0, 2)):
                ts.append(threading.Thread(target=(lambda k=k: (start.wait(), receive(k, .05)))))
    rs = []
    if kind == 'mem':       # receptions wait until there is a message, or the end
        def forever(k):
            start.wait()
            try:
                while True:
                    v = c.recv(1, k)
                    with lock:
                        got.append((k, v))
            except RuntimeError:
                pass
            except Exception as e:
                errs.append(e)
        rs = [threading.Thread(target=forever, args=(k,), daemon=True) for k in keys for i in range(env.int('receptions', 1, 2))]
    for t in ts + rs:
        t.start()
    start.set()
    for t in ts:
        t.join()
    if kind == 'http':
        for k in keys:
            receive(k, .02)
    else:
        end = time.time() + 5
        while time.time() < end and (len(got) < len(taken) or any(dict.__contains__(c._mailbox, (1, k)) for k in keys)):
            time.sleep(.001)
        c.shutdown()
        for t in rs:
            t.join(5)
    env.prove('no other failure', not errs, errs)
    env.prove('every accepted message is received once, and nothing else', sorted(taken) == sorted(got), (taken, got))


def decoder(cache=[]):
    if not cache:
        app, rcv = FastAPI(), types.SimpleNamespace()
        HT.register_routes(app, rank=1, world_size=2, infra=None, comm=rcv, store=None, exec_pool=None)
        cache.append((comm_route(app), rcv))
    return cache[0]


def h_decode(env):
    """The wire forms of both ends, with the real encoders."""
    import base64
    v = gen_value(env, 'v')
    raw = isinstance(v, bytes)
    env.patch(HT.httpx, 'Client', FakeClient)
    route, rcv = decoder()
    for binary in (True, False):
        sent, got = [], []

        class Client:
            def put(self, url, *, content=None, json=None, headers=None, timeout=None, **k):
                sent.append((url, content, json, headers or {}))
                return Resp()
        c = HT.HttpCommunicator(env.int('rank', 0, 30), 2, ['http://a', 'http://b'], config=HT.CommConfig(use_binary=binary))
        c.client = Client()
        k = env.choice('key', KEYS)
        c.send_sync(1, k, v, is_raw_bytes=raw and env.choice('raw', [False, True]))
        url, content, js, headers = sent[0]
        env.prove('quoted key', url == 'http://b/comm/' + quote(k, safe=''), url)
        rcv.on_receive = lambda *a: got.append(a)
        hd = dict(headers)
        hd.setdefault('Content-Type', 'application/json')
        drive(route(key=k, request=Req(hd, content, js)))
        env.prove('delivered once, unaltered', len(got) == 1 and got[0][:2] == (c.rank, k) and eq(got[0][2], v), (got, v))


def harnesses():
    hs = []
    for k in ('mem', 'http'):
        nm = {'mem': 'ThreadCommunicator', 'http': 'HttpCommunicator'}[k]
        hs.append(H(f'deliver-{k}', (lambda env, k=k: h_deliver(env, k)), conc=0, functions=[f'{nm}.{recvd(k)}'], what=h_deliver.__doc__))
        hs.append(H(f'races-{k}', (lambda env, k=k: h_races(env, k)), sym=False, conc=150, conc_s=8, functions=[f'{nm}.{recvd(k)}', f'{nm}.recv'], what=h_races.__doc__))
        hs.append(H(f'recv-{k}', (lambda env, k=k: h_recv(env, k)), conc=0, functions=[f'{nm}.recv'], what=h_recv.__doc__))
    hs.append(H('send-mem', h_mem_send, conc=0, functions=['ThreadCommunicator.send', 'ThreadCommunicator.send_sync'], what=h_mem_send.__doc__))
    hs.append(H('wire', h_wire, conc=0, functions=['HttpCommunicator.send', 'HttpCommunicator.send_sync', 'HttpCommunicator._do_send', 'receive_comm', '_decode_binary_payload'], what=h_wire.__doc__))
    hs.append(H('decode', h_decode, sym=False, conc=200, conc_s=10, functions=['HttpCommunicator._do_send', 'receive_comm']))
    hs.append(H('mem-threads', h_mem_threads, sym=False, conc=300, conc_s=8, functions=['ThreadCommunicator']))
    hs.append(H('http-threads', h_http_threads, sym=False, conc=150, conc_s=20, functions=['HttpCommunicator', 'register_routes']))
    return hs
