"""C24  Device transfers reach the destination device and only it.

The SIMP operations are contracts over ghost objects: who holds a value, and the term each holder has (data, share, ciphertext, key)."""
import sys
import types
from pyvc.worker import H
from pyvc import core, models as M

INSTRUMENT = ['mplang.libs.device.api']
ASSUMPTIONS = ['the members of a device are distinct nodes; a PPU or TEE has one member (checked by C18)',
               'a Tracer or Interpreter lives as long as an object made under it, so the id of the context of a cached session is not reused',
               'what sym_encrypt, kem_derive, hkdf, quote_gen and attest do is C21; that shuffle_static, pcall_static and converge do what they say is C01/C07',
               'the numbers of members of an SPU tried are 1, 2 and 3', 'mplang.dialects.spu is a contract: make_shares gives as many shares as asked, reconstruct needs all of them in order']
TRUSTED = ['the symbolic model of cryptography: an encryption reveals nothing without its key, a quote binds the key it was made for to the enclave that made it']

import pyvc.nospu  # noqa
_spu = types.ModuleType('mplang.dialects.spu')
sys.modules.setdefault('mplang.dialects.spu', _spu)
import mplang.dialects
if not hasattr(mplang.dialects, 'spu'):
    mplang.dialects.spu = _spu
import mplang.libs.device.api as A
import mplang.edsl as el
from mplang.edsl.object import Object


# ---- terms ----
class T:
    """what one party has"""
    _vf_ok = True

    def __init__(self, kind, **k):
        self.kind, self.k = kind, k

    def __getattr__(self, n):
        try:
            return self.__dict__['k'][n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self): return f'{self.kind}{self.k}'


class G(Object):
    """a value distributed over parties: [(rank, term)]"""
    _vf_ok = True

    def __init__(self, holders, ctx, typ='type of x'):
        self.holders, self.ctx, self._t = holders, ctx, types.SimpleNamespace(value_type=typ)

    @property
    def type(self): return self._t


class Refused(Exception):
    """a SIMP operation refuses its arguments"""


class World:
    def __init__(self, env):
        self.env, self.n, self.secret = env, 0, None
        self.check = None           # called with (to, frm, term) for every message
        self.ctx = types.SimpleNamespace(name='context')
        self.other = types.SimpleNamespace(name='another context')

    # -- simp
    def local(self, obj, rank):
        if not isinstance(obj, G):
            return obj
        self.env.prove('objects belong to the current context', obj.ctx is self.ctx)
        for r, t in obj.holders:
            if bool(self.env.eq(r, rank)):
                return t
        raise Refused('a party lacks the value')

    def pcall_static(self, parties, fn, *args, **kw):
        outs = []
        for p in parties:
            self.at = p
            outs.append((p, M.call(fn, tuple(self.tree(a, p) for a in args), {k: self.tree(v, p) for k, v in kw.items()})))
        first = outs[0][1]
        if isinstance(first, (tuple, list)):
            return tuple(G([(p, o[i]) for p, o in outs], self.ctx) for i in range(len(first)))
        return G(outs, self.ctx)

    def tree(self, a, p):
        if isinstance(a, (tuple, list)):
            return type(a)(self.tree(x, p) for x in a)
        if isinstance(a, dict):
            return {k: self.tree(x, p) for k, x in a.items()}
        return self.local(a, p)

    def shuffle_static(self, src, routing):
        hs = []
        for to, frm in routing.items():
            t = self.local(src, frm)
            if self.check:
                self.check(to, frm, t)
            hs.append((to, t))
        return G(hs, self.ctx)

    def converge(self, *vs):
        hs = []
        for v in vs:
            self.env.prove('objects belong to the current context', v.ctx is self.ctx)
            for r, t in v.holders:
                for q, _ in hs:
                    if bool(self.env.eq(q, r)):
                        raise Refused('parties are not disjoint')
                hs.append((r, t))
        if not hs:
            raise Refused('nothing to converge')
        return G(hs, self.ctx)

    def constant(self, parties, data): return G([(p, T('data', x=data)) for p in parties], self.ctx)

    # -- crypto, tee, spu: run at self.at
    def kem_keygen(self, suite='x25519'):
        self.n += 1
        return T('sk', id=self.n, rank=self.at, suite=suite), T('pk', id=self.n, rank=self.at, suite=suite, attested=None)

    def quote_gen(self, pk):
        if pk.kind != 'pk':
            raise Refused('not a public key')
        return T('quote', id=pk.id, owner=pk.rank, rank=self.at, suite=pk.suite)

    def attest(self, quote, expected_curve='x25519'):
        if quote.kind != 'quote' or quote.suite != expected_curve:
            raise Refused('not a quote')
        return T('pk', id=quote.id, rank=quote.owner, suite=quote.suite, attested=quote.rank)

    def kem_derive(self, sk, pk):
        if sk.kind != 'sk' or pk.kind != 'pk' or sk.suite != pk.suite:
            raise Refused('not a key pair')
        return T('shared', ids=frozenset([sk.id, pk.id]), mine=sk.rank, theirs=pk.rank, attested=pk.attested)

    def hkdf(self, secret, info):
        if secret.kind != 'shared':
            raise Refused('not a shared secret')
        return T('key', ids=secret.ids, info=info, mine=secret.mine, theirs=secret.theirs, attested=secret.attested)

    def sym_encrypt(self, key, x):
        if key.kind not in ('key', 'shared'):
            raise Refused('not a key')
        return T('enc', key=key, x=x)

    def sym_decrypt(self, key, ct, typ):
        if ct.kind != 'enc' or key.kind != ct.key.kind or key.ids != ct.key.ids or getattr(key, 'info', None) != getattr(ct.key, 'info', None):
            raise Refused('authentication failed')
        self.env.prove('decrypted as the type of the value', typ == 'type of x')
        return ct.x

    def make_shares(self, config, x, count):
        return tuple(T('share', i=i, n=count, config=config, x=x) for i in range(count))

    def reconstruct(self, config, shares):
        shares = list(shares)
        for i, s in enumerate(shares):
            if s.kind != 'share' or s.i != i or s.n != len(shares) or s.config != config or s.x is not shares[0].x:
                raise Refused('not the shares of a value')
        return shares[0].x

    def run_jax(self, config, fn, *a, **k):
        return M.call(fn, a, k)


class Cfg:
    _vf_ok = True
    @staticmethod
    def from_dict(d): return ('config', d)


def world(env):
    w = World(env)
    ns = types.SimpleNamespace
    env.patch(A, 'simp', ns(pcall_static=w.pcall_static, shuffle_static=w.shuffle_static, converge=w.converge, constant=w.constant))
    env.patch(A, 'crypto', ns(kem_keygen=w.kem_keygen, kem_derive=w.kem_derive, hkdf=w.hkdf, sym_encrypt=w.sym_encrypt, sym_decrypt=w.sym_decrypt))
    env.patch(A, 'tee', ns(quote_gen=w.quote_gen, attest=w.attest))
    env.patch(A, 'spu', ns(make_shares=w.make_shares, reconstruct=w.reconstruct, run_jax=w.run_jax, SPUConfig=Cfg))
    env.patch(A, '_tee_session_cache', {})
    env.patch(A, 'g_auto_trans', True)
    env.patch(el, 'get_current_context', lambda: w.ctx)
    w.cluster = ns(devices={})
    env.patch(A, '_resolve_cluster', lambda: w.cluster)
    for o in (A.simp, A.crypto, A.tee, A.spu):
        for f in vars(o).values():
            if isinstance(f, types.MethodType):
                pass
    return w


World._vf_ok = True
KINDS = ['PPU', 'SPU', 'TEE']


def dev(env, w, name, kinds=KINDS, spell=False):
    kind = env.choice(name + '_kind', kinds)
    n = env.choice(name + '_members', [2, 3, 1]) if kind == 'SPU' else 1
    ranks = [env.int(f'{name}_rank{i}', 0) for i in range(n)]
    for i in range(n):
        for j in range(i):
            env.assume(env.not_(env.eq(ranks[i], ranks[j])))
    k = kind.lower() if spell and env.choice(name + '_spelling', [False, True]) else kind
    d = types.SimpleNamespace(name=name, kind=k, members=[types.SimpleNamespace(rank=r, name=f'{name}.{i}') for i, r in enumerate(ranks)], config={'of': name})
    w.cluster.devices[name] = d
    return d


def K(d): return d.kind.upper()


def held(env, w, d, x, name='x'):
    """x on device d"""
    if K(d) == 'SPU':
        c = ('config', d.config)
        g = G([(m.rank, T('share', i=i, n=len(d.members), config=c, x=x)) for i, m in enumerate(d.members)], w.ctx)
    else:
        g = G([(d.members[0].rank, x)], w.ctx)
    setattr(g, A.DEVICE_ATTR_NAME, d.name)
    return g


def arrived(env, label, w, r, d, x):
    """r is x, on exactly device d"""
    env.prove(label + ': an object', isinstance(r, G), r)
    env.prove(label + ': marked with the device', getattr(r, A.DEVICE_ATTR_NAME, None) == d.name, r)
    env.prove(label + ': of this context', r.ctx is w.ctx)
    env.prove(label + ': held by as many parties as the device has', len(r.holders) == len(d.members), r.holders)
    if len(r.holders) != len(d.members):
        return
    for i, m in enumerate(d.members):
        t = [t for q, t in r.holders if bool(env.eq(q, m.rank))]
        env.prove(label + ': each member holds it', len(t) == 1)
        if len(t) != 1:
            return
        t = t[0]
        if K(d) == 'SPU':
            env.prove(label + ': a share of it', t.kind == 'share' and t.x is x and t.i == i and t.n == len(d.members) and t.config == ('config', d.config), t)
        else:
            env.prove(label + ': the value', t is x, t)


def guard(env, w, a, b, x, tee):
    """no message may reach a party outside the devices, or carry x to or from an enclave but under a key attested by it"""
    members = [m.rank for d in (a, b) for m in d.members]

    def check(to, frm, t):
        env.prove('messages only reach members of the two devices', env.or_(*[env.eq(to, r) for r in members]))
        # the destination's members may see a share or, if plain devices, the value; the source's see nothing but ciphertexts and public keys
        env.prove('no secret key is sent', t.kind not in ('sk', 'shared', 'key'), t)
        if tee is None:
            if t.kind in ('data', 'share'):
                env.prove('data only goes to the destination', env.or_(*[env.eq(to, m.rank) for m in b.members]))
            if t.kind == 'data':
                env.prove('the value is only sent from one plain device to another', (K(a), K(b)) == ('PPU', 'PPU'), t)
            return
        tr = tee.members[0].rank
        env.prove('to and from the enclave, only ciphertexts, public keys and quotes', t.kind in ('enc', 'pk', 'quote'), t)
        if t.kind == 'enc':
            env.prove('encrypted under a derived key', t.key.kind == 'key' and t.key.info == A._TEE_HKDF_INFO)
            # the sender's copy: derived from an attested key; the enclave's: with the key pair it had quoted
            pub = t.key.attested
            if pub is not None:
                env.prove('the key is attested by the enclave', env.and_(env.eq(pub, tr), env.eq(t.key.theirs, tr)))
            else:
                env.prove("the enclave's own key", env.and_(env.eq(t.key.mine, tr), t.key.ids in quoted(w)), t)
                env.prove('encrypted in the enclave', env.eq(frm, tr))
    w.check = check


def quoted(w):
    return w.sessions


def earlier(env, w, p, t, ctx):
    """a session made earlier between a plain device and an enclave, by a transfer in that context"""
    now, check = w.ctx, w.check
    w.ctx, w.check = ctx, None
    r = env.run(A._d2d, t.name, held(env, w, p, T('data', x='earlier')))
    env.prove('earlier transfer succeeds', r[0] == 'ok', r)
    w.ctx, w.check = now, check


def cache_ok(env, w, label, ctx_of):
    """every cached session of a live context: the two ends of a key, attested by the enclave it is for"""
    if not env.sym:
        return          # its representation is nobody's business; symbolically, it makes the contract of a transfer inductive
    for k, e in A._tee_session_cache.items():
        if not (isinstance(k, tuple) and len(k) == 2 and k[0] in w.cluster.devices and k[1] in w.cluster.devices
                and isinstance(e, tuple) and len(e) == 3 and isinstance(e[0], int) and isinstance(e[1], G) and isinstance(e[2], G)):
            raise core.Unsupported('another representation of the session cache')
        (f, t), (c, s1, s2) = k, e
        p, q = w.cluster.devices[f], w.cluster.devices[t]
        env.prove(label + ': between a plain device and an enclave', K(p) == 'PPU' and K(q) == 'TEE')
        cx = [x for x in (w.ctx, w.other) if id(x) == c]
        env.prove(label + ': of the context it was made in', len(cx) == 1 and s1.ctx is cx[0] and s2.ctx is cx[0])
        (r1, k1), = s1.holders
        (r2, k2), = s2.holders
        env.prove(label + ': held at the two ends', env.and_(env.eq(r1, p.members[0].rank), env.eq(r2, q.members[0].rank)))
        env.prove(label + ': one key', k1.kind == k2.kind == 'key' and k1.ids == k2.ids and k1.info == k2.info)
        env.prove(label + ': attested by the enclave', k1.attested is not None and env.and_(env.eq(k1.attested, r2), env.eq(k1.theirs, r2)))


def track(env, w):
    """the key pairs whose public key an enclave quoted: sessions that use one are known to be the enclave's"""
    w.sessions = set()
    q = w.quote_gen

    def quote_gen(pk):
        r = q(pk)
        env.prove('an enclave quotes a key pair of its own', env.eq(pk.rank, w.at))
        w.quotes = getattr(w, 'quotes', set()) | {pk.id}
        return r
    A.tee.quote_gen = quote_gen
    quote_gen._vf_ok = True
    d = w.kem_derive

    def kem_derive(sk, pk):
        r = d(sk, pk)
        if sk.id in getattr(w, 'quotes', ()):
            w.sessions.add(r.ids)
        return r
    A.crypto.kem_derive = kem_derive
    kem_derive._vf_ok = True


def h_transfer(env):
    """A value moved between devices of any kinds and memberships arrives at exactly the destination, or is refused; only members of the two devices get messages,
    and to or from an enclave only ciphertexts under an attested key; in any valid state of the session cache, which stays valid."""
    w = world(env)
    track(env, w)
    na, nb = env.choice('names', [('A', 'B'), ('B', 'A'), ('P.0', 'P.1'), ('p', 'P')])
    a = dev(env, w, na, spell=True)
    b = dev(env, w, nb, spell=True)
    x = T('data', x='x')
    obj = held(env, w, a, x)
    pair = (K(a), K(b))
    tee = b if pair == ('PPU', 'TEE') else a if pair == ('TEE', 'PPU') else None
    if tee is not None:
        p = a if tee is b else b
        c = env.choice('session', ['none', 'of this context', 'of another context'])
        if c != 'none':
            earlier(env, w, p, tee, w.ctx if c == 'of this context' else w.other)
    if pair == ('SPU', 'TEE'):
        return          # known finding: harness shares-to-enclave
    guard(env, w, a, b, x, tee)
    before = list(obj.holders)
    r = env.run(A._d2d if env.choice('put', [False, True]) else A.put, nb, obj)
    if pair in (('SPU', 'SPU'), ('TEE', 'TEE')):
        env.prove('no safe route: refused', r[0] == 'exc' and isinstance(r[1], NotImplementedError), r)
    else:
        env.prove('succeeds', r[0] == 'ok', r)
        arrived(env, 'arrives', w, r[1], b, x)
        cache_ok(env, w, 'cached session', None)
    env.prove('the source is unchanged', obj.holders == before and getattr(obj, A.DEVICE_ATTR_NAME) == na and r[1] is not obj)
    env.cover('end')


def h_stay(env):
    """A value moved to the device it is on is the same object, and nothing is sent."""
    w = world(env)
    a = dev(env, w, 'A')
    obj = held(env, w, a, T('data', x='x'))
    w.check = lambda *m: env.fail('nothing is sent', m)
    r = env.run(A._d2d if env.choice('put', [False, True]) else A.put, 'A', obj)
    env.prove('the same object', r[0] == 'ok' and r[1] is obj, r)
    env.prove('still there', getattr(obj, A.DEVICE_ATTR_NAME) == 'A')
    env.cover('end')


def h_unknown(env):
    """Transfers to or from devices that are not there, or of an unknown kind, are refused and send nothing; so are values that are not objects."""
    w = world(env)
    a = dev(env, w, 'A', KINDS + ['GPU'])
    w.check = lambda *m: env.fail('nothing is sent', m)
    x = held(env, w, a, T('data', x='x'))
    c = env.choice('case', ['no such device', 'unknown kind', 'unknown source', 'no object', 'put nowhere', 'host to unknown'])
    if c == 'no such device':
        r = env.run(A._d2d, 'C', x)
    elif c == 'put nowhere':
        r = env.run(A.put, 'C', env.choice('value', [x, 5]))
        env.prove('says so', isinstance(r[1], A.DeviceNotFoundError), r)
    elif c == 'no object':
        r = env.run(A._d2d, 'A', env.choice('value', [5, None, 'A']))
    elif c == 'unknown source':
        setattr(x, A.DEVICE_ATTR_NAME, 'gone')
        r = env.run(A._d2d, 'A', x)
    else:
        w.cluster.devices['B'] = types.SimpleNamespace(name='B', kind='FPGA', members=[types.SimpleNamespace(rank=env.int('r', 0))], config={})
        r = env.run(A._d2d if c == 'unknown kind' else A.put, 'B', x if c == 'unknown kind' else 7)
        env.prove('says so', isinstance(r[1], A.DeviceError), r)
    env.prove('refused', r[0] == 'exc', r)
    env.cover('end')


def h_put(env):
    """Host data put on a device is held by exactly its members and marked with it; nothing is sent between parties."""
    w = world(env)
    a = dev(env, w, 'A', spell=True)
    w.check = lambda *m: env.fail('nothing is sent', m)
    x = object()
    r = env.run(A.put, 'A', x)
    env.prove('succeeds', r[0] == 'ok', r)
    g = r[1]
    env.prove('an object marked with the device', isinstance(g, G) and getattr(g, A.DEVICE_ATTR_NAME, None) == 'A')
    env.prove('held by its members only', len(g.holders) == len(a.members) and env.and_(True, *[env.eq(q, m.rank) for (q, _), m in zip(g.holders, a.members)]), g.holders)
    env.prove('the value', all((t.x if isinstance(t, T) else t) is x for _, t in g.holders))
    env.cover('end')


def h_infer(env):
    """The device of a call: that of its arguments; of several, the only secure one; otherwise refused."""
    w = world(env)
    ds = {}
    auto = env.choice('auto', [True, False])
    env.patch(A, 'g_auto_trans', auto)
    args = []
    n = env.choice('n', [0, 1, 2, 3])
    on = []
    for i in range(n):
        j = env.choice(f'arg{i}', [0, 1, 2, None])
        if j is None:
            o = G([], w.ctx)
        else:
            if j not in ds:
                ds[j] = types.SimpleNamespace(name='ABC'[j], kind=env.choice(f'kind{j}', ['PPU', 'spu', 'TEE']), config={},
                                              members=[types.SimpleNamespace(rank=env.int(f'rank{j}', 0), name='m')])
                w.cluster.devices['ABC'[j]] = ds[j]
            o = held(env, w, ds[j], T('data', x=i))
            on.append(ds[j])
        args.append(o)
    form = env.choice('form', ['args', 'nested', 'kwargs'])
    if form == 'args':
        r = env.run(A._infer_device_from_args, *args, 3)
    elif form == 'nested':
        r = env.run(A._infer_device_from_args, {'a': args}, [5])
    else:
        r = env.run(lambda: A._infer_device_from_args(**{f'k{i}': v for i, v in enumerate(args)}))
    names = {d.name for d in on}
    secure = {d.name for d in on if K(d) in ('SPU', 'TEE')}
    if len(names) == 1:
        want = next(iter(names))
    elif len(names) > 1 and auto and len(secure) == 1:
        want = next(iter(secure))
    else:
        want = None
    if want is None:
        env.prove('refused', r[0] == 'exc' and isinstance(r[1], A.DeviceInferenceError), r)
    else:
        env.prove('the device', r == ('ok', want), (r, want))
    env.cover('end')


def h_run(env):
    """A function run on a device gets its arguments there, runs at exactly the members, and its results are marked with the device."""
    w = world(env)
    track(env, w)
    a = dev(env, w, 'A')
    b = dev(env, w, 'B')
    x, y = T('data', x='x'), T('data', x='y')
    if (K(a), K(b)) in (('SPU', 'SPU'), ('TEE', 'TEE'), ('SPU', 'TEE')):
        return
    o1, o2 = held(env, w, a, x), held(env, w, b, y)
    seen = []

    two = env.choice('tuple', [True, False])

    def fn(p, q, k=None):
        seen.append((w.at, p, q, k))
        return (p, q) if two else p
    fn._vf_ok = True
    explicit = env.choice('explicit', [True, False])
    if not explicit:
        env.assume(K(a) == 'PPU' and K(b) in ('SPU', 'TEE'))
    host = 11
    r = env.run(A.device('B' if explicit else None)(fn), o1, o2, k=host)
    env.prove('succeeds', r[0] == 'ok', r)
    env.prove('runs once at each member', len(seen) == len(b.members) and env.and_(True, *[env.eq(s[0], m.rank) for s, m in zip(seen, b.members)]), seen)
    for i, s in enumerate(seen):
        if K(b) == 'SPU':
            env.prove('gets shares', s[1].kind == 'share' and s[1].x is x and s[1].i == i and s[2].x is y and s[2].i == i, s)
        else:
            env.prove('gets the values', s[1] is x and s[2] is y, s)
        env.prove('gets host arguments', s[3] is host)
    for g in (r[1] if isinstance(r[1], (tuple, list)) else [r[1]]):
        env.prove('the results are on the device', isinstance(g, G) and getattr(g, A.DEVICE_ATTR_NAME, None) == 'B' and len(g.holders) == len(b.members), g)
    env.prove('the arguments stay where they were', getattr(o1, A.DEVICE_ATTR_NAME) == 'A' and getattr(o2, A.DEVICE_ATTR_NAME) == 'B')
    env.cover('end')


def h_sequence(env):
    """Sequences of transfers under changing contexts (bounded): every value arrives, sessions are not carried into another context."""
    w = world(env)
    track(env, w)
    ds = [dev(env, w, 'A', ['PPU']), dev(env, w, 'B', ['TEE']), dev(env, w, 'C', ['PPU', 'SPU'])]
    for s in range(3):
        if env.choice(f'other context {s}', [False, True]):
            w.ctx, w.other = w.other, w.ctx
        i, j = env.choice(f'pair{s}', [(0, 1), (1, 0), (2, 1), (1, 2), (0, 2)])
        a, b = ds[i], ds[j]
        pair = (K(a), K(b))
        if pair in (('SPU', 'SPU'), ('TEE', 'TEE'), ('SPU', 'TEE')) or a is b:
            continue
        x = T('data', x=s)
        guard(env, w, a, b, x, b if pair == ('PPU', 'TEE') else a if pair == ('TEE', 'PPU') else None)
        r = env.run(A.put, b.name, held(env, w, a, x))
        env.prove('succeeds', r[0] == 'ok', r)
        arrived(env, 'arrives', w, r[1], b, x)
        cache_ok(env, w, 'cached session', None)
    env.cover('end')


def h_shares(env):
    """Shares that an SPU reveals to an enclave travel encrypted under a key attested by it."""
    w = world(env)
    track(env, w)
    a = dev(env, w, 'A', ['SPU'])
    b = dev(env, w, 'B', ['TEE'])
    x = T('data', x='x')
    plain = []
    w.check = lambda to, frm, t: plain.append(t.kind)
    r = env.run(A._d2d, 'B', held(env, w, a, x))
    if r[0] == 'ok':
        arrived(env, 'arrives', w, r[1], b, x)
    env.prove('shares reach the enclave encrypted', 'share' not in plain and 'data' not in plain, plain)


# ---- the real thing ----
def h_real(env):
    """Real clusters of plain devices and enclaves: sequences of puts and device functions, interpreted and traced; values, parties and marks."""
    import numpy as np
    import warnings
    warnings.simplefilter('ignore')
    from mplang.dialects import simp
    from mplang.edsl.context import push_context, pop_context
    from mplang.libs.device.cluster import ClusterSpec
    from mplang.edsl.typing import MPType
    g = env.rng
    n = g.choice([2, 3, 4])
    name = g.choice(['D{}', 'D.{}', '{}-dev', 'D{}' + 'x' * 3])
    spec = {name.format(i): dict(kind=g.choice(['PPU', 'ppu', 'TEE', 'Tee']), members=[f'n{g.randrange(n)}'], config={}) for i in range(g.choice([2, 3, 4]))}
    c = ClusterSpec.from_dict(dict(nodes=[dict(name=f'n{i}', endpoint=f'127.0.0.1:{9000 + i}') for i in range(n)], devices=spec))
    I = simp.make_simulator(n, cluster_spec=c)
    push_context(I)
    log = []
    try:
        v = np.array([g.randint(-9, 9) for _ in range(g.randint(1, 3))])
        at = g.choice(list(spec))
        x = A.put(at, v)
        for _ in range(g.randint(1, 5)):
            to = g.choice(list(spec))
            k = lambda d: spec[d]['kind'].upper()
            log.append((at, to))
            env.inputs['moves'] = list(log)
            env.inputs['devices'] = {d: (e['kind'], e['members']) for d, e in spec.items()}
            if k(at) == k(to) == 'TEE' and at != to:
                try:
                    A.put(to, x)
                    env.fail('no safe route: refused', log)
                except NotImplementedError:
                    continue
            y = A.put(to, x)
            env.prove('stays the same', (y is x) == (to == at))
            if g.random() < .3:
                y = A.device(to).jax(lambda a: a + 1)(x)
                v = v + 1
            env.prove('marked', A.get_dev_attr(y) == to and A.get_dev_attr(x) == at, log)
            rank = c.devices[to].members[0].rank
            env.prove('held by the member', isinstance(y.type, MPType) and tuple(y.type.parties) == (rank,), log)
            env.prove('held by no other party', [r for r, q in enumerate(y.runtime_obj.values) if q is not None] == [rank], log)
            env.prove('the value', np.array_equal(np.asarray(A.fetch(y)), v), log)
            x, at = y, to
    finally:
        pop_context()
        I.get_dialect_state('simp').shutdown()


def harnesses():
    return [
        H('transfer', h_transfer, budget=200, functions=['_d2d', 'put', '_ensure_tee_session', 'set_dev_attr', 'get_dev_attr']),
        H('stay', h_stay, functions=['_d2d', 'put']),
        H('unknown', h_unknown, functions=['_d2d', 'put']),
        H('put', h_put, functions=['put', '_device_run', '_device_run_spu']),
        H('infer', h_infer, budget=200, functions=['_infer_device_from_args'], max_paths=60000, unbounded=False, bound=3),
        H('run', h_run, budget=200, functions=['_device_run', '_device_run_ppu', '_device_run_tee', '_device_run_spu', 'DeviceContext']),
        H('sequence', h_sequence, unbounded=False, bound=3, budget=200, max_paths=60000, functions=['_d2d', '_ensure_tee_session']),
        H('shares-to-enclave', h_shares, sym=False, conc=1, functions=['_d2d']),
        H('real', h_real, sym=False, conc=40, conc_s=30, functions=['put', 'fetch', 'device']),
    ]
