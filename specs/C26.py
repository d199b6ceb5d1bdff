"""C26  Oblivious transfer, VOLE and OPRF satisfy their correlation.

The protocols run unchanged over terms in normal form (pyvc.xorterm): every value of every bit, seed, scalar and message at once, at an arbitrary
position; equality of normal forms decides each obligation. Who holds what is checked at every step."""
import sys
import types
import numpy as np
from pyvc.worker import H
from pyvc import core
from pyvc import xorterm as t
from pyvc.xorterm import X, Arr, Poly, PB, atom, bit, fun, ZERO, ONE

import pyvc.nospu  # noqa
import jax
jax.config.update('jax_enable_x64', True)
import mplang.edsl as el
import mplang.edsl.typing as elt
from mplang.edsl.object import Object
from mplang.libs.mpc.ot import base, extension, silent
from mplang.libs.mpc.vole import gilboa
from mplang.libs.mpc.psi import oprf

sys.setrecursionlimit(20000)
INSTRUMENT = []
ASSUMPTIONS = ['jax runs with 64-bit types, as the tests set it',
               'the elliptic curve group is commutative of unknown order; hash, AES expansion and multiplication by powers of x are deterministic functions (C16 for the field)',
               'simp: a party-local call runs the function at each party on what it holds, a shuffle moves one value (C01, C07)',
               'messages of an oblivious transfer are at most 32 bytes; choices are bits']
TRUSTED = ['normal forms of GF(2) polynomials over bits and opaque atoms, of integer polynomials (pyvc/xorterm.py)',
           'jax.numpy operations on arrays of terms (pyvc/xorterm.py); the same code runs on the real ones in the concrete harnesses']


# ---- parties ----
class G(Object):
    """a value at some parties"""
    _vf_ok = True

    def __init__(self, vals, typ=None):
        self.vals, self._t = vals, typ

    @property
    def type(self): return self._t if self._t is not None else elt.MPType(elt.TensorType(elt.u8, (1,)), tuple(self.vals))


Refused = t.Refused


class World:
    _vf_ok = True

    def __init__(self):
        self.n = 0
        self.sent = []

    def local(self, a, p):
        if isinstance(a, G):
            if p not in a.vals:
                raise Refused(f'party {p} uses what {sorted(a.vals)} has')
            return a.vals[p]
        if isinstance(a, (tuple, list)):
            return type(a)(self.local(x, p) for x in a)
        if isinstance(a, dict):
            return {k: self.local(x, p) for k, x in a.items()}
        return a

    def pcall_static(self, parties, fn, *args, **kw):
        outs = {p: fn(*self.local(args, p), **self.local(kw, p)) for p in parties}
        return self.spread(outs)

    def spread(self, outs):
        o = next(iter(outs.values()))
        if isinstance(o, (tuple, list)):
            return type(o)(self.spread({p: v[i] for p, v in outs.items()}) for i in range(len(o)))
        return G(outs)

    def shuffle_static(self, x, routing):
        r = {}
        for to, frm in routing.items():
            r[to] = self.local(x, frm)
            self.sent.append((to, frm, r[to]))
        return G(r, None)

    def fresh(self):
        self.n += 1
        return self.n


def run(env, fn, *args):
    """symbolically, what the terms cannot express is unsupported; the concrete harnesses decide about exceptions of the code"""
    r = env.run(fn, *args)
    if r[0] == 'exc' and not isinstance(r[1], Refused):
        raise core.Unsupported(f'{type(r[1]).__name__}: {r[1]}'[:200])
    return r


# ---- contracts of the dialects ----
def curve(w):
    ns = types.SimpleNamespace

    def select(c, a, b):
        c = c.at(*(0,) * c.ndim) if isinstance(c, Arr) else c
        if isinstance(a, Poly):
            p = c if isinstance(c, Poly) else t.pbit(c)
            return p * a + (t.pint(1) - p) * b
        return Chosen(c, a, b)

    def from_int(v):
        if isinstance(v, Arr):
            v = v.at(*(0,) * v.ndim)
        return v if isinstance(v, Poly) else t.pbit(v)

    def mul(p, k): return p * k

    def to_bytes(p): return Arr((65,), lambda b: PB(p, b), np.uint8)

    def from_bytes(a):
        bs = [a.at(i) for i in range(a.shape[0])]
        if len(bs) == 65 and all(isinstance(x, PB) and x.b == i and x.p == bs[0].p for i, x in enumerate(bs)):
            return bs[0].p
        raise Refused('not the encoding of a point')

    def hash_bytes(a):
        memo = []
        def row():
            if not memo:
                bs = [a.at(i) for i in range(a.shape[0])]
                pt = isinstance(bs[0], PB) and all(x.b == i and x.p == bs[0].p for i, x in enumerate(bs)) and len(bs) == 65
                memo.append((bs[0].p,) if pt else tuple(bs))
            return memo[0]
        return Arr((32,), lambda b: fun('hash', row(), b), np.uint8)

    def random_bits(n):
        k = w.fresh()
        return Arr((n,), lambda i: bit('random bit', k, i), np.uint8)

    def random_bytes(n):
        k = w.fresh()
        return Arr((n,), lambda i: atom('random byte', k, i), np.uint8)

    def random_tensor(shape, dtype):
        k = w.fresh()
        return Arr(shape, lambda *i: atom('random', k, *i), np.uint64)

    return ns(ec_generator=lambda *a: t.pint(1), ec_random_scalar=lambda *a: t.pvar('scalar', w.fresh()), ec_mul=mul, ec_add=lambda a, b: a + b, ec_sub=lambda a, b: a - b,
              ec_scalar_from_int=from_int, ec_point_to_bytes=to_bytes, ec_bytes_to_point=from_bytes, hash_bytes=hash_bytes, select=select,
              random_bits=random_bits, random_bytes=random_bytes, random_tensor=random_tensor,
              sym_encrypt=lambda k, m: Enc(k.at(0) if isinstance(k, Arr) else k, m), sym_decrypt=decrypt)


class Enc:
    _vf_ok = True
    def __init__(self, k, m): self.k, self.m = k, m


class Chosen:
    _vf_ok = True
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b


def decrypt(k, c, typ):
    """authenticated: in each case of the choice the key must be that of the ciphertext"""
    k = k.at(0) if isinstance(k, Arr) else k
    c = c if isinstance(c, Chosen) else Chosen(ONE, c, c)
    s = t.as_x(c.c)
    r = ZERO
    for ind, (kk, sel) in t.cases((k, s)):
        e = c.a if sel == ONE else c.b if sel == ZERO else None
        if e is None or kk != t.tsub(e.k, {}) and not same_under(ind, kk, e.k):
            raise Refused('authentication failed')
        r = r ^ ind * e.m
    return r


def same_under(ind, a, b):
    return ind * a == ind * b


def tensors(w):
    ns = types.SimpleNamespace

    def constant(v): return t.lift(v) if np.ndim(v) else int(v)

    def concat(xs, axis=0): return J.concatenate(xs, axis)

    def slice_tensor(x, starts, ends, strides=None): return x[tuple(slice(a, b) for a, b in zip(starts, ends))]

    def elementwise(fn, *args, **kw):
        """the function of the elements at any index, once"""
        arrs = [a for a in args if isinstance(a, Arr)]
        for a in arrs:
            if a.shape != arrs[0].shape:
                raise Refused('shapes of elementwise differ')
        if arrs[0].ndim != 1:
            raise core.Unsupported('elementwise of a matrix')
        r = fn(*[a.at('i') if isinstance(a, Arr) else a for a in args], **kw)
        def up(v):
            if isinstance(v, tuple):
                return tuple(up(x) for x in v)
            return Arr(arrs[0].shape, lambda i: v)
        return up(r)

    return ns(constant=constant, run_jax=lambda fn, *a, **k: fn(*a, **k), concat=concat, reshape=lambda x, s: x.reshape(s), slice_tensor=slice_tensor, elementwise=elementwise,
              transpose=lambda x, perm=None: J.transpose(x, perm))


J = t.Jnp()


def fields(w):
    ns = types.SimpleNamespace

    def aes_expand(seeds, n):
        return Arr((seeds.shape[0], n, 2), lambda r, m, h: fun('aes', seeds.row(r), m, h), np.uint64)

    def mul(a, b):
        sh = t.bshape(a.shape, b.shape)
        def f(*i):
            u, p = a.row(*i[:-1]), b.row(*i[:-1])
            if not all(isinstance(x, int) for x in p):
                raise core.Unsupported('product of two terms')
            n = p[0] | p[1] << 64
            r = ZERO
            for k in range(128):
                if n >> k & 1:
                    r = r ^ fun('times x^', u, k, i[-1])
            return r
        return Arr(sh, f, np.uint64)
    return ns(aes_expand=aes_expand, mul=mul)


def ghost(env, *mods):
    w = World()
    d = dict(simp=types.SimpleNamespace(pcall_static=w.pcall_static, shuffle_static=w.shuffle_static), crypto=curve(w), tensor=tensors(w), field=fields(w), jnp=J)
    for m in mods:
        for k, v in d.items():
            if hasattr(m, k):
                env.patch(m, k, v)
    return w, types.SimpleNamespace(**d)


def roles(env): return env.choice('roles', [(0, 1), (1, 0), (2, 5)])


def size(env, s, few=False):
    """A size and an index in it. 'N' stands for any size unlike the other sizes of the protocol; those it may coincide with are cases of their own."""
    n = env.choice('n', ['N', 1, 2, 128] if few else ['N', 1, 2, 16, 32, 128]) if s == 0 else 'N'
    return n, 0 if n == 1 else 'i'


# ---- 1-of-2 transfer ----
def h_transfer(env):
    """Oblivious transfer of any number of elements: the receiver gets, at each position, exactly the message its bit chooses, and holds it alone."""
    w, d = ghost(env, base)
    s, r = roles(env)
    N, ix = size(env, s)[0], 'i'
    mt = lambda p: elt.MPType(elt.TensorType(elt.i64, (7 if N == 'N' else N,)), (p,))
    m0 = G({s: Arr((N,), lambda i: atom('m0', i))}, mt(s))
    m1 = G({s: Arr((N,), lambda i: atom('m1', i))}, mt(s))
    b = G({r: Arr((N,), lambda i: bit('b', i))}, mt(r))
    k = run(env, base.transfer, m0, m1, b, s, r)
    env.prove('succeeds', k[0] == 'ok', k)
    g = k[1]
    env.prove('at the receiver only', isinstance(g, G) and set(g.vals) == {r}, g)
    out = g.vals[r]
    c = bit('b', ix)
    env.prove('as many', out.shape == (N,), out.shape)
    env.prove('the chosen message', out.at(ix) == c * atom('m1', ix) ^ (c ^ ONE) * atom('m0', ix), out.at(ix))
    env.cover('end')


# ---- IKNP ----
def prg(seeds, n): return Arr((seeds.shape[0], n), lambda j, i: fun('prg', seeds.row(j), i), np.uint8)


def h_iknp(env):
    """The IKNP matrices of any number of transfers, for choices by row or by entry: T = Q + (choice and s), at any row and each column."""
    w, d = ghost(env, extension)
    env.patch(extension, 'prg_expand', prg)
    s, r = roles(env)
    N, ix = size(env, s, few=True)
    form = env.choice('choices', ['per row', 'per entry', 'column'])
    c = {'per row': Arr((N,), lambda i: bit('c', i)), 'per entry': Arr((N, 128), lambda i, j: bit('c', i, j)), 'column': Arr((N, 1), lambda i, j: bit('c', i))}[form]
    k = run(env, extension.iknp_core, G({r: c}), s, r, N)
    env.prove('succeeds', k[0] == 'ok', k)
    T, Q, S = k[1]
    env.prove('T and s at the sender, Q at the receiver', set(T.vals) == {s} and set(S.vals) == {s} and set(Q.vals) == {r})
    T, Q, S = T.vals[s], Q.vals[r], S.vals[s]
    env.prove('shapes', T.shape == (N, 128) and Q.shape == (N, 128) and S.shape == (128,), (T.shape, Q.shape, S.shape))
    for j in range(128):
        cij = bit('c', ix, j) if form == 'per entry' else bit('c', ix)
        env.prove('correlated', T.at(ix, j) == Q.at(ix, j) ^ cij * S.at(j), (j, T.at(ix, j)))
        env.prove('Q does not depend on the choices, s is random', not Q.at(ix, j).bits() and len(S.at(j).m) == 1)
    env.prove('columns have seeds of their own', len({Q.at(ix, j) for j in range(128)}) == 128 and len({S.at(j) for j in range(128)}) == 128)
    env.prove('parties send to each other only', all({to, frm} == {s, r} for to, frm, _ in w.sent))
    env.cover('end')


def core_contract(env, w, s0, r0, mods):
    """iknp_core by its contract (harness iknp)"""
    def iknp_core(choice, sender, receiver, n):
        env.prove('the transfer runs between the parties of the caller', {sender, receiver} == {s0, r0})
        c = w.local(choice, receiver)
        k = w.fresh()
        def cij(i, j):
            return c.at(i) if c.ndim == 1 else c.at(i, 0 if c.shape[1] == 1 else j)
        env.prove('as many choices as transfers', c.shape[0] == n and (c.ndim == 1 or c.shape[1] in (1, 128)), c.shape)
        S = Arr((128,), lambda j: atom('s', k, j), np.uint8)
        Q = Arr((n, 128), lambda i, j: atom('q', k, i, j), np.uint8)
        T = Arr((n, 128), lambda i, j: Q.at(i, j) ^ t.as_x(cij(i, j)) * S.at(j), np.uint8)
        return G({sender: T}), G({receiver: Q}), G({sender: S})
    for m in mods:
        env.patch(m, 'iknp_core', iknp_core)


def vec_hash(a, domain_sep, num_rows):
    if a.shape[0] != num_rows:
        raise Refused('another number of rows')
    return Arr((num_rows, 32), lambda i, b: fun('vec_hash', domain_sep, a.row(i), b), np.uint8)


def h_extension(env):
    """Extended transfer of any number of rows of up to 32 bytes: the receiver gets the chosen row, and the sender's masks of a row are two different hashes."""
    w, d = ghost(env, extension)
    s, r = roles(env)
    N, ix = size(env, s)
    core_contract(env, w, s, r, [extension])
    env.patch(extension, 'vec_hash', vec_hash)
    D = env.choice('width', [16, 1, 31, 32])
    m0 = G({s: Arr((N, D), lambda i, b: atom('m0', i, b), np.uint8)})
    m1 = G({s: Arr((N, D), lambda i, b: atom('m1', i, b), np.uint8)})
    c = G({r: Arr((N,), lambda i: bit('c', i), np.uint8)})
    k = run(env, extension.transfer_extension, m0, m1, c, s, r, N)
    env.prove('succeeds', k[0] == 'ok', k)
    env.prove('at the receiver only', set(k[1].vals) == {r})
    out = k[1].vals[r]
    env.prove('shape', out.shape == (N, D), out.shape)
    x = bit('c', ix)
    for b in range(D):
        env.prove('the chosen row', out.at(ix, b) == x * atom('m1', ix, b) ^ (x ^ ONE) * atom('m0', ix, b), out.at(ix, b))
    env.cover('end')


# ---- VOLE ----
def h_vole(env):
    """Gilboa: w = v + u * delta over GF(2^128), for every u of any length and every delta; each share at its party."""
    w, d = ghost(env, gilboa)
    s, r = roles(env)
    N, ix = size(env, s, few=True)
    env.patch(gilboa, 'ot', types.SimpleNamespace(iknp_core=None))
    core_contract(env, w, s, r, [gilboa.ot])
    made = {'u': 0, 'delta': 0}

    def fresh(name, shape):
        made[name] += 1
        c = made[name]
        return Arr(shape, lambda *i: atom(name, c, *i), np.uint64)
    secrets = env.choice('return_secrets', [True, False])
    k = run(env, lambda: gilboa.vole(s, r, N, lambda: fresh('u', (N, 2)), lambda: fresh('delta', (2,)), return_secrets=secrets))
    env.prove('succeeds', k[0] == 'ok', k)
    env.prove('results', len(k[1]) == (4 if secrets else 2))
    V, W = k[1][:2]
    env.prove('v at the sender, w at the receiver', set(V.vals) == {s} and set(W.vals) == {r})
    uc, dc = 1, 1
    if secrets:
        env.prove('u at the sender, delta at the receiver', set(k[1][2].vals) == {s} and set(k[1][3].vals) == {r}, k)
        uu, dd = k[1][2].vals[s].at(ix, 0).atom(), k[1][3].vals[r].at(0).atom()
        env.prove('u and delta are provided ones', uu is not None and uu[0] == 'u' and dd is not None and dd[0] == 'delta', (uu, dd))
        uc, dc = uu[1], dd[1]
        for h in (0, 1):
            env.prove('u and delta are provided ones', k[1][2].vals[s].at(ix, h) == atom('u', uc, ix, h) and k[1][3].vals[r].at(h) == atom('delta', dc, h))
    else:
        env.prove('the secrets are drawn once', made == {'u': 1, 'delta': 1}, made)
    V, W = V.vals[s], W.vals[r]
    env.prove('shapes', V.shape == (N, 2) and W.shape == (N, 2), (V.shape, W.shape))
    for h in (0, 1):
        want = ZERO
        for n in range(128):
            word, rest = divmod(n, 64)
            want = want ^ bit('bit', ('byte', ('delta', dc, word), rest // 8), rest % 8) * fun('times x^', (atom('u', uc, ix, 0), atom('u', uc, ix, 1)), n, h)
        env.prove('w = v + u * delta', V.at(ix, h) ^ W.at(ix, h) == want)
        env.prove('v is pseudorandom', len(V.at(ix, h).m) >= 128)
    for to, frm, x in w.sent:
        env.prove('parties send to each other only', {to, frm} == {s, r})
    env.cover('end')


# ---- OPRF ----
def h_oprf(env):
    """The sender's evaluation of an item at a row equals the receiver's output exactly if it is the receiver's item (up to hash collisions)."""
    w, d = ghost(env, oprf)
    s, r = roles(env)
    N, ix = size(env, s)
    env.patch(oprf, 'ot_extension', types.SimpleNamespace(iknp_core=None, vec_hash=vec_hash))
    core_contract(env, w, s, r, [oprf.ot_extension])
    x = G({r: Arr((N, 16), lambda i, b: atom('x', i, b), np.uint8)})
    k = run(env, oprf.eval_oprf, x, s, r, N)
    env.prove('succeeds', k[0] == 'ok', k)
    key, out = k[1]
    env.prove('outputs at the receiver only', set(out.vals) == {r})
    o = out.vals[r].at(ix, 0).atom()
    env.prove('a hash of the row', out.vals[r].shape == (N, 32) and o is not None and o[0] == 'vec_hash', o)
    same = env.choice('item', ['same', 'other'])
    y = Arr((N, 16), lambda i, b: atom('x' if same == 'same' else 'y', i, b), np.uint8)
    k = run(env, oprf.sender_eval_prf_batch, key, G({s: y}), s, N)
    env.prove('evaluates', k[0] == 'ok', k)
    env.prove('at the sender only', set(k[1].vals) == {s})
    e = k[1].vals[s]
    if same == 'same':
        for b in range(32):
            env.prove('the same output', e.at(ix, b) == out.vals[r].at(ix, b), e.at(ix, b))
    else:
        rows = []
        env.patch(oprf.ot_extension, 'vec_hash', lambda a, domain_sep, num_rows: rows.append((a, domain_sep)) or vec_hash(a, domain_sep, num_rows))
        w2 = run(env, oprf.sender_eval_prf_batch, key, G({s: y}), s, N)
        a, ds = rows[0]
        env.prove('hashed alike', ds == o[1], (ds, o[1]))
        mine = o[2]
        for b in range(16):
            p, q = a.at(ix, b), mine[b]
            for n in range(8):
                df = p.b[n] ^ q.b[n]
                sj = [m for _, m in df.m]
                k0 = bit('bit', ('x', ix, b), 7 - n) ^ bit('bit', ('y', ix, b), 7 - n)
                env.prove('differs where the items do, by a bit of the secret', len(set(sj)) == 1 and sj[0][0] == 's' and df == k0 * X([(frozenset(), sj[0])]), df)
    env.cover('end')


# ---- the real thing ----
def sim(env, n=3):
    from mplang.backends import load_builtins
    from mplang.edsl.context import push_context
    load_builtins()
    return pyvc.nospu.cluster(n)


def real(env):
    from mplang.dialects import simp
    import mplang as mp
    from mplang.edsl.context import push_context, pop_context
    I = sim(env)
    put = lambda r, v: simp.constant((r,), np.asarray(v))
    def get(o, r):
        v = mp.fetch(o, follow_device=False)
        env.prove('at one party only', [i for i, x in enumerate(v) if x is not None] == [r], v)
        return np.asarray(v[r])
    return I, put, get


def parties(g):
    s, r = g.sample(range(3), 2)
    return s, r


class ctx:
    def __init__(self, I): self.I = I
    def __enter__(self):
        from mplang.edsl.context import push_context
        push_context(self.I)
    def __exit__(self, *a):
        from mplang.edsl.context import pop_context
        pop_context()


def h_real_transfer(env):
    """Real transfers between parties of a real cluster: the chosen messages."""
    I, put, get = real(env)
    g = env.rng
    s, r = parties(g)
    n = g.choice([1, 2, 3, 5])
    dt = g.choice([np.int64, np.int32, np.uint8, np.float64])
    m0, m1 = [np.array([g.randint(0, 200) for _ in range(n)], dtype=dt) for _ in '01']
    b = np.array([g.randint(0, 1) for _ in range(n)], dtype=g.choice([np.int64, np.uint8]))
    env.inputs.update(sender=s, receiver=r, m0=m0.tolist(), m1=m1.tolist(), b=b.tolist(), dtype=str(dt))
    with ctx(I):
        k = env.run(lambda: get(base.transfer(put(s, m0), put(s, m1), put(r, b), s, r), r))
    env.prove('the chosen messages', k[0] == 'ok' and k[1].tolist() == np.where(b == 1, m1, m0).tolist(), k)


def h_real_ideal(env):
    """The callers of IKNP on real back ends with the matrices dealt: transfers of any width, VOLE, OPRF."""
    I, put, get = real(env)
    g = env.rng
    s, r = parties(g)
    rs = np.random.RandomState(g.randrange(1 << 30))
    import mplang as mp

    def dealt(choice, sender, receiver, n):
        c = np.asarray(mp.fetch(choice, follow_device=False)[receiver])
        c = c.reshape(n, -1)
        S = rs.randint(0, 2, 128).astype(np.uint8)
        Q = rs.randint(0, 2, (n, 128)).astype(np.uint8)
        return put(sender, Q ^ (c * S).astype(np.uint8)), put(receiver, Q), put(sender, S)
    env.patch(extension, 'iknp_core', dealt)
    what = g.choice(['rows', 'vole', 'vole', 'oprf', 'oprf one'])
    n = g.choice([1, 2, 3, 7, 8, 9, 130])
    env.inputs.update(what=what, n=n, sender=s, receiver=r)
    with ctx(I):
        if what == 'rows':
            D = g.choice([1, 16, 31, 32])
            m0, m1 = [rs.randint(0, 256, (n, D)).astype(np.uint8) for _ in '01']
            b = rs.randint(0, 2, n).astype(np.uint8)
            k = env.run(lambda: get(extension.transfer_extension(put(s, m0), put(s, m1), put(r, b), s, r, n), r))
            env.prove('the chosen rows', k[0] == 'ok' and np.array_equal(k[1], np.where(b[:, None] == 1, m1, m0)), k)
        elif what == 'vole':
            n = min(n, 9)
            u64 = lambda *sh: rs.randint(0, 1 << 62, sh).astype(np.uint64) * np.uint64(4) + rs.randint(0, 4, sh).astype(np.uint64)
            full, top = (1 << 64) - 1, 1 << 63
            dl = g.choice([lambda: np.array(g.choice([[0, 0], [1, 0], [full, full], [0, top], [top, 0], [full, 0]]), dtype=np.uint64), lambda: u64(2), lambda: u64(2)])
            from mplang.dialects import tensor
            k = env.run(lambda: gilboa.vole(s, r, n, lambda: tensor.constant(u64(n, 2)), lambda: tensor.constant(dl()), return_secrets=True))
            env.prove('succeeds', k[0] == 'ok', k)
            v, w_, u_, d_ = k[1]
            v, w_, u_, d_ = get(v, s), get(w_, r), get(u_, s), get(d_, r)
            env.prove('shapes', u_.shape == (n, 2) and d_.shape == (2,), (u_.shape, d_.shape))
            check_vole(env, v, w_, u_, d_)
        else:
            x = rs.randint(0, 256, (n, 16)).astype(np.uint8)
            y = x.copy()
            m = g.choice([n, max(1, n - 1), n + 2])
            if m > n:
                y = np.concatenate([y, rs.randint(0, 256, (m - n, 16)).astype(np.uint8)])
            y = y[:m]
            ne = [i for i in range(min(m, n)) if g.random() < .5]
            for i in ne:
                y[i] ^= rs.randint(1, 256, 16).astype(np.uint8)
            k = env.run(lambda: oprf.eval_oprf(put(r, x), s, r, n))
            env.prove('succeeds', k[0] == 'ok', k)
            key, out = k[1]
            out = get(out, r)
            env.prove('shape', out.shape == (n, 32), out.shape)
            if what == 'oprf':
                e = env.run(lambda: get(oprf.sender_eval_prf_batch(key, put(s, y), s, m), s))
                env.prove('evaluates', e[0] == 'ok' and e[1].shape == (m, 32), e)
                for i in range(min(m, n)):
                    env.prove('equal exactly for the same item', np.array_equal(e[1][i], out[i]) == (i not in ne), i)
            else:
                e = env.run(lambda: get(oprf.sender_eval_prf(key, put(s, y[0]), s), s))
                env.prove('evaluates', e[0] == 'ok' and e[1].size == 32, e)
                env.prove('equal exactly for the same item', np.array_equal(e[1].reshape(-1), out[0]) == (0 not in ne), (ne, e[1], out[0]))


def h_close(env):
    """Items that differ in one bit only are told apart."""
    I, put, get = real(env)
    rs = np.random.RandomState(3)
    S = rs.randint(0, 2, 128).astype(np.uint8)
    import mplang as mp

    def dealt(choice, sender, receiver, n):
        c = np.asarray(mp.fetch(choice, follow_device=False)[receiver])
        Q = rs.randint(0, 2, (n, 128)).astype(np.uint8)
        return put(sender, Q ^ (c * S).astype(np.uint8)), put(receiver, Q), put(sender, S)
    env.patch(extension, 'iknp_core', dealt)
    x = rs.randint(0, 256, (8, 16)).astype(np.uint8)
    y = x.copy()
    for i in range(8):
        y[i, i] ^= 1 << (7 - i)
    with ctx(I):
        k = env.run(lambda: oprf.eval_oprf(put(1, x), 0, 1, 8))
        env.prove('succeeds', k[0] == 'ok', k)
        key, out = k[1]
        out = get(out, 1)
        e = env.run(lambda: get(oprf.sender_eval_prf_batch(key, put(0, y), 0, 8), 0))
    env.prove('evaluates', e[0] == 'ok', e)
    eq = [bool(np.array_equal(e[1][i], out[i])) for i in range(8)]
    env.inputs.update(changed_bit=[9 * i for i in range(8)], secret_bit=[int(S[9 * i]) for i in range(8)], equal=eq)
    env.prove('apart where the secret has the bit', not any(q and S[9 * i] for i, q in enumerate(eq)), eq)
    env.prove('apart whatever the secret', not any(eq), f'{eq}: equal where the bit of the secret is 0')


def gf_mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        b >>= 1
        a <<= 1
        if a >> 128:
            a ^= (1 << 128) | 0x87
    return r


def big(p): return int(p[0]) | int(p[1]) << 64


def check_vole(env, v, w, u, d):
    env.prove('shapes', v.shape == w.shape == u.shape, (v.shape, w.shape, u.shape))
    for i in range(len(u)):
        env.prove('w = v + u * delta', big(w[i]) ^ big(v[i]) == gf_mul(big(u[i]), big(d)), i)


def h_real_silent(env):
    """Silent VOLE on real back ends over a dealt base: w = v + u * delta for every length, across chunks."""
    I, put, get = real(env)
    g = env.rng
    s, r = parties(g)
    rs = np.random.RandomState(g.randrange(1 << 30))
    u64 = lambda *sh: rs.randint(0, 1 << 62, sh).astype(np.uint64) * np.uint64(4) + rs.randint(0, 4, sh).astype(np.uint64)

    def dealt(sender, receiver, n, up, dp, return_secrets=False):
        U, D, V = u64(n, 2), u64(2), u64(n, 2)
        W = V.copy()
        for i in range(n):
            p = gf_mul(big(U[i]), big(D))
            W[i] ^= np.array([p & (1 << 64) - 1, p >> 64], dtype=np.uint64)
        r_ = put(sender, V), put(receiver, W), put(sender, U), put(receiver, D)
        return r_ if return_secrets else r_[:2]
    env.patch(gilboa, 'vole', dealt)
    n = g.choice([1, 127, 128, 129, 1000, 100000, 100001, 200003, 150000, 102400])
    kk = g.choice([1, 2, 8, 16] if n > 1000 else [8, 64, 1024])
    env.inputs.update(n=n, base_k=kk, sender=s, receiver=r)
    with ctx(I):
        k = env.run(lambda: silent.silent_vole_random_u(s, r, n, base_k=kk))
        env.prove('succeeds', k[0] == 'ok', k)
        v, w, u, d = k[1]
        v, w, u, d = get(v, s), get(w, r), get(u, s), get(d, r)
    env.prove('as many as asked', v.shape == w.shape == u.shape == (n, 2), (v.shape, n))
    pick = sorted({0, n - 1, *[g.randrange(n) for _ in range(60)], *[x for x in (99999, 100000, 100001, 199999, 200000) if x < n]})
    check_vole(env, v[pick], w[pick], u[pick], d)
    if n > 101000:
        env.prove('positions of different chunks are independent', not np.array_equal(u[:1000], u[100000:101000]), n)
    if kk >= 64 and n >= 127:
        env.prove('u is not constant', len(np.unique(u[:, 0])) > 10)


def h_real_square(env):
    """The whole of IKNP on real back ends with as many transfers as columns."""
    h_real_iknp(env, 128, True)


def h_real_iknp(env, n=None, entries=None):
    """The whole of IKNP on real back ends: the matrices, for choices by row and by entry."""
    I, put, get = real(env)
    g = env.rng
    s, r = parties(g)
    rs = np.random.RandomState(g.randrange(1 << 30))
    n = n or g.choice([1, 3, 129, 256])
    entries = g.random() < .5 if entries is None else entries
    c = rs.randint(0, 2, (n, 128) if entries else n).astype(np.uint8)
    env.inputs.update(n=n, sender=s, receiver=r, choices=list(c.shape))
    with ctx(I):
        k = env.run(lambda: extension.iknp_core(put(r, c), s, r, n))
        env.prove('succeeds', k[0] == 'ok', k)
        T, Q, S = get(k[1][0], s), get(k[1][1], r), get(k[1][2], s)
    env.prove('shapes', T.shape == Q.shape == (n, 128) and S.shape == (128,), (T.shape, Q.shape, S.shape))
    env.prove('bits', set(np.unique(T)) | set(np.unique(Q)) | set(np.unique(S)) <= {0, 1})
    env.prove('correlated', np.array_equal(T ^ Q, (c if c.ndim == 2 else c[:, None]) * S[None, :]))
    env.prove('s and Q are random', 20 < S.sum() < 108 and 0.2 < Q.mean() < 0.8)


def h_real_hash(env):
    """Hashing rows is hashing each by itself with the domain; expansion of seeds is row by row and consistent for every length."""
    I, put, get = real(env)
    import hashlib
    from mplang.dialects import simp
    g = env.rng
    rs = np.random.RandomState(g.randrange(1 << 30))
    n, D, ds = g.choice([1, 2, 5]), g.choice([1, 16, 128]), g.choice([0, 1, 0x1111, 1 << 40])
    a = rs.randint(0, 256, (n, D)).astype(np.uint8)
    with ctx(I):
        k = env.run(lambda: get(simp.pcall_static((0,), lambda x: extension.vec_hash(x, ds, n), put(0, a)), 0))
        env.prove('the hash of each row with the domain', k[0] == 'ok' and [bytes(x) for x in k[1]] ==
                  [hashlib.sha256((ds.to_bytes(8, 'little') if ds else b'') + bytes(x)).digest() for x in a], k)
        seeds = rs.randint(0, 256, (3, 32)).astype(np.uint8)
        seeds[2] = seeds[0]
        n1, n2 = sorted(g.sample([1, 2, 127, 128, 129, 300], 2))
        e = [env.run(lambda: get(simp.pcall_static((0,), lambda x: extension.prg_expand(x, n), put(0, seeds)), 0)) for n in (n1, n2)]
        env.prove('expands', all(x[0] == 'ok' for x in e), e)
        x, y = e[0][1], e[1][1]
        env.prove('to bits, as many as asked', x.shape == (3, n1) and y.shape == (3, n2) and set(np.unique(y)) <= {0, 1}, (x.shape, y.shape))
        env.prove('equal seeds give equal rows, others do not', np.array_equal(y[0], y[2]) and (n2 < 127 or not np.array_equal(y[0], y[1])))
        env.prove('a shorter expansion is a prefix', np.array_equal(x, y[:, :n1]))


def harnesses():
    L = dict(conc=0)
    return [
        H('transfer', h_transfer, functions=['ot.base.transfer', '_receiver_keygen_scalar', '_sender_derive_keys', '_receiver_derive_key'], **L),
        H('iknp', h_iknp, functions=['iknp_core'], **L),
        H('extension', h_extension, functions=['transfer_extension'], **L),
        H('vole', h_vole, functions=['vole', '_sender_round', '_recv_round'], **L),
        H('oprf', h_oprf, functions=['eval_oprf', 'sender_eval_prf_batch'], **L),
        H('real-transfer', h_real_transfer, sym=False, conc=40, conc_s=15, functions=['ot.base.transfer']),
        H('real-callers', h_real_ideal, sym=False, conc=50, conc_s=60, functions=['transfer_extension', 'vole', 'eval_oprf', 'sender_eval_prf_batch', 'sender_eval_prf']),
        H('close-items', h_close, sym=False, conc=1, conc_s=20, functions=['eval_oprf', 'sender_eval_prf_batch']),
        H('real-silent', h_real_silent, sym=False, conc=20, conc_s=40, functions=['silent_vole_random_u']),
        H('real-iknp', h_real_iknp, sym=False, conc=2, conc_s=30, functions=['iknp_core']),
        H('real-iknp-square', h_real_square, sym=False, conc=1, conc_s=30, functions=['iknp_core']),
        H('real-hash', h_real_hash, sym=False, conc=30, conc_s=20, functions=['vec_hash', 'prg_expand']),
    ]
