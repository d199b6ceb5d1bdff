"""C27 Private set intersection, oblivious permutation and group-by return exactly the right result.

Symbolic: rr22.psi_intersect and unbalanced.psi_unbalanced over terms of GF(2^128), with silent VOLE (C26) and OKVS (C17) by their
contracts; group-by by shuffle over values that are linear forms of the data.  Bounded: the switching network on every permutation of up
to 8 elements.  Concrete: all of them on real simulated clusters.
"""
import itertools
import types
import numpy as np
import vp_without_spu
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
import pyvc.nospu
from pyvc import core
from pyvc.worker import H
from mplang.dialects import bfv, crypto, field, simp, tensor
from mplang.edsl.object import Object
import mplang.edsl.typing as elt
import mplang.libs.mpc.ot.base as base
import mplang.libs.mpc.ot.extension as extension
import mplang.libs.mpc.ot.silent as silent
import mplang.libs.mpc.psi.rr22 as rr22
import mplang.libs.mpc.psi.unbalanced as unbalanced
import mplang.libs.mpc.analytics.permutation as permutation
import mplang.libs.mpc.analytics.groupby as groupby
from pyvc import xorterm as t
from specs.C26 import real, ctx, gf_mul, big, World, G, Refused, run

INSTRUMENT = []
ASSUMPTIONS = [
    'AES expansion, SHA-256 and values decoded from an OKVS at keys outside its set do not collide (unequal terms are unequal)',
    'OKVS: solving succeeds and decoding is linear in the table (property C17); silent VOLE: w = v + u * delta (property C26)',
    'group-by by shuffle: applying a permutation is its contract (harnesses network, bounded, and real-permutation); 64-bit wrap-around is a ring',
    'an OKVS may refuse a set under a seed (the runs retry with another); items of a set are distinct, data are one-dimensional, BFV sums stay within the plain modulus',
]
TRUSTED = ['terms of GF(2^128), words and sums (specs/C27.py, pyvc/xorterm.py)', 'jax.ops.segment_sum over terms: a sum over all i is the sum over a permutation of i']


def u64(rs, *sh): return rs.randint(0, 1 << 62, sh).astype(np.uint64) * np.uint64(4) + rs.randint(0, 4, sh).astype(np.uint64)


def dealt_vole(rs, put):
    def vole(sender, receiver, n, base_k=1024):
        U, D, V = u64(rs, n, 2), u64(rs, 2), u64(rs, n, 2)
        W = V.copy()
        for i in range(n):
            p = gf_mul(big(U[i]), big(D))
            W[i] ^= np.array([p & (1 << 64) - 1, p >> 64], dtype=np.uint64)
        return put(sender, V), put(receiver, W), put(sender, U), put(receiver, D)
    return vole


def items(g, rs, n, m):
    """two sets of sizes n and m, with any overlap and items close to each other"""
    pool = g.choice([lambda: [int(x) for x in u64(rs, n + m)], lambda: list(range(n + m)), lambda: [(1 << 64) - 1 - i for i in range(n + m)], lambda: [i << 32 for i in range(n + m)]])()
    pool = list(dict.fromkeys(pool))
    while len(pool) < n + m:
        pool = list(dict.fromkeys(pool + [int(u64(rs, 1)[0])]))
    g.shuffle(pool)
    a = pool[:n]
    k = g.choice([0, min(n, m), g.randint(0, min(n, m)), min(1, n, m)])
    b = g.sample(a, k) + pool[n:n + m - k]
    g.shuffle(b)
    return np.array(a, dtype=np.uint64), np.array(b, dtype=np.uint64)


def attempt(env, f):
    """OKVS hashing may refuse a set for a seed (a run in a thousand): a protocol that keeps refusing is broken"""
    for _ in range(4):
        k = env.run(f)
        if k[0] == 'ok' or 'peel' not in str(k[1]):
            break
    return k


def h_real_rr22(env):
    """Intersections by RR22 on real back ends over a dealt VOLE: exactly the common items are marked, at the receiver only."""
    I, put, get = real(env)
    g = env.rng
    rs = np.random.RandomState(g.randrange(1 << 30))
    s, r = g.sample(range(3), 2)
    env.patch(silent, 'silent_vole_random_u', dealt_vole(rs, put))
    n = g.choice([1, 2, 3, 5, 8, 20, 60])
    x, y = items(g, rs, n, n)
    env.inputs.update(n=n, sender=s, receiver=r, x=x.tolist(), y=y.tolist())
    with ctx(I):
        k = attempt(env, lambda: get(rr22.psi_intersect(s, r, n, put(s, x), put(r, y)), r))
    env.prove('exactly the common items', k[0] == 'ok' and k[1].tolist() == [int(v in set(x.tolist())) for v in y.tolist()], k)


def h_real_whole(env):
    """RR22 with nothing replaced, from base transfers on."""
    I, put, get = real(env)
    g = env.rng
    rs = np.random.RandomState(g.randrange(1 << 30))
    s, r = g.sample(range(3), 2)
    x, y = items(g, rs, 6, 6)
    env.inputs.update(sender=s, receiver=r, x=x.tolist(), y=y.tolist())
    with ctx(I):
        k = attempt(env, lambda: get(rr22.psi_intersect(s, r, 6, put(s, x), put(r, y)), r))
    env.prove('exactly the common items', k[0] == 'ok' and k[1].tolist() == [int(v in set(x.tolist())) for v in y.tolist()], k)


def h_real_unbalanced(env):
    """Unbalanced intersections on real back ends: exactly the common items are marked, at the client only."""
    I, put, get = real(env)
    g = env.rng
    rs = np.random.RandomState(g.randrange(1 << 30))
    s, r = g.sample(range(3), 2)
    n, m = g.choice([1, 2, 3, 10, 150, 200, 201, 1500]), g.choice([1, 2, 3, 7, 50, 300, 20000])
    x, y = items(g, rs, n, m)
    env.inputs.update(n=n, m=m, server=s, client=r, x=x.tolist()[:50], y=y.tolist()[:50])
    with ctx(I):
        k = attempt(env, lambda: get(unbalanced.psi_unbalanced(s, r, n, m, put(s, x), put(r, y)), r))
    env.prove('exactly the common items', k[0] == 'ok' and k[1].tolist() == [int(v in set(x.tolist())) for v in y.tolist()], k)


def h_real_perm(env):
    """Oblivious permutation on real back ends: output i is the data at permutation[i], for tensors and lists."""
    I, put, get = real(env)
    g = env.rng
    s, r = g.sample(range(3), 2)
    n = g.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17])
    dt = g.choice([np.int64, np.int32, np.float64, np.uint8])
    d = np.array([g.randint(0, 200) for _ in range(n)], dtype=dt)
    p = list(range(n))
    g.shuffle(p)
    pt = g.choice([np.int64, np.int32])
    as_list = g.random() < .3
    env.inputs.update(sender=s, receiver=r, data=d.tolist(), dtype=str(dt), perm=p, perm_dtype=str(pt), as_list=as_list)
    with ctx(I):
        if as_list:
            k = env.run(lambda: [get(e, r).item() for e in permutation.apply_permutation([put(s, e) for e in d], put(r, np.array(p, dtype=pt)), s, r)])
        else:
            k = env.run(lambda: get(permutation.apply_permutation(put(s, d), put(r, np.array(p, dtype=pt)), s, r), r).tolist())
    env.prove('permuted', k[0] == 'ok' and k[1] == d[p].tolist(), k)


def h_real_shuffle(env):
    """Group-by by shuffle on real back ends: the sum of each bin, at the receiver."""
    I, put, get = real(env)
    g = env.rng
    s, r, h = g.sample(range(3), 3)
    n, K = g.choice([1, 2, 3, 5, 8, 11]), g.choice([1, 2, 3, 7])
    d = np.array([g.choice([g.randint(-100, 100), g.randint(-(1 << 40), 1 << 40)]) for _ in range(n)], dtype=np.int64)
    b = np.array([g.randrange(K) for _ in range(n)], dtype=g.choice([np.int64, np.int32]))
    env.inputs.update(sender=s, receiver=r, helper=h, data=d.tolist(), bins=b.tolist(), K=K)
    with ctx(I):
        k = env.run(lambda: get(groupby.oblivious_groupby_sum_shuffle(put(s, d), put(r, b), K, s, r, h), r))
    env.prove('the sum of each bin', k[0] == 'ok' and k[1].tolist() == [int(d[b == j].sum()) for j in range(K)], k)


def h_real_bfv(env):
    """Group-by under BFV on real back ends: the sum of each bin, at the receiver, across chunks and for bins that are empty."""
    I, put, get = real(env)
    g = env.rng
    s, r = g.sample(range(3), 2)
    n, K = g.choice([1, 2, 3, 9, 2047, 2048, 2049, 4096, 5000]), g.choice([1, 2, 3, 4])
    d = np.array([g.randint(-100, 100) for _ in range(n)], dtype=g.choice([np.int64, np.int32]))
    b = np.array([g.randrange(K) for _ in range(n)], dtype=g.choice([np.int64, np.int32, np.uint8]))
    env.inputs.update(sender=s, receiver=r, n=n, data=d.tolist()[:50], bins=b.tolist()[:50], K=K, dtypes=[str(d.dtype), str(b.dtype)])
    with ctx(I):
        k = env.run(lambda: get(groupby.oblivious_groupby_sum_bfv(put(s, d), put(r, b), K, s, r), r))
    env.prove('the sum of each bin', k[0] == 'ok' and k[1].reshape(-1).tolist() == [int(d[b == j].sum()) for j in range(K)], k)


# ---- terms ----
class Size:
    """a number of items, known to be positive only"""
    _vf_ok = True

    def __init__(self, env, name): self.env, self.name = env, name
    def __hash__(self): return hash(self.name)
    def __eq__(self, o): return isinstance(o, Size) and self.name == o.name
    def __repr__(self): return self.name
    def _op(self, op, o): return Size(self.env, f'({self.name} {op} {o!r})')
    def __mul__(self, o): return self._op('*', o)
    __rmul__ = __mul__
    def __add__(self, o): return self._op('+', o)
    def __sub__(self, o): return self._op('-', o)
    def __floordiv__(self, o): return self._op('//', o)
    def __mod__(self, o): return self.env.choice(f'{self.name} % {o}', [0, 1])
    def __le__(self, o): return o > 0 and self.env.choice(f'{self.name} <= {o}', [True, False])
    def __lt__(self, o): return o > 1 and self.env.choice(f'{self.name} < {o}', [True, False])
    def __gt__(self, o): return not self <= o
    def __ge__(self, o): return not self < o


def to_int(x): return x if isinstance(x, Size) else int(x)


class W:
    """a word, by the operations that made it"""
    _vf_ok = True

    def __init__(self, *t): self.t = t
    def __hash__(self): return hash(self.t)
    def __eq__(self, o): return isinstance(o, W) and self.t == o.t
    def __repr__(self): return f'W{self.t}'
    def _op(self, op, o): return W(op, *sorted((self, o if isinstance(o, W) else int(o)), key=repr))
    def __add__(self, o): return self._op('+', o)
    def __xor__(self, o): return self._op('^', o)


class E:
    """an element of GF(2^128): a polynomial over GF(2) in elements nothing is known of"""
    _vf_ok = True

    def __init__(self, m): self.m = frozenset(m)
    def __hash__(self): return hash(self.m)
    def __eq__(self, o): return isinstance(o, E) and self.m == o.m
    def __repr__(self): return 'E' + repr(sorted(self.m, key=repr))[:200]
    def __xor__(self, o): return E(self.m ^ o.m)

    def __mul__(self, o):
        r = set()
        for a in self.m:
            for b in o.m:
                r ^= {tuple(sorted(a + b, key=repr))}
        return E(r)


def el(*t): return E([(t,)])


class Half:
    """a word of an element"""
    _vf_ok = True

    def __init__(self, e, h): self.e, self.h = e, h
    def __hash__(self): return hash((self.e, self.h))
    def __eq__(self, o): return isinstance(o, Half) and (self.e, self.h) == (o.e, o.h)
    def __repr__(self): return f'{self.e}.{self.h}'
    def __xor__(self, o):
        if isinstance(o, Half) and o.h == self.h:
            return Half(self.e ^ o.e, self.h)
        raise core.Unsupported('words of different elements')


def element(row):
    if len(row) == 2 and all(isinstance(x, Half) for x in row) and row[0].e == row[1].e and (row[0].h, row[1].h) == (0, 1):
        return row[0].e
    return el('pair', *row)


def word(x): return x.atom() if isinstance(x, t.X) and x.atom() is not None else x


def same(a, b):
    """words are compared by their terms: unequal terms are unequal up to collisions of AES and SHA-256"""
    for x in (a, b):
        if not isinstance(x, (W, Half)) and word(x) is x and not (isinstance(x, t.X) and x in (t.ONE, t.ZERO)):
            raise core.Unsupported(f'comparison of {x!r}'[:100])
    return t.ONE if a == b else t.ZERO


class Jnp(t.Jnp):
    _vf_ok = True

    def stack(self, xs, axis=0):
        if len(xs) == 2 and xs[0].ndim == 1 and axis in (1, -1):
            return t.Arr((*xs[0].shape, 2), lambda i, h: Half(el('pair', xs[0].at(i), xs[1].at(i)), h), np.uint64)
        return super().stack(xs, axis)

    def argsort(self, a, stable=True): return t.Arr(a.shape, lambda i: ('pi', i), np.int64)


JJ = Jnp()


def okvs_world(env, *mods):
    w = World()
    made = {}

    def random_tensor(shape, typ):
        k = w.fresh()
        return t.Arr(tuple(shape), lambda *i: W('random', k, *i), np.uint64)

    def aes_expand(seeds, n): return t.Arr((seeds.shape[0], n, 2), lambda r, m, h: Half(el('aes', element(seeds.row(r)), m), h), np.uint64)

    def rows2(op, a, b):
        sh = t.bshape(a.shape, b.shape)
        if len(sh) != 2 or sh[1] != 2:
            raise core.Unsupported('shape')
        def row(x, i): return element(x.row(0 if x.shape[0] == 1 else i))
        return t.Arr(sh, lambda i, h: Half(op(row(a, i), row(b, i)), h), np.uint64)

    def solve_okvs(keys, values, m, seed):
        if keys.shape[0] != values.shape[0]:
            raise Refused('as many values as keys')
        k = w.fresh()
        made[k] = (keys, values, seed.row())
        return t.Arr((m, 2), lambda j, h: Half(el('P', k, j), h), np.uint64)

    def decode_okvs(keys, table, seed):
        """linear in the table; at a key of the set it was solved for, the value"""
        def f(i, h):
            key, r = keys.at(i), E([])
            for mono in element(table.row('j')).m:
                rest = tuple(a for a in mono if a[-1] != 'j')
                here = [a for a in mono if a[-1] == 'j']
                if len(here) != 1:
                    raise core.Unsupported('a table that is not linear in its rows')
                a = here[0]
                v = None
                if a[0] == 'P':
                    ks, vs, sd = made[a[1]]
                    for b in env.vf_index:
                        if ks.at(b) == key and sd == seed.row():
                            v = element(vs.row(b))
                v = v if v is not None else el('decoded', a[:-1], key, seed.row())
                r = r ^ (E([rest]) * v if rest else v)
            return Half(r, h)
        return t.Arr((keys.shape[0], 2), f, np.uint64)

    def vec_hash(a, domain_sep, num_rows):
        env.prove('hashes all the rows', a.shape[0] == num_rows, (a.shape, num_rows))
        return t.Arr((num_rows, 32), lambda i, b: t.atom('vec_hash', domain_sep, a.row(i), b), np.uint8)

    env.patch(t, 'teq', same)
    ns = types.SimpleNamespace
    d = dict(simp=ns(pcall_static=w.pcall_static, shuffle_static=w.shuffle_static), jnp=JJ, elt=elt,
             crypto=ns(random_tensor=random_tensor),
             tensor=ns(run_jax=lambda fn, *a, **k: fn(*a, **k), slice_tensor=lambda x, a, b: x[tuple(map(slice, a, b))], reshape=lambda x, s: x.reshape(s)),
             field=ns(aes_expand=aes_expand, mul=lambda a, b: rows2(lambda x, y: x * y, a, b), add=lambda a, b: rows2(lambda x, y: x ^ y, a, b),
                      solve_okvs=solve_okvs, decode_okvs=decode_okvs))
    for m in mods:
        for k, v in d.items():
            if hasattr(m, k):
                env.patch(m, k, v)
        env.patch(m, 'int', to_int)
    import mplang.dialects as D
    env.patch(crypto, 'random_tensor', random_tensor)
    env.patch(extension, 'vec_hash', vec_hash)
    return w, vec_hash


def psi_items(env):
    """the items of two parties at generic indices a and b, equal or not; every item is at one index of its set only"""
    case = env.choice('items', ['same', 'different'])
    env.vf_index = ['b']
    return case, lambda i: W('y', 'b') if case == 'same' and i == 'a' else W('x', i), lambda i: W('y', i)


def h_rr22(env):
    """RR22: for sets of any size the receiver marks item b exactly if some item a of the sender equals it, and is the only one to learn it."""
    import mplang.libs.mpc.psi.okvs_gct as gct
    w, _ = okvs_world(env, rr22, gct)
    s, r = env.choice('roles', [(0, 1), (1, 0), (2, 5)])
    n = Size(env, 'n')
    case, fx, fy = psi_items(env)

    def vole(sender, receiver, m, base_k=1024):
        env.prove('between the two parties', {sender, receiver} == {s, r})
        U, V = t.Arr((m, 2), lambda j, h: Half(el('u', j), h), np.uint64), t.Arr((m, 2), lambda j, h: Half(el('v', j), h), np.uint64)
        D = t.Arr((2,), lambda h: Half(el('delta'), h), np.uint64)
        Ww = t.Arr((m, 2), lambda j, h: Half(el('v', j) ^ el('u', j) * el('delta'), h), np.uint64)
        return G({sender: V}), G({receiver: Ww}), G({sender: U}), G({receiver: D})
    env.patch(silent, 'silent_vole_random_u', vole)
    k = run(env, rr22.psi_intersect, s, r, n, G({s: t.Arr((n,), fx, np.uint64)}), G({r: t.Arr((n,), fy, np.uint64)}))
    env.prove('succeeds', k[0] == 'ok', k)
    env.prove('at the receiver only', set(k[1].vals) == {r}, k)
    o = k[1].vals[r]
    env.prove('a mark for each item', o.shape == (n,), o.shape)
    m = o.at('b')
    if not isinstance(m, t.Any):
        raise core.Unsupported('marks of another form')
    env.prove('marked by a exactly if equal', m.f('a') == (t.ONE if case == 'same' else t.ZERO), m.f('a'))
    env.prove('parties send to each other only', all({to, frm} == {s, r} for to, frm, _ in w.sent))
    env.cover('end')


def h_unbalanced(env):
    """Unbalanced: for sets of any sizes the client marks an item exactly if it is one of the server's."""
    w, _ = okvs_world(env, unbalanced)
    s, r = env.choice('roles', [(0, 1), (1, 0), (2, 5)])
    n, m = Size(env, 'n'), Size(env, 'm')
    case, fx, fy = psi_items(env)
    k = run(env, unbalanced.psi_unbalanced, s, r, n, m, G({s: t.Arr((n,), fy, np.uint64)}), G({r: t.Arr((m,), fx, np.uint64)}))
    env.prove('succeeds', k[0] == 'ok', k)
    env.prove('at the client only', set(k[1].vals) == {r}, k)
    o = k[1].vals[r]
    env.prove('a mark for each item', o.shape == (m,), o.shape)
    env.prove('marked exactly if common', o.at('a') == (t.ONE if case == 'same' else t.ZERO), o.at('a'))
    env.prove('only the server sends', all((to, frm) == (r, s) for to, frm, _ in w.sent))
    env.cover('end')


class Sums:
    """the sums over i of values, by the bin of i"""
    _vf_ok = True
    def __init__(self, m): self.m = {b: p for b, p in m.items() if p.m}
    def __eq__(self, o): return isinstance(o, Sums) and self.m == o.m
    __hash__ = None
    def __repr__(self): return f'Sums{self.m}'
    def __add__(self, o):
        r = dict(self.m)
        for b, p in o.m.items():
            r[b] = r[b] + p if b in r else p
        return Sums(r)


def h_shuffle(env):
    """Group-by by shuffle: for any data and bins of any length the receiver gets the sum of each bin; nobody but the sender sees a value."""
    w = World()
    s, r, h = env.choice('roles', [(0, 1, 2), (2, 0, 1), (1, 5, 3)])
    n, K = Size(env, 'n'), Size(env, 'K')
    ns = types.SimpleNamespace

    class Bytes:
        _vf_ok = True
        def __init__(self, k, total): self.k, self.total = k, total
        def view(self, ty):
            return Bytes(self.k, self.total) if np.dtype(ty) == np.int64 else _no('view')
        def reshape(self, *sh):
            sh = sh[0] if isinstance(sh[0], tuple) else sh
            env.prove('eight random bytes for each element', self.total == n * 8 and sh == (n,), (self.total, sh))
            return t.Arr((n,), lambda i: t.pvar('mask', self.k, i), np.int64)

    def _no(what): raise core.Unsupported(what)

    def apply(d, p, sender, receiver):
        a, q = w.local(d, sender), w.local(p, receiver)
        if a.shape != q.shape:
            raise Refused('shape')
        env.prove('between sender and receiver', (sender, receiver) == (s, r))
        return G({receiver: t.Arr(a.shape, lambda i: a.at(q.at(i)), a.dtype)})

    def segment_sum(v, b, num_segments=None):
        x, y = v.at('i'), b.at('i')
        idx = {m[-1] for k in x.m for m in k} | {y.t[-1]}
        if idx == {('pi', 'i')}:      # a sum over all i is the sum over all pi(i)
            x, y = t.Poly({tuple((*m[:-1], 'i') for m in k): c for k, c in x.m.items()}), W(*y.t[:-1], 'i')
        return t.Arr((num_segments,), lambda k: Sums({y: x}), np.int64)

    env.patch(groupby, 'simp', ns(pcall_static=w.pcall_static, shuffle_static=w.shuffle_static))
    env.patch(groupby, 'tensor', ns(run_jax=lambda fn, *a, **k: fn(*a, **k)))
    env.patch(groupby, 'crypto', ns(random_bytes=lambda n: Bytes(w.fresh(), n)))
    env.patch(groupby, 'jnp', JJ)
    env.patch(groupby, 'jax', ns(ops=ns(segment_sum=segment_sum)))
    env.patch(groupby, 'permutation', ns(apply_permutation=apply))

    class Typed(t.Arr):
        _vf_ok = True
        type = ns(shape=(n,))
    d = G({s: Typed((n,), lambda i: t.pvar('d', i), np.int64)}, elt.MPType(elt.TensorType(elt.i64, (7,)), (s,)))
    b = G({r: Typed((n,), lambda i: W('bin', i), np.int64)}, elt.MPType(elt.TensorType(elt.i64, (7,)), (r,)))
    k = run(env, groupby.oblivious_groupby_sum_shuffle, d, b, K, s, r, h)
    env.prove('succeeds', k[0] == 'ok', k)
    env.prove('at the receiver only', set(k[1].vals) == {r}, k)
    o = k[1].vals[r]
    env.prove('a sum for each bin', o.shape == (K,), o.shape)
    env.prove('the sum of the data in the bin', o.at('k') == Sums({W('bin', 'i'): t.pvar('d', 'i')}), o.at('k'))
    env.cover('end')


# ---- the switching network, on all permutations ----
def h_network(env):
    """The network applies every permutation of up to 8 elements (and thousands of larger ones), whoever the parties are."""
    n = env.choice('n', list(range(1, 9)) + [13, 16, 31])
    s, r = env.choice('roles', [(0, 1), (2, 0)]) if n < 5 else (1, 0)
    w = World()
    ns = types.SimpleNamespace

    def transfer(m0, m1, c, sender, receiver):
        env.prove('between the two parties', (sender, receiver) == (s, r))
        return G({r: jnp.where(w.local(c, r) == 1, w.local(m1, s), w.local(m0, s))})
    env.patch(permutation, 'simp', ns(pcall_static=w.pcall_static, shuffle_static=w.shuffle_static))
    env.patch(permutation, 'tensor', ns(run_jax=lambda fn, *a, **k: fn(*a, **k), constant=jnp.asarray))
    env.patch(permutation, 'ot', ns(transfer=transfer))
    rs = np.random.RandomState(5)
    P = np.array(list(itertools.permutations(range(n)))) if n <= 8 else np.stack([rs.permutation(n) for _ in range(3000)])
    typ = elt.MPType(elt.TensorType(elt.i64, (n,)), (s,))
    at = []

    def one(p):
        o = permutation.apply_permutation(G({s: jnp.arange(n) * 3 + 1}, typ), G({r: p}, elt.MPType(elt.TensorType(elt.i64, (n,)), (r,))), s, r)
        at.append(set(o.vals))
        return o.vals[r]
    k = run(env, lambda: np.asarray(jax.vmap(one)(P)))
    env.prove('succeeds', k[0] == 'ok', k)
    env.prove('at the receiver only', all(x == {r} for x in at))
    bad = np.nonzero(~(k[1] == P * 3 + 1).all(axis=1))[0] if k[1].shape == P.shape else [0]
    env.prove('output i is the data at permutation[i]', len(bad) == 0, P[bad[0]].tolist() if len(bad) else None)
    env.cover('end')


def harnesses():
    L = dict(conc=0)
    S = [
        H('rr22', h_rr22, functions=['psi_intersect', 'SparseOKVS', 'get_okvs_expansion'], **L),
        H('unbalanced', h_unbalanced, functions=['psi_unbalanced'], **L),
        H('shuffle', h_shuffle, functions=['oblivious_groupby_sum_shuffle'], **L),
        H('network', h_network, functions=['apply_permutation', '_compute_bitonic_sort_controls', 'secure_switch'], unbounded=False, bound='every permutation of up to 8 elements', **L),
    ]
    return S + [
        H('real-rr22', h_real_rr22, sym=False, conc=15, conc_s=40, functions=['psi_intersect']),
        H('real-whole', h_real_whole, sym=False, conc=1, conc_s=40, functions=['psi_intersect', 'silent_vole_random_u', 'vole', 'iknp_core']),
        H('real-unbalanced', h_real_unbalanced, sym=False, conc=30, conc_s=40, functions=['psi_unbalanced']),
        H('real-permutation', h_real_perm, sym=False, conc=30, conc_s=40, functions=['apply_permutation']),
        H('real-shuffle', h_real_shuffle, sym=False, conc=20, conc_s=40, functions=['oblivious_groupby_sum_shuffle']),
        H('real-bfv', h_real_bfv, sym=False, conc=12, conc_s=60, functions=['oblivious_groupby_sum_bfv']),
    ]
