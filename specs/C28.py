"""C28  Curve points form the group they stand for, infinity included."""
import types
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M
from pyvc.sbytes import SBytes, BLOB, BLEN

INSTRUMENT = ['mplang.backends.crypto_impl', 'mplang.runtime.value']
ASSUMPTIONS = ['points are multiples of the generator of a cyclic group of prime order N (secp256k1), known by that multiple; infinity is the value None',
               'coincurve: PublicKey(bytes) reads the compressed and the uncompressed form that format() writes and refuses others; multiply(s) is the multiple by the 32-byte big-endian number s, 0 < s < N; combine adds, and refuses when the sum is infinity',
               'scalars are integers of any size (a tensor or NumPy integer holds one)']
TRUSTED = ['coincurve (libsecp256k1)', 'NumPy (frombuffer, zeros, tobytes)', 'os.urandom']

import pyvc.nospu  # noqa
import numpy as np
import mplang.backends.crypto_impl as CI

ORDER = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
TIMES = z3.Function('multiple', z3.IntSort(), z3.IntSort(), z3.IntSort())
G_BYTES = bytes.fromhex('0279BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798')


class Curve:
    """coincurve, by its contract"""

    def __init__(self, env):
        self.forms = []         # (term of the bytes, multiple)
        curve = self

        class PublicKey:
            _vf_ok = True

            def __init__(self, data):
                self.d = curve.read(data)

            def format(self, compressed=True):
                return curve.form(self.d, 33 if compressed else 65)

            def multiply(self, scalar, update=False):
                s = curve.number(scalar)
                env.prove('a scalar that the library takes', env.and_(s > 0, s < ORDER))
                if update:
                    raise core.Unsupported('multiply in place')
                return curve.key(curve.times(self.d, s))

            def combine(self, others, update=False):
                if update:
                    raise core.Unsupported('combine in place')
                t = self.d
                for o in list(others):
                    t = t + o.d
                t = t % ORDER
                if t == 0:
                    raise ValueError('The sum of the public keys is invalid.')
                return curve.key(t)

            def __eq__(self, o):
                return isinstance(o, PublicKey) and self.d == o.d

            __hash__ = None

            @classmethod
            def combine_keys(cls, keys):
                keys = list(keys)
                return keys[0].combine(keys[1:])
        self.PublicKey = PublicKey

    def key(self, d):
        k = object.__new__(self.PublicKey)
        k.d = d
        return k

    def times(self, d, s):
        t = TIMES(core.iterm(d), core.iterm(s))
        core.ENG.assume(core.mkbool(z3.And(t > 0, t < ORDER, z3.Implies(core.iterm(s) == ORDER - 1, t == ORDER - core.iterm(d)), z3.Implies(core.iterm(s) == 1, t == core.iterm(d)),
                                           z3.Implies(core.iterm(d) == 1, t == core.iterm(s)))))
        return core.SInt(t)

    def form(self, d, n):
        """the first byte, 4 or the parity of y, and the coordinates"""
        z = core.iterm(d)
        least = z if n == 65 else z3.If(z <= ORDER - z, z, ORDER - z)       # P and -P have one x
        t = z3.Function(f'form{n}', z3.IntSort(), BLOB.z)(least)
        core.ENG.assume(core.mkbool(z3.And(BLEN(t) == n - 1, z3.Function(f'of{n}', BLOB.z, z3.IntSort())(t) == least)))
        odd = z3.Function('odd', z3.IntSort(), z3.BoolSort())(least)
        lead = 4 if n == 65 else 3 if core.mkbool(odd == (least == z)) else 2
        self.forms.append((lead, t, d))
        return SBytes([('c', bytes([lead])), ('b', t, 0, n - 1)])

    def read(self, data):
        if isinstance(data, bytes) and not isinstance(data, SBytes):
            if data == G_BYTES:
                return core.SInt(z3.IntVal(1))
            if not any(data):
                raise ValueError('The public key could not be parsed or is invalid.')
            raise core.Unsupported('some other bytes')
        p = data.parts
        if len(p) == 2 and p[0][0] == 'c' and p[1][0] == 'b':
            for lead, t, d in self.forms:
                if t.eq(p[1][1]) and bytes([lead]) == bytes(p[0][1]) and p[1][2:] == (0, 64 if lead == 4 else 32):
                    return d
        raise core.Unsupported('bytes of unknown origin')

    def number(self, b):
        if isinstance(b, bytes) and not isinstance(b, SBytes):
            return core.SInt(z3.IntVal(int.from_bytes(b, 'big')))
        return M.call(int.from_bytes, (b, 'big'), {})


class Words:
    """an array of bytes"""
    _vf_ok = True
    dtype = np.dtype('uint8')
    ndim = 1

    def __init__(self, b): self.b = b

    def copy(self): return Words(self.b)

    def tobytes(self): return self.b


class Tensor:
    """TensorValue: what holds an array"""
    _vf_ok = True

    def __init__(self, a): self.a = a

    def unwrap(self): return self.a

    data = property(unwrap)


class Number:
    """an array of one integer"""
    _vf_ok = True

    def __init__(self, v): self.v = v

    def item(self): return self.v

    def __int__(self): return self.v


def setup(env):
    cu = Curve(env)
    env.patch(CI, 'coincurve', types.SimpleNamespace(PublicKey=cu.PublicKey))
    env.patch(CI, 'TensorValue', Tensor)
    M.STUBS[np.frombuffer] = lambda b, dtype=float: Words(b) if np.dtype(dtype) == np.dtype('uint8') else (_ for _ in ()).throw(core.Unsupported('frombuffer'))
    return cu


def point(env, cu, name):
    """(a value, the multiple it stands for)"""
    if env.choice(name + '_infinity', [False, True]):
        return None, 0
    d = env.int(name, 1)
    env.assume(d < ORDER)
    return M.call(CI.ECPointValue, (cu.form(d, env.choice(name + '_form', [33, 65])),), {}), d


def stands_for(env, cu, label, r, want):
    if r is None:
        env.prove(label + ' (infinity)', env.eq(want, 0))
        env.cover('infinity')
        return
    env.prove(label + ': a point', isinstance(r, CI.ECPointValue), r)
    env.prove(label, env.eq(cu.read(r.unwrap()), want))
    env.cover('point')


def h_add(env):
    """The sum of two points, either of which may be infinity, stands for the sum of their multiples."""
    cu = setup(env)
    (p, a), (q, b) = point(env, cu, 'p'), point(env, cu, 'q')
    r = env.run(CI.add_impl, None, None, p, q)
    env.prove('returns', r[0] == 'ok', r)
    stands_for(env, cu, 'the sum', r[1], (a + b) % ORDER)


def h_sub(env):
    """The difference of two points stands for the difference of their multiples."""
    cu = setup(env)
    (p, a), (q, b) = point(env, cu, 'p'), point(env, cu, 'q')
    r = env.run(CI.sub_impl, None, None, p, q)
    env.prove('returns', r[0] == 'ok', r)
    stands_for(env, cu, 'the difference', r[1], (a - b) % ORDER)


def h_mul(env):
    """A multiple by any integer, negative or larger than the order, stands for the multiple by its residue."""
    cu = setup(env)
    p, a = point(env, cu, 'p')
    s = env.int('s')
    k = env.choice('kind', ['int', 'tensor'])
    r = env.run(CI.mul_impl, None, None, p, s if k == 'int' else Tensor(Number(s)))
    env.prove('returns', r[0] == 'ok', r)
    m = s % ORDER
    if r[1] is None:
        env.prove('infinity only where it is', env.or_(p is None, env.eq(m, 0)))
        env.cover('infinity')
    else:
        env.prove('not infinity', env.and_(p is not None, env.not_(env.eq(m, 0))))
        stands_for(env, cu, 'the multiple', r[1], cu.times(a, m))


def h_bytes(env):
    """The byte form of a point, in a tensor or as bytes, reads back as the same point."""
    cu = setup(env)
    p, a = point(env, cu, 'p')
    r = env.run(CI.point_to_bytes_impl, None, None, p)
    env.prove('written', r[0] == 'ok' and isinstance(r[1], Tensor), r)
    raw = r[1].unwrap().tobytes()
    env.prove('65 bytes', env.eq(M.call(len, (raw,), {}), 65))
    back = env.run(CI.bytes_to_point_impl, None, None, r[1] if env.choice('as', ['tensor', 'bytes']) == 'tensor' else M.call(CI.BytesValue, (raw,), {}))
    env.prove('read', back[0] == 'ok', back)
    stands_for(env, cu, 'the same point', back[1], a)


def h_generator(env):
    """The generator stands for one, scalars for themselves, and a random scalar is a residue."""
    cu = setup(env)
    r = env.run(CI.generator_impl, None, None)
    env.prove('returns', r[0] == 'ok', r)
    stands_for(env, cu, 'one', r[1], 1)
    s = env.int('s')
    r = env.run(CI.scalar_from_int_impl, None, None, s if env.choice('kind', ['int', 'tensor']) == 'int' else Tensor(Number(s)))
    env.prove('the scalar', r[0] == 'ok' and env.eq(r[1], s), r)


# ---- real points
def multiple(n):
    """n times the generator, by a computation of its own (affine double and add)"""
    P = 2 ** 256 - 2 ** 32 - 977
    gx = int.from_bytes(G_BYTES[1:], 'big')
    gy = pow(gx ** 3 + 7, (P + 1) // 4, P)
    gy = gy if gy % 2 == 0 else P - gy

    def add(a, b):
        if a is None or b is None:
            return b if a is None else a
        if a[0] == b[0]:
            if (a[1] + b[1]) % P == 0:
                return None
            l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
        else:
            l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
        x = (l * l - a[0] - b[0]) % P
        return x, (l * (a[0] - x) - a[1]) % P
    r, q, n = None, (gx, gy), n % ORDER
    while n:
        if n & 1:
            r = add(r, q)
        q, n = add(q, q), n >> 1
    return r


def plain(p):
    if p is None:
        return None
    b = p.coincurve_key.format(compressed=False)
    return int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')


def h_real(env):
    """Real points: sums, differences, multiples and byte forms against a computation of the multiples of the generator of its own."""
    g = env.rng
    pool = [0, 1, 2, 3, -1, -2, ORDER, ORDER - 1, ORDER - 2, ORDER + 1, 2 ** 128, 2 ** 255, 2 ** 256 - 1, -2 ** 200, g.getrandbits(256), -g.getrandbits(130)]
    a, b, s = g.choice(pool), g.choice(pool), g.choice(pool)
    if g.random() < .25:
        b = g.choice([a, -a, ORDER - a, a + 1])
    G = CI.generator_impl(None, None)

    def scalar(n):
        if -2 ** 63 <= n < 2 ** 63 and g.random() < .5:
            return g.choice([np.int64(n), CI.TensorValue(np.array(n, dtype=np.int64))])
        return CI.scalar_from_int_impl(None, None, n)
    p, q = CI.mul_impl(None, None, G, scalar(a)), CI.mul_impl(None, None, G, scalar(b))
    env.prove('multiples of the generator', plain(p) == multiple(a) and plain(q) == multiple(b), (a, b))

    def wire(x):
        t = CI.point_to_bytes_impl(None, None, x)
        y = CI.bytes_to_point_impl(None, None, t if g.random() < .5 else CI.BytesValue(t.unwrap().tobytes()))
        env.prove('the byte form reads back', plain(y) == plain(x) and t.unwrap().shape == (65,) and t.unwrap().dtype == np.uint8, (x and a))
        return y
    if g.random() < .5:
        p, q = wire(p), wire(q)
    for nm, f, n in (('sum', CI.add_impl, a + b), ('difference', CI.sub_impl, a - b)):
        r = env.run(f, None, None, p, q)
        env.prove(nm, r[0] == 'ok' and plain(r[1]) == multiple(n), (a, b, r))
    r = env.run(CI.mul_impl, None, None, p, scalar(s))
    env.prove('multiple', r[0] == 'ok' and plain(r[1]) == multiple(a * s), (a, s, r))
    env.prove('random scalars are residues', 0 <= CI.random_scalar_impl(None, None) < ORDER)


def harnesses():
    h = lambda n, f, fs, **k: H(n, f, functions=fs, what=f.__doc__, **k)
    both = ('infinity', 'point')
    return [h('add', h_add, ['add_impl', 'ECPointValue._convert', 'ECPointValue.coincurve_key', 'ECPointValue.from_coincurve'], conc=0, cover=both),
            h('sub', h_sub, ['sub_impl'], conc=0, cover=both),
            h('mul', h_mul, ['mul_impl'], conc=0, cover=both),
            h('bytes', h_bytes, ['point_to_bytes_impl', 'bytes_to_point_impl'], conc=0, cover=both),
            h('generator', h_generator, ['generator_impl', 'scalar_from_int_impl'], conc=0),
            h('real', h_real, ['add_impl', 'sub_impl', 'mul_impl', 'point_to_bytes_impl', 'bytes_to_point_impl', 'random_scalar_impl'], sym=False, conc=400, conc_s=8)]
