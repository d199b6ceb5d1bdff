"""C22  Homomorphic operations compute the plaintext operation.

Ciphertexts, plaintexts and vectors are ghosts that carry the value of an arbitrary slot; SEAL's evaluator is a contract over them."""
import types
import numpy as np
import z3
from pyvc.worker import H
from pyvc import core, loops, models as M

INSTRUMENT = ['mplang.backends.bfv_impl', 'mplang.libs.mpc.analytics.aggregation']
ASSUMPTIONS = ['slot values are compared as mathematical integers: SEAL computes their remainders modulo the plain modulus, and decodes them centred',
               'the noise budget of a ciphertext suffices for decryption',
               'SEAL refuses a transparent result only of operands that share their randomness, or of a product with a zero plaintext',
               'n & 2^j is 2^j times the parity of n div 2^j']
TRUSTED = ['SEAL (tenseal.sealapi): encryption, decryption, evaluator and batch encoder, by the contract in specs/C22.py', 'numpy']

import pyvc.nospu  # noqa
import mplang.backends.bfv_impl as B
import mplang.libs.mpc.analytics.aggregation as A
from mplang.backends.tensor_impl import TensorValue


# ---- ghosts of the SEAL API ----
class Pt:
    """a SEAL plaintext: at(row, position) is the value of a slot"""
    _vf_ok = True

    def __init__(self, at=None, zero=True):
        self.at, self.zero = at or (lambda r, p: 0), zero

    def is_zero(self): return self.zero


class Ct:
    """a SEAL ciphertext; empty (size 0) until something is written to it"""
    _vf_ok = True

    def __init__(self):
        self.at, self.n, self.fresh = None, 0, False

    def is_transparent(self): return self.n == 0
    def size(self): return self.n

    def put(self, at, n=2, fresh=False):
        self.at, self.n, self.fresh = at, n, fresh


class Arr:
    """the array of a TensorValue: a vector whose slots are at(row, position), and which may be all zeros"""
    _vf_ok = True

    def __init__(self, at, zero): self.at, self.zero = at, zero
    def flatten(self): return self
    def reshape(self, *a): return self
    def ravel(self): return self
    def tolist(self): return self
    def any(self): return not self.zero

    def __eq__(self, o):
        if o is 0 or o == 0:        # noqa
            return IsZero(self.zero)
        raise core.Unsupported('comparison of vectors')
    __hash__ = None

    def two(self, o, f): return Arr(lambda r, p: f(self.at(r, p), o.at(r, p)), None)
    def __add__(self, o): return self.two(o, lambda a, b: a + b)
    def __sub__(self, o): return self.two(o, lambda a, b: a - b)
    def __mul__(self, o): return self.two(o, lambda a, b: a * b)


class IsZero:
    _vf_ok = True
    def __init__(self, b): self.b = b
    def all(self): return self.b
    def __bool__(self): return self.b
    def __invert__(self): return IsZero(not self.b)


class TV(TensorValue):
    _vf_ok = True

    def __init__(self, arr): self.arr = arr
    def unwrap(self): return self.arr

    @classmethod
    def wrap(cls, x): return cls(x)


class Evaluator:
    """Contract of sealapi.Evaluator."""
    _vf_ok = True

    def __init__(self, env): self.env, self.n = env, 0

    def valid(self, *cs):
        for c in cs:
            if c.n == 0:
                raise ValueError('encrypted is not valid for encryption parameters')

    def two(self, a, b, out, f):
        self.valid(a, b)
        self.n += 1
        if not a.fresh and not b.fresh and self.env.choice(f'transparent{self.n}', [False, True]):
            raise RuntimeError('result ciphertext is transparent')
        x, y = a.at, b.at
        out.put(lambda r, p: f(x(r, p), y(r, p)), a.n if a.n > b.n else b.n, a.fresh or b.fresh)

    def add(self, a, b, out): self.two(a, b, out, lambda x, y: x + y)
    def sub(self, a, b, out): self.two(a, b, out, lambda x, y: x - y)

    def negate(self, a, out):
        self.valid(a)
        x = a.at
        out.put(lambda r, p: -x(r, p), a.n, a.fresh)

    def plain(self, a, pt, out, f):
        self.valid(a)
        x, y = a.at, pt.at
        out.put(lambda r, p: f(x(r, p), y(r, p)), a.n, a.fresh)

    def add_plain(self, a, pt, out): self.plain(a, pt, out, lambda x, y: x + y)
    def sub_plain(self, a, pt, out): self.plain(a, pt, out, lambda x, y: x - y)

    def multiply_plain(self, a, pt, out):
        self.valid(a)
        if pt.zero:
            raise RuntimeError('result ciphertext is transparent')
        self.plain(a, pt, out, lambda x, y: x * y)

    def multiply(self, a, b, out):
        self.valid(a, b)
        x, y = a.at, b.at
        out.put(lambda r, p: x(r, p) * y(r, p), a.n + b.n - 1)

    def square(self, a, out): self.multiply(a, a, out)

    def relinearize(self, a, keys, out):
        self.valid(a)
        self.env.prove('relinearization keys', keys == 'relin')
        out.put(a.at, 2, a.fresh)

    def rotate_rows(self, a, steps, keys, out):
        self.valid(a)
        self.env.prove('galois keys', keys == 'galois')
        if not bool(self.env.eq(a.n, 2)):
            raise ValueError('encrypted size must be 2')
        x, w = a.at, self.env.rows
        out.put(lambda r, p: x(r, (p + steps) % w), 2, a.fresh)

    def rotate_columns(self, a, keys, out):
        self.valid(a)
        self.env.prove('galois keys', keys == 'galois')
        if not bool(self.env.eq(a.n, 2)):
            raise ValueError('encrypted size must be 2')
        x = a.at
        out.put(lambda r, p: x(1 - r, p), 2, a.fresh)


class Encoder:
    _vf_ok = True

    def encode(self, vec, pt):
        if isinstance(vec, Arr):
            pt.at, pt.zero = vec.at, vec.zero
        else:
            vec = list(vec)
            if any(bool(v) for v in vec):
                raise core.Unsupported('encoding of given numbers')
            pt.at, pt.zero = (lambda r, p: 0), True

    def decode_int64(self, pt): return Arr(pt.at, pt.zero)


class Encryptor:
    _vf_ok = True
    def encrypt(self, pt, out): out.put(pt.at, 2, True)
    def encrypt_zero(self, out): out.put(lambda r, p: 0, 2, True)


class Decryptor:
    _vf_ok = True

    def decrypt(self, c, pt):
        if c.n == 0:
            raise ValueError('encrypted is not valid for encryption parameters')
        pt.at, pt.zero = c.at, None


def ctx(env, key=True, secret=False):
    c = types.SimpleNamespace(evaluator=Evaluator(env), batch_encoder=Encoder(), relin_keys='relin', galois_keys='galois')
    if key:
        c.encryptor = Encryptor()
    if secret:
        c.decryptor = Decryptor()
    return c


class Np:
    """numpy, over ghost vectors too"""
    _vf_ok = True
    def __getattr__(self, k): return getattr(np, k)
    def all(self, x, *a, **k): return x.b if isinstance(x, IsZero) else bool(np.all(x, *a, **k))
    def any(self, x, *a, **k): return not x.zero if isinstance(x, Arr) else bool(np.any(x, *a, **k))
    def count_nonzero(self, x, *a, **k): return int(not x.zero) if isinstance(x, Arr) else np.count_nonzero(x, *a, **k)
    def array(self, x, *a, **k): return x if isinstance(x, Arr) else np.array(x, *a, **k)
    asarray = array
    def ravel(self, x): return x if isinstance(x, Arr) else np.ravel(x)


def world(env):
    env.patch(B, 'sealapi', types.SimpleNamespace(Ciphertext=Ct, Plaintext=Pt))
    env.patch(B, 'TensorValue', TV)
    env.patch(B, 'np', Np())
    env.rows = env.int('rows', 1)


def value(env, nm, kind, key=True):
    f = env.fn(nm, ['int', 'int'], 'int')
    zero = lambda r, p: 0
    if kind in ('ct', 'tr'):
        c = Ct()
        if kind == 'ct':
            c.put(f, env.int(nm + '_size', 2, conc=lambda g: g.choice([2, 2, 3])))
        return B.BFVValue(c, ctx(env, key), is_cipher=True), f if kind == 'ct' else zero
    if kind in ('pt', 'pt0'):
        return B.BFVValue(Pt(f, False) if kind == 'pt' else Pt(), ctx(env, key), is_cipher=False), f if kind == 'pt' else zero
    return TV(Arr(f if kind == 'raw' else zero, kind == 'raw0')), f if kind == 'raw' else zero


def op(**a): return types.SimpleNamespace(attrs=a, name='')


def result(env, label, v, at):
    """what v decrypts (and decodes) to, at an arbitrary slot, is at"""
    r, p = env.int('row', 0, 1), env.int('pos', 0)
    env.assume(p < env.rows)
    if isinstance(v, TV):
        got = v.unwrap().at
    else:
        env.prove(label + ': a BFV value', isinstance(v, B.BFVValue), v)
        if v.is_cipher:
            env.prove(label + ': holds a ciphertext', isinstance(v.data, Ct))
            x = env.run(B.decrypt_impl, None, op(), v, ctx(env, True, True))
            env.prove(label + ': decrypts', x[0] == 'ok', x)
            v = x[1]
            env.prove(label + ': to a plaintext', isinstance(v, B.BFVValue) and not v.is_cipher and isinstance(v.data, Pt))
        x = env.run(B.decode_impl, None, op(), v, None)
        env.prove(label + ': decodes', x[0] == 'ok', x)
        got = x[1].unwrap().at
    env.prove(label, env.eq(got(r, p), at(r, p)))


KINDS = ['ct', 'tr', 'pt', 'pt0', 'raw', 'raw0']
OPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b}


def binary(name):
    f = OPS[name]

    def h(env):
        world(env)
        ka, kb = env.choice('left', KINDS), env.choice('right', KINDS)
        key = env.choice('public key', [True, False])
        a, va = value(env, 'a', ka, key)
        b, vb = value(env, 'b', kb, key)
        x = env.run(getattr(B, name + '_impl'), None, op(), a, b)
        cipher = {'ct', 'tr'}
        plain = ka not in cipher and kb not in cipher
        if x[0] == 'exc':
            enc = {ka[:2], kb[:2]}
            if plain and 'pt' in enc and isinstance(x[1], (NotImplementedError, TypeError)):
                return      # two plaintexts, at least one of them encoded: refused
            tr = 'tr' in (ka, kb) and not (ka in cipher and kb in cipher)
            same = 'transparent' in str(x[1])
            if not key and name != 'mul' and (tr and isinstance(x[1], AttributeError) or same and ka == kb == 'ct'):
                return      # encrypting needs a public key (known finding, harness received-zero)
        env.prove('succeeds', x[0] == 'ok', x)
        if not plain:
            env.prove('a ciphertext', isinstance(x[1], B.BFVValue) and x[1].is_cipher)
        result(env, f'{name} of the plaintexts', x[1], lambda r, p: f(va(r, p), vb(r, p)))
        # the operands still hold their values
        result(env, 'the left operand is unchanged', a, va)
        result(env, 'the right operand is unchanged', b, vb)
        env.cover('end')
    h.__doc__ = f'{name} of every pair of forms (ciphertext, zero product, encoded plaintext, raw vector, zero ones) decrypts to the {name} of the values; operands are unchanged.'
    return h


def h_relin(env):
    """Relinearization keeps every slot and leaves at most two polynomials."""
    world(env)
    a, va = value(env, 'a', env.choice('form', ['ct', 'tr']))
    x = env.run(B.relinearize_impl, None, op(), a, ctx(env))
    env.prove('succeeds', x[0] == 'ok', x)
    env.prove('small', x[1].data.n <= 2)
    result(env, 'the same values', x[1], va)
    env.cover('end')


def h_rotate(env):
    """Rotation by any number of steps moves each row that far to the left; swapping rows swaps them; so too for products with zero."""
    world(env)
    a, va = value(env, 'a', env.choice('form', ['ct', 'tr']))
    w = env.rows
    if a.data.n:
        env.assume(env.eq(a.data.n, 2))
    if env.choice('columns', [False, True]):
        x = env.run(B.rotate_columns_impl, None, op(), a, ctx(env))
        want = lambda r, p: va(1 - r, p)
    else:
        s = env.int('steps')
        env.assume(env.and_(s < w, 0 - s < w))
        x = env.run(B.rotate_impl, None, op(steps=s), a, ctx(env))
        want = lambda r, p: va(r, (p + s) % w)
    env.prove('succeeds', x[0] == 'ok', x)
    result(env, 'the rotated values', x[1], want)
    result(env, 'the operand is unchanged', a, va)
    env.cover('end')


def h_encrypt(env):
    """A vector that is encoded, encrypted, decrypted and decoded comes back; batch encoding encodes each row."""
    world(env)
    f = env.fn('v', ['int', 'int'], 'int')
    raw = TV(Arr(f, False))
    c = ctx(env)
    x = env.run(B.encode_impl, None, op(), raw, {})
    env.prove('encodes', x[0] == 'ok', x)
    y = env.run(B.encrypt_impl, None, op(), x[1], c)
    env.prove('encrypts', y[0] == 'ok', y)
    env.prove('a ciphertext', y[1].is_cipher and isinstance(y[1].data, Ct))
    result(env, 'comes back', y[1], f)
    env.cover('end')


# ---- aggregation: a ciphertext as a sum of rotated copies of the input ----
class Win:
    """sum over i < n of the input (its rows swapped if flip) rotated by off + i*stride"""
    _vf_ok = True

    def __init__(self, off, n, stride, flip=False): self.off, self.n, self.stride, self.flip = off, n, stride, flip


class Ag:
    """a sum of such windows"""
    _vf_ok = True
    def __init__(self, ws): self.ws = ws


def join(env, a, b):
    """a + b: windows of the same row with the same stride, one ending where the other begins, are one window"""
    out = list(a.ws)
    for w in b.ws:
        for i, o in enumerate(out):
            if o.flip != w.flip:
                continue
            if loops.must_eq(o.off + o.n * o.stride, w.off) and loops.must_eq(o.stride, w.stride):
                out[i] = Win(o.off, o.n + w.n, o.stride, o.flip)
                break
            if loops.must_eq(w.off + w.n * w.stride, o.off) and loops.must_eq(o.stride, w.stride):
                out[i] = Win(w.off, o.n + w.n, o.stride, o.flip)
                break
        else:
            out.append(w)
    return Ag(out)


def rot(a, s): return Ag([Win(w.off + s, w.n, w.stride, w.flip) for w in a.ws])


def agg(env, stride):
    g = types.SimpleNamespace(add=lambda a, b: join(env, a, b), rotate=lambda a, s, k: rot(a, s),
                              rotate_columns=lambda a, k: Ag([Win(w.off, w.n, w.stride, not w.flip) for w in a.ws]))
    for f in vars(g).values():
        f._vf_ok = True
    env.patch(A, 'bfv', g)
    return Ag([Win(0, 1, stride)])


def same(env, label, got, want):
    """the sum is exactly these windows"""
    env.prove(label + ': a ciphertext', isinstance(got, Ag), got)
    env.prove(label + ': as many rows', len(got.ws) == len(want), got)
    if len(got.ws) == len(want):
        for w in want:
            o = [x for x in got.ws if x.flip == w.flip]
            env.prove(label + ': the row', len(o) == 1)
            env.prove(label + ': where it begins', env.eq(o[0].off, w.off))
            env.prove(label + ': how many', env.eq(o[0].n, w.n))
            env.prove(label + ': stride', env.or_(o[0].n <= 1, env.eq(o[0].stride, w.stride)))


def h_safe(env):
    """Rotation by any number of steps, in pieces of at most max_step, is the rotation by that number."""
    ct = agg(env, 1)
    s = env.int('steps', conc=lambda g: g.randint(-5000, 5000))
    m = env.int('max_step', 1, conc=lambda g: g.choice([1, 3, 64, 1024]))
    pieces = []
    real = A.bfv.rotate

    def rotate(a, t, k):
        pieces.append(t)
        env.prove('no piece is longer than max_step', env.and_(t <= m, 0 - t <= m))
        return real(a, t, k)
    rotate._vf_ok = True
    A.bfv.rotate = rotate

    if env.bound is None and env.sym:
        def handler(cond, body, get, set_, info):
            e = core.ENG
            entry = get()
            cts = [k for k, v in entry.items() if isinstance(v, Ag)]
            left = [k for k, v in entry.items() if isinstance(v, (int, core.SInt)) and not isinstance(v, bool)
                    and loops.must_eq(v, s if bool(s > 0) else 0 - s)]
            if len(cts) != 1 or len(left) != 1:
                raise core.Unsupported('an unknown loop')
            tot = entry[left[0]]
            sg = 1 if bool(s > 0) else -1
            def inv(now, where):
                w = now[cts[0]].ws
                env.prove(where + ': rotated by what is done', len(w) == 1 and env.and_(env.eq(w[0].off, sg * (tot - now[left[0]])), env.eq(w[0].n, 1), not w[0].flip))
                env.prove(where + ': not too far', now[left[0]] >= 0)
            inv(entry, 'on entry')
            r = core.fresh_int('left')
            e.assume(core.And(r >= 0, r <= tot))
            st = {k: loops.Poison(k) for k in entry}
            st[cts[0]] = Ag([Win(sg * (tot - r), 1, 1)])
            st[left[0]] = r
            set_(st)
            if not cond():
                return None
            x = body()
            if x is not None:
                return x
            inv(get(), 'after a piece')
            env.prove('makes progress', get()[left[0]] < r)
            env.cover('end')
            raise core.Kill('end of the arbitrary iteration')
        loops.WHILE_HANDLERS.append((lambda info: True, handler))
    x = env.run(A._safe_rotate, ct, s, 'gk', m)
    env.prove('succeeds', x[0] == 'ok', x)
    same(env, 'rotated by the steps', x[1], [Win(s, 1, 1)])
    env.cover('end')


def stub_rotate(env):
    """callers see only the contract of _safe_rotate"""
    if not env.sym or not hasattr(A, '_safe_rotate'):
        return
    def c(ct, step, galois_keys, max_step=1024): return rot(ct, step)
    M.STUBS[A._safe_rotate] = c


def window_rule(env, n, stride):
    """Invariant of the doubling loop: a window of size = 2^j terms; the first n mod size terms are summed."""
    def handler(cond, body, get, set_, info):
        e = core.ENG
        entry = get()
        ags = [k for k, v in entry.items() if isinstance(v, Ag)]
        none = [k for k, v in entry.items() if v is None]
        ints = {k: v for k, v in entry.items() if isinstance(v, (int, core.SInt)) and not isinstance(v, bool)}
        done = [k for k, v in ints.items() if isinstance(v, int) and v == 0]
        size = [k for k, v in ints.items() if isinstance(v, int) and v == 1]
        tmp = [k for k in entry if k not in ags + none + done + size]
        if not (len(ags) == len(done) == len(size) == 1 and 1 <= len(none)):
            raise core.Unsupported('an unknown loop')
        win, done, size = ags[0], done[0], size[0]

        def inv(now, q, sz, where, tot):
            # q: n div sz, with n = q*sz + done
            env.prove(where + ': terms done', env.and_(env.eq(n, q * sz + now[done]), now[done] >= 0, now[done] < sz))
            env.prove(where + ': size', env.eq(now[size], sz))
            w = now[win].ws
            env.prove(where + ': the window', len(w) == 1 and env.and_(env.eq(w[0].off, 0), env.eq(w[0].n, sz), not w[0].flip))
            t = now[tot]
            if t is None:
                env.prove(where + ': nothing summed', env.eq(now[done], 0))
            else:
                env.prove(where + ': the terms summed', len(t.ws) == 1 and env.and_(env.eq(t.ws[0].off, 0), env.eq(t.ws[0].n, now[done]), not t.ws[0].flip))
        # the sum: the one that is still live at the head (the others are temporaries)
        tot = [k for k in none if k == 'total'] or none
        tot = tot[0]
        inv(entry, n, 1, 'on entry', tot)
        j, q2 = core.fresh_int('log'), core.fresh_int('half')
        b = e.choose(2)
        d, sz = core.fresh_int('done'), core.fresh_int('size')
        q = 2 * q2 + b
        e.assume(core.And(q2 >= 0, sz >= 1, d >= 0, d < sz, core.sym_eq(n, q * sz + d)))
        e.assume(core.sym_eq(n & sz, b * sz))       # sz is a power of two
        st = {k: loops.Poison(k) for k in entry}
        st[win], st[done], st[size] = Ag([Win(0, sz, stride)]), d, sz
        if e.choose(2) == 0:
            e.assume(core.sym_eq(d, 0))
            st[tot] = None
        else:
            e.assume(d >= 1)
            st[tot] = Ag([Win(0, d, stride)])
        set_(st)
        if not cond():
            return None
        x = body()
        if x is not None:
            return x
        inv(get(), q2, 2 * sz, 'after doubling', tot)
        env.prove('some terms are left', q2 >= 1)
        env.cover('end')
        raise core.Kill('end of the arbitrary iteration')
    loops.WHILE_HANDLERS.append((lambda info: True, handler))


def h_window(env):
    """The doubling loop sums exactly the rotations by 0, stride, ..., (n-1)*stride, for every n and stride."""
    if not hasattr(A, '_sum_window'):
        env.cover('end')
        return
    stride, n = env.int('stride', 1, conc=lambda g: g.randint(1, 64)), env.int('n', 1, conc=lambda g: g.randint(1, 300))
    ct = agg(env, stride)
    stub_rotate(env)
    if env.bound is None and env.sym:
        window_rule(env, n, stride)
    x = env.run(A._sum_window, ct, stride, n, 'gk')
    env.prove('succeeds', x[0] == 'ok', x)
    same(env, 'the first n terms', x[1], [Win(0, n, stride)])
    env.cover('end')


def stub_window(env):
    stub_rotate(env)
    if not env.sym or not hasattr(A, '_sum_window'):
        return
    def c(ct, stride, n, galois_keys, max_step=1024):
        env.prove('sums at least one term', n >= 1)
        env.prove('a single copy', all(bool(env.eq(w.n, 1)) for w in ct.ws))
        return Ag([Win(w.off, n, stride, w.flip) for w in ct.ws])
    M.STUBS[A._sum_window] = c


def h_sum(env):
    """The first k slots are summed into slot 0, whether they end in the first row or the second, for every k and slot count."""
    ct = agg(env, 1)
    stub_window(env)
    w = env.int('row', 1, conc=lambda g: g.choice([4, 64, 2048]))
    k = env.int('k', 1, conc=lambda g: g.randint(1, 2 * 2048))
    env.assume(k <= 2 * w)
    x = env.run(A.rotate_and_sum, ct, k, 'gk', 2 * w)
    env.prove('succeeds', x[0] == 'ok', x)
    if bool(k <= w):
        same(env, 'the first k slots', x[1], [Win(0, k, 1)])
    else:
        same(env, 'both rows', x[1], [Win(0, w, 1), Win(0, k - w, 1, True)])
    env.cover('end')


def h_bucket(env):
    """Each slot becomes the sum of it and the following ones, as many as a bucket holds: the sum of the bucket, at its first slot."""
    ct = agg(env, 1)
    stub_window(env)
    nb = env.int('buckets', 1, conc=lambda g: g.choice([1, 2, 8, 64]))
    s = env.int('samples', 0, conc=lambda g: g.randint(0, 40))
    x = env.run(A.batch_bucket_aggregate, ct, nb, s, 'gk', env.int('slots', 2))
    env.prove('succeeds', x[0] == 'ok', x)
    same(env, 'the samples of a bucket', x[1], [Win(0, s if bool(s > 1) else 1, 1)])
    env.cover('end')


def h_strided(env):
    """The slots 0, stride, 2*stride, ... are summed into slot 0, in the first row and on into the second."""
    stride = env.int('stride', 1, conc=lambda g: g.randint(1, 100))
    ct = agg(env, stride)
    stub_window(env)
    w = env.int('row', 1, conc=lambda g: g.choice([4, 64, 2048]))
    n = env.int('n', 1, conc=lambda g: g.randint(1, 60))
    env.assume((n - 1) * stride < 2 * w)
    x = env.run(A.strided_rotate_and_sum, ct, stride, n, 'gk', slot_count=2 * w)
    env.prove('succeeds', x[0] == 'ok', x)
    got = x[1]
    env.prove('a ciphertext', isinstance(got, Ag))
    r0 = [o for o in got.ws if not o.flip]
    env.prove('from the first slot', len(r0) == 1 and env.and_(env.eq(r0[0].off, 0), r0[0].n >= 1, env.or_(r0[0].n <= 1, env.eq(r0[0].stride, stride))))
    c = r0[0].n
    env.prove('in the first row', (c - 1) * stride < w)
    if len(got.ws) == 1:
        env.prove('all of them', env.eq(c, n))
    else:
        r1 = [o for o in got.ws if o.flip]
        env.prove('on into the second row', len(r1) == 1 and len(got.ws) == 2)
        env.prove('the next in the second row', env.and_(env.eq(r1[0].off, c * stride - w), c * stride >= w))
        env.prove('all of them', env.eq(c + r1[0].n, n))
    env.cover('end')


def h_masked(env):
    """Each ciphertext is multiplied with its own mask and the products summed."""
    n = env.length('n', 0, 4)
    m = env.length('m', 0, 4)
    f, g = env.fn('ct', ['int', 'int'], 'int'), env.fn('mask', ['int', 'int'], 'int')
    p = env.int('slot')
    ns = types.SimpleNamespace(add=lambda a, b: a + b, mul=lambda a, b: a * b)
    for q in vars(ns).values():
        q._vf_ok = True
    env.patch(A, 'bfv', ns)
    n, m = int(n), int(m)
    x = env.run(A.masked_aggregate, [f(i, p) for i in range(n)], [g(i, p) for i in range(m)])
    if n != m or n == 0:
        env.prove('refused', x[0] == 'exc' and isinstance(x[1], ValueError), x)
    else:
        env.prove('succeeds', x[0] == 'ok', x)
        env.prove('the masked sum', env.eq(x[1], sum(f(i, p) * g(i, p) for i in range(n))))
    env.cover('end')


# ---- concrete: the real aggregation over exact linear forms ----
class Lin:
    """coefficients of the input's slots in each output slot: coef[flip][off], the same for every slot"""
    def __init__(self, c): self.c = c


def lin(env, row):
    def rotate(a, s, k):
        if not -row < s < row:
            raise RuntimeError('step count too large')
        return Lin(np.roll(a.c, s, axis=1))
    env.patch(A, 'bfv', types.SimpleNamespace(add=lambda a, b: Lin(a.c + b.c), rotate=rotate, rotate_columns=lambda a, k: Lin(a.c[::-1])))
    c = np.zeros((2, row), dtype=np.int32)
    c[0, 0] = 1
    return Lin(c)


def h_every_k(env):
    """Every k of every slot count that is a power of two up to 4096, and each 16th k of 8192: coefficient one for the first k slots, zero elsewhere."""
    for slots in [2 ** i for i in range(1, 14)]:
        w = slots // 2
        step = 1 if slots <= 4096 else 16
        for k in sorted({*range(1, slots + 1, step), *range(max(1, w - 3), min(slots, w + 3) + 1), slots - 1 or 1, slots}):
            r = A.rotate_and_sum(lin(env, w), k, 'gk', slots)
            want = (np.arange(slots) < k).reshape(2, w)
            if not np.array_equal(r.c, want):
                env.fail(f'the first {k} of {slots} slots', {'wrong slots': np.argwhere(r.c != want)[:4].tolist()})
    env.prove('every k', True)


def h_layouts(env):
    """Bucket layouts and strides: coefficient one for exactly the bucket's samples (regions within one row), or the strided slots."""
    g = env.rng
    slots = 2 ** g.choice([4, 6, 8, 10, 12])
    w = slots // 2
    nb = g.randint(1, min(slots, 128))
    stride = slots // nb
    s = g.randint(1, min(stride, w))
    env.inputs.update(slots=slots, n_buckets=nb, samples=s)
    r = A.batch_bucket_aggregate(lin(env, w), nb, s, 'gk', slots)
    want = np.zeros((2, w))
    want[0, :s] = 1
    env.prove('exactly the samples of a bucket', np.array_equal(r.c, want))
    st = g.randint(1, slots - 1)
    n = g.randint(1, (slots - 1) // st + 1)
    env.inputs.update(stride=st, n=n)
    r = A.strided_rotate_and_sum(lin(env, w), st, n, 'gk', slot_count=slots) if 'slot_count' in A.strided_rotate_and_sum.__code__.co_varnames else None
    if r is not None:
        want = np.zeros(slots)
        want[::st][:n] = 1
        env.prove('exactly the strided slots', np.array_equal(r.c.reshape(-1), want))


def h_sparse(env):
    """Sparse aggregation puts into each target the sum of its sources, in either row, and zero elsewhere."""
    g = env.rng
    w = g.choice([2, 4, 8, 16])
    N = 2 * w
    targets = g.sample(range(N), g.randint(1, min(N, 4)))
    spec = [(t, g.sample(range(N), g.randint(1, N))) for t in targets]
    env.inputs.update(slots=N, aggregations=spec)
    x = np.array([[g.randint(-50, 50) for _ in range(w)] for _ in range(2)])

    def rotate(a, s, k):
        if not -w < s < w:
            raise RuntimeError('step count too large')
        return np.roll(a, -s, axis=1)
    env.patch(A, 'bfv', types.SimpleNamespace(add=lambda a, b: a + b, mul=lambda a, b: a * b, rotate=rotate, rotate_columns=lambda a, k: a[::-1],
                                              encode=lambda t, e: np.pad(t, (0, N - len(t))).reshape(2, w)))
    env.patch(A, 'tensor', types.SimpleNamespace(constant=lambda a: a))
    enc = types.SimpleNamespace(type=types.SimpleNamespace(poly_modulus_degree=N))
    r = A.aggregate_sparse(x, spec, 'gk', enc, N)
    want = np.zeros(N, dtype=int)
    for t, src in spec:
        want[t] = x.reshape(-1)[src].sum()
    env.prove('each target holds the sum of its sources', np.array_equal(r.reshape(-1), want), (r.reshape(-1), want))


# ---- concrete: real SEAL ----
_K = {}
T = 1032193


def keys():
    if not _K:
        pk, sk = B.keygen_impl(None, op(poly_modulus_degree=4096))
        _K.update(pk=pk, sk=sk)
    return _K['pk'], _K['sk']


def cmod(v):
    v = np.asarray(v, dtype=object) % T
    return np.array([int(i) - T if i > T // 2 else int(i) for i in v])


def full(v):
    o = np.zeros(4096, dtype=np.int64)
    o[:len(v)] = v
    return o


def sent(v):
    from mplang.edsl import serde
    return serde.loads(serde.dumps(v))


def dec(v):
    pk, sk = keys()
    if isinstance(v, TensorValue):
        return cmod(full(np.asarray(v.unwrap()).reshape(-1)))
    if v.is_cipher:
        v = B.decrypt_impl(None, op(), v, sk)
    return cmod(np.asarray(B.decode_impl(None, op(), v, {}).unwrap()))


def make(g, kind):
    pk, sk = keys()
    n = g.choice([1, 3, 8, 2048, 4096])
    v = [0] * n if kind.endswith('0') or kind == 'tr' else [g.choice([0, 0, 1, -1, g.randint(-600, 600)]) for _ in range(n)]
    if kind[:3] == 'raw' or kind[:2] == 'pt':
        raw = TensorValue(np.array(v, dtype=np.int64))
        if kind[:3] == 'raw':
            return raw, full(v)
        r = B.batch_encode_impl(None, op(), TensorValue(np.array([v], dtype=np.int64)), {}, pk)
        return (r[0] if isinstance(r, tuple) else r), full(v)
    c = B.encrypt_impl(None, op(), TensorValue(np.array(v, dtype=np.int64)), pk)
    if kind == 'tr':
        c = B.mul_impl(None, op(), c, make(g, 'pt0')[0])
    return c, full(v)


def h_real(env):
    """Real SEAL: random expressions over every form of operand, some received from another party; decrypted against the plain computation."""
    g = env.rng
    pk, sk = keys()
    pool = []
    for k in [g.choice(['ct', 'ct', 'ct0', 'tr'])] + [g.choice(['ct', 'ct', 'ct0', 'tr', 'pt', 'pt0', 'raw', 'raw0']) for _ in range(3)]:
        v, w = make(g, k)
        rec = k[:3] != 'raw' and g.random() < .25
        pool.append((sent(v) if rec else v, w, k + (' received' if rec else ''), 1 if k[0] in 'ct' else 0, rec))
    log = []
    for _ in range(g.randint(1, 4)):
        name = g.choice(['add', 'sub', 'mul', 'add', 'sub', 'rotate', 'columns', 'relin'])
        a = g.choice([x for x in pool if x[3] or name in OPS])
        if name in OPS:
            b = a if g.random() < .15 else g.choice(pool)
            if not a[3] and not b[3]:
                continue
            if name == 'mul' and a[3] + b[3] > 2:
                continue
            if any(x[4] for x in (a, b)) and name != 'mul':
                # encrypting on behalf of a received value is a known finding
                if a[0] is b[0] or any(isinstance(x[0], B.BFVValue) and x[0].is_cipher and x[0].data.is_transparent() for x in (a, b)):
                    continue
            log.append((name, a[2], b[2]))
            r = getattr(B, name + '_impl')(None, op(), a[0], b[0])
            d = a[3] + b[3] if name == 'mul' else max(a[3], b[3])
            if name == 'mul' and d >= 2:
                r = B.relinearize_impl(None, op(), r, pk)
            w, rec = OPS[name](a[1], b[1]) % T, a[4] or b[4]
        elif name == 'relin':
            log.append((name, a[2]))
            r, w, d, rec = B.relinearize_impl(None, op(), a[0], sk), a[1], a[3], a[4]
        else:
            rows = a[1].reshape(2, -1)
            if name == 'rotate':
                s = g.choice([0, 1, -1, 2047, -2047, 1024, g.randint(-2047, 2047)])
                log.append((name, s, a[2]))
                r, w = B.rotate_impl(None, op(steps=s), a[0], pk), np.roll(rows, -s, axis=1).reshape(-1)
            else:
                log.append((name, a[2]))
                r, w = B.rotate_columns_impl(None, op(), a[0], pk), rows[::-1].reshape(-1)
            d, rec = a[3], a[4]
        env.inputs['operations'] = list(log)
        env.prove('decrypts to the plain result', np.array_equal(dec(r), cmod(w)), log)
        pool.append((r, w, f'#{len(log)}', d, rec))
    for v, w, nm, _, _ in pool[:4]:
        env.prove('operands are unchanged', np.array_equal(dec(v), cmod(w)), nm)


def h_program(env):
    """The traced operations of the bfv dialect and the aggregation functions, run end to end on real SEAL."""
    from mplang.backends import load_builtins
    from mplang.dialects import bfv, tensor
    load_builtins()
    g = env.rng
    if 'prog' not in _K:
        pk, sk = bfv.keygen(4096)
        _K['prog'] = (pk, sk, bfv.make_galois_keys(sk), bfv.make_relin_keys(sk), bfv.create_encoder(4096))
    pk, sk, gk, rk, enc = _K['prog']
    vec = lambda: np.array([g.randint(-300, 300) for _ in range(4096)], dtype=np.int64)
    ct = lambda v: bfv.encrypt(bfv.encode(tensor.constant(v), enc), pk)
    out = lambda c: cmod(np.asarray(bfv.decode(bfv.decrypt(c, sk), enc).runtime_obj.unwrap()))
    x, y = vec(), vec()
    cx, cy = ct(x), ct(y)
    py = bfv.encode(tensor.constant(y), enc)
    what = g.choice(['sub', 'sum', 'bucket', 'sparse', 'strided', 'masked', 'mul', 'batch', 'batch'])
    env.inputs['what'] = what
    if what == 'sub':
        env.prove('ct - ct', np.array_equal(out(bfv.sub(cx, cy)), cmod(x - y)))
        env.prove('ct - pt', np.array_equal(out(bfv.sub(cx, py)), cmod(x - y)))
        env.prove('pt - ct', np.array_equal(out(bfv.sub(py, cx)), cmod(y - x)))
    elif what == 'mul':
        env.prove('ct * ct', np.array_equal(out(bfv.relinearize(bfv.mul(cx, cy), rk)), cmod(x * y)))
        env.prove('ct + pt', np.array_equal(out(bfv.add(py, cx)), cmod(x + y)))
    elif what == 'batch':
        n = g.randint(1, 3)
        env.inputs['rows'] = n
        m = np.array([vec() for _ in range(n)])
        ps = bfv.batch_encode(tensor.constant(m), enc, key=pk)
        env.prove('one plaintext per row', len(ps) == n)
        for i in range(n):
            env.prove('encoded - ct', np.array_equal(out(bfv.sub(ps[i], cx)), cmod(m[i] - x)))
            env.prove('ct + encoded', np.array_equal(out(bfv.add(cx, ps[i])), cmod(m[i] + x)))
            env.prove('encoded * ct', np.array_equal(out(bfv.relinearize(bfv.mul(ps[i], cx), rk)), cmod(m[i] * x)))
    elif what == 'sum':
        k = g.choice([1, 2, 3, 2047, 2048, 2049, 4095, 4096, g.randint(1, 4096)])
        env.inputs['k'] = k
        env.prove('the first k slots', out(A.rotate_and_sum(cx, k, gk))[0] == cmod([x[:k].sum()])[0])
    elif what == 'bucket':
        nb = g.choice([1, 2, 4, 8, 64, 512])
        st = 4096 // nb
        s = g.randint(1, min(st, 2048))
        env.inputs.update(n_buckets=nb, samples=s)
        r = A.extract_bucket_results(out(A.batch_bucket_aggregate(cx, nb, s, gk)), nb)
        env.prove('one sum per bucket', np.array_equal(np.asarray(r), cmod([x[b * st:b * st + s].sum() for b in range(nb)])))
    elif what == 'sparse':
        spec = [(t, g.sample(range(4096), 2)) for t in g.sample(range(4096), 2)]
        env.inputs['spec'] = spec
        r = out(A.aggregate_sparse(cx, spec, gk, enc, 4096))
        w = np.zeros(4096, dtype=np.int64)
        for t, s in spec:
            w[t] = x[s].sum()
        env.prove('targets hold the sums', np.array_equal(r, cmod(w)))
    elif what == 'strided':
        st = g.choice([64, 100, 1, 2048, 1500])
        n = g.randint(1, 4095 // st + 1)
        env.inputs.update(stride=st, n=n)
        env.prove('the strided slots', out(A.strided_rotate_and_sum(cx, st, n, gk))[0] == cmod([x[::st][:n].sum()])[0])
    else:
        m = (y % 2)
        pm, pn = bfv.encode(tensor.constant(m), enc), bfv.encode(tensor.constant(1 - m), enc)
        env.prove('the masked sum', np.array_equal(out(A.masked_aggregate([cx, cy], [pm, pn])), cmod(x * m + y * (1 - m))))


def h_received(env):
    """A plaintext added to (or subtracted from) a received product with zero, and a received ciphertext minus itself."""
    g = env.rng
    z = sent(make(g, 'tr')[0])
    for nm in ('add', 'sub'):
        for k in ('pt', 'raw'):
            p, w = make(g, k)
            for a, b, want in ((z, p, w if nm == 'add' else -w), (p, z, w)):
                try:
                    r = getattr(B, nm + '_impl')(None, op(), a, b)
                except AttributeError as e:
                    env.fail(f'received zero product {nm} plaintext', str(e))
                    continue
                env.prove('the result', np.array_equal(dec(r), cmod(want)))


def h_straddle(env):
    """A bucket whose region lies in both rows of slots."""
    c = lin(env, 2048)
    stride = 4096 // 10
    r = A.batch_bucket_aggregate(c, 10, stride, 'gk', 4096)
    x = np.arange(4096)
    b = 5           # slots 2045 .. 2453
    # output slot p of row q is the sum of coef[f, o] * x[q xor f, (p + o) mod 2048]
    q, p = divmod(b * stride, 2048)
    got = sum(int(r.c[f, o]) * int(x.reshape(2, 2048)[q ^ f, (p + o) % 2048]) for f, o in np.argwhere(r.c))
    env.prove('bucket 5 of 10, which crosses from the first row of slots to the second, is summed', got == int(x[b * stride:(b + 1) * stride].sum()))


def harnesses():
    return [
        H('add', binary('add'), functions=['add_impl', 'decrypt_impl', 'decode_impl', '_ensure_plaintext'], cover=('end',)),
        H('sub', binary('sub'), functions=['sub_impl', 'decrypt_impl', '_ensure_plaintext']),
        H('mul', binary('mul'), functions=['mul_impl', '_ensure_plaintext']),
        H('relinearize', h_relin, functions=['relinearize_impl']),
        H('rotate', h_rotate, functions=['rotate_impl', 'rotate_columns_impl']),
        H('encrypt', h_encrypt, functions=['encode_impl', 'encrypt_impl', 'decrypt_impl', 'decode_impl']),
        H('safe-rotate', h_safe, conc=0, functions=['_safe_rotate']),
        H('window', h_window, conc=0, functions=['_sum_window']),
        H('sum', h_sum, conc=0, functions=['rotate_and_sum', '_rotate_and_sum_row']),
        H('bucket', h_bucket, conc=0, functions=['batch_bucket_aggregate']),
        H('strided', h_strided, conc=0, functions=['strided_rotate_and_sum']),
        H('masked', h_masked, unbounded=False, bound=4, functions=['masked_aggregate']),
        H('every-k', h_every_k, sym=False, conc=1, conc_s=60, functions=['rotate_and_sum']),
        H('layouts', h_layouts, sym=False, conc=400, conc_s=10, functions=['batch_bucket_aggregate', 'strided_rotate_and_sum']),
        H('sparse', h_sparse, sym=False, conc=400, conc_s=10, functions=['aggregate_sparse']),
        H('real', h_real, sym=False, conc=150, conc_s=40, functions=['add_impl', 'sub_impl', 'mul_impl', 'rotate_impl', 'BFVValue.to_json', 'BFVValue.from_json']),
        H('program', h_program, sym=False, conc=40, conc_s=40, functions=['bfv.add', 'bfv.sub', 'bfv.mul', 'rotate_and_sum', 'batch_bucket_aggregate', 'aggregate_sparse']),
        H('received-zero', h_received, sym=False, conc=1, conc_s=30, functions=['add_impl', 'sub_impl']),
        H('straddle', h_straddle, sym=False, conc=1, functions=['batch_bucket_aggregate']),
    ]
