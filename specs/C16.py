"""C16  GF(2^128) multiplication is field multiplication in both kernels.

The kernels themselves are verified in C16_native.py (exact GF(2) normal forms over the Python source and over the LLVM IR of the C++).  Here:
the batch function over any number of elements and any shape, the wrapper that calls either kernel, and concrete runs of everything."""
import ctypes
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M, loops

INSTRUMENT = ['mplang.kernels.py_kernels', 'mplang.backends.field_impl']
ASSUMPTIONS = ['operands have the same shape, whose last dimension is 2, and hold unsigned 64-bit words (what the field dialect documents)',
               'the buffers handed to the native kernel do not overlap (the result is a new array)',
               'NumPy: reshape(-1, 2) and back keeps the elements in row-major order; ascontiguousarray keeps the values; zeros_like makes a new array of the same shape']
TRUSTED = ['clang (C++ to LLVM IR), pclmulqdq = carry-less product of the selected halves', 'OpenMP static scheduling runs every iteration once', 'NumPy, ctypes']

import pyvc.nospu  # noqa
import numpy as np
import mplang.kernels.py_kernels as K
import mplang.backends.field_impl as F
from pyvc import kernels

MUL = z3.Function('field_product', z3.IntSort(), z3.IntSort(), z3.IntSort())
class Log(list):
    loop = False


LOG = Log()      # the stores of the iteration under verification


class Elt:
    """one element of an array: a pair of words, known by a term"""
    _vf_ok = True

    def __init__(self, t): self.t = t


class Arr:
    """an array of shape (..., 2): its elements in row-major order, as a function of the index"""
    _vf_ok = True

    def __init__(self, shape, n, at, tag='', flat=False):
        self.shape, self.n, self.at, self.tag, self.flat = shape, n, at, tag, flat

    ndim = property(lambda s: 2 if s.flat else 3)
    size = property(lambda s: s.n * 2)
    dtype = np.dtype('uint64')

    def vf_len(self):
        if not self.flat:
            raise core.Unsupported('len of an unknown shape')
        return self.n

    def vf_iter(self):
        if not self.flat:
            raise core.Unsupported('iterating an unknown shape')
        return C.sym_seq(self.n, lambda i: self[i], 'list')

    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        if sh == (-1, 2) or (len(sh) == 2 and sh[1] == 2 and loops.must_eq(sh[0], self.n)):
            return Arr((self.n, 2), self.n, self.at, self.tag, True)
        if sh == (SHAPE,) or (len(sh) == 1 and sh[0] is SHAPE):
            return Arr(SHAPE, self.n, self.at, self.tag)
        if sh == SHAPE or sh is SHAPE:
            return Arr(SHAPE, self.n, self.at, self.tag)
        raise core.Unsupported(f'reshape {sh}')

    def __getitem__(self, i):
        if not self.flat or not isinstance(i, (int, core.SInt)):
            raise core.Unsupported('an index into an unknown shape')
        core.ENG.prove('reads inside of the array', core.And(i >= 0, i < self.n))
        if LOG.loop and self.tag == 'new':
            raise core.Unsupported('a read of the result inside of the loop')
        return Elt(self.at(i))

    def __setitem__(self, i, v):
        if not self.flat or not isinstance(i, (int, core.SInt)) or not isinstance(v, Elt):
            raise core.Unsupported('a store into an unknown shape')
        core.ENG.prove('writes inside of the array', core.And(i >= 0, i < self.n))
        if LOG.loop:
            LOG.append((self, i, v.t))
        else:
            f = self.at
            self.at = lambda k: z3.If(core.iterm(k) == core.iterm(i), v.t, f(k))

    @property
    def ctypes(self): return Buf(self)


class Buf:
    _vf_ok = True

    def __init__(self, a): self.a = a

    def data_as(self, t): return Pointer(self.a)


class Pointer:
    _vf_ok = True

    def __init__(self, a): self.a = a


class Shape:
    _vf_ok = True

    def __getitem__(self, k):
        if k == -1:
            return 2
        raise core.Unsupported('a dimension of an unknown shape')


SHAPE = Shape()


def arr(env, name, n):
    f = z3.Function(name, z3.IntSort(), z3.IntSort())
    return Arr(SHAPE, n, lambda i: f(core.iterm(i)), name)


def numpy_contracts(env):
    def zeros_like(a, dtype=None):
        return Arr(a.shape, a.n, lambda i: z3.IntVal(0), 'new', a.flat)

    def contig(a, dtype=None):
        if dtype is not None and np.dtype(dtype) != np.dtype('uint64'):
            raise core.Unsupported(f'as {dtype}')
        return Arr(a.shape, a.n, a.at, a.tag, a.flat)
    M.STUBS[np.zeros_like] = zeros_like
    M.STUBS[np.empty_like] = zeros_like
    M.STUBS[np.ascontiguousarray] = contig


def each_row(env, n):
    """A loop that fills an array, one element per iteration: for an arbitrary iteration, exactly one store, to an array the body does not read;
    stores of different iterations do not collide.  Afterwards every stored element is known."""
    def handler(seq, body, get, set_, info):
        e = core.ENG
        i = core.fresh_int('i')
        m = C.seq_len(seq)
        entry = get()
        if core.And(m > 0):
            pass
        else:
            return (True, None)
        e.assume(core.And(i >= 0, i < m))
        before = len(LOG)
        LOG.loop = True
        x = body(C.seq_get(seq, i))
        LOG.loop = False
        if x is not None:
            raise core.Unsupported('the loop is left')
        if len(LOG) != before + 1:
            raise core.Unsupported('not one store per iteration')
        a, j, t = LOG.pop()
        if a.tag != 'new':
            raise core.Unsupported('a store into an operand')
        env.prove('iteration i stores element i', env.eq(j, i))
        env.prove('as many iterations as elements', env.eq(m, a.n))
        iv = core.iterm(i)
        a.at = lambda k, t=t, iv=iv: z3.substitute(t, (iv, core.iterm(k)))
        now = get()
        set_({k: (loops.Poison(k) if k not in entry or (v is not entry[k]) else v) for k, v in now.items()})
        return (True, None)
    loops.HANDLERS.append((lambda seq, info: True, handler))


def product(env, r, a, b, n):
    env.prove('an array of the same shape', isinstance(r, Arr) and r.shape is SHAPE and r is not a and r is not b)
    env.prove('as many elements', env.eq(r.n, n))
    k = core.fresh_int('k')
    core.ENG.assume(core.And(k >= 0, k < n))
    env.prove('every element is the product of those at its place', core.mkbool(r.at(k) == MUL(a.at(k), b.at(k))) if r.at(k) is not None else False)


def h_batch(env):
    """The pure-Python batch function returns, for any number of elements in any shape, the element products at the same places."""
    n = env.length('n', 0)
    del LOG[:]
    LOG.loop = False
    numpy_contracts(env)
    a, b = arr(env, 'a', n), arr(env, 'b', n)
    M.STUBS[K.gf128_mul_single] = lambda x, y: Elt(MUL(x.t, y.t))
    if env.bound is None:
        each_row(env, n)
    x = env.run(K.gf128_mul_batch, a, b)
    env.prove('returns', x[0] == 'ok', x)
    product(env, x[1], a, b, n)


def h_wrapper(env):
    """The backend multiplies with the native kernel where there is one, with the Python kernel otherwise; either way the result is the batch
    product: the native one is given contiguous buffers of the operands, a new buffer, and the number of elements."""
    n = env.length('n', 0)
    del LOG[:]
    LOG.loop = False
    numpy_contracts(env)
    a, b = arr(env, 'a', n), arr(env, 'b', n)
    log = []

    def mul_batch(pa, pb, po, k):
        env.prove('pointers to buffers', all(isinstance(p, Pointer) for p in (pa, pb, po)))
        env.prove('the buffers hold the operands', all(core.sym_eq(p.a.n, n) for p in (pa, pb)))
        env.prove('a new buffer, large enough', po.a.tag == 'new' and po.a is not pa.a and po.a is not pb.a)
        env.prove('all elements', env.eq(k, n))
        f, g = pa.a.at, pb.a.at
        po.a.at = lambda i: MUL(f(i), g(i))
        log.append('native')

    def batch(x, y):
        log.append('python')
        f, g = x.at, y.at
        return Arr(x.shape, x.n, lambda i: MUL(f(i), g(i)), 'product')

    class Lib:
        _vf_ok = True
        gf128_mul_batch = staticmethod(mul_batch)

        @staticmethod
        def gf128_mul(*a): raise core.Unsupported('one at a time')
    native = env.choice('native', [True, False])
    M.STUBS[F._get_lib] = lambda: Lib if native else None
    M.STUBS[K.gf128_mul_batch] = batch
    x = env.run(F._gf128_mul_impl, a, b)
    env.prove('returns', x[0] == 'ok', x)
    product(env, x[1], a, b, n)
    env.prove('once', len(log) == 1)


# ---------------------------------------------------------------- concrete
def ref(a, b):
    p = 0
    while b:
        if b & 1:
            p ^= a
        a <<= 1
        if a >> 128:
            a ^= (1 << 128) | 0x87
        b >>= 1
    return p


def pick(g):
    k = g.random()
    if k < .15:
        return 1 << g.randrange(128)
    if k < .25:
        return (1 << 128) - 1 - g.getrandbits(g.choice([0, 3, 64, 128])) % (1 << 128)
    if k < .35:
        return g.getrandbits(64) << 64
    if k < .45:
        return g.getrandbits(64)
    if k < .5:
        return 0
    return g.getrandbits(128)


def pack(vals, shape):
    return np.array([[v & (1 << 64) - 1, v >> 64] for v in vals], dtype=np.uint64).reshape(*shape, 2)


def unpack(r): return [int(p[0]) | int(p[1]) << 64 for p in np.asarray(r).reshape(-1, 2)]


def awkward(g, x):
    """the same array, laid out differently in memory"""
    k = g.randrange(5)
    if k == 0:
        return x
    if k == 1:
        return np.asfortranarray(x)
    if k == 2:
        y = np.zeros((*x.shape[:-1], 4), np.uint64)
        y[..., ::2] = x
        return y[..., ::2]
    if k == 3:
        return np.ascontiguousarray(x[..., ::-1])[..., ::-1]
    if x.shape[0]:
        return np.ascontiguousarray(x[::-1])[::-1]
    return x


def h_kernels(env):
    """Both kernels, through the backend, on batches of every shape and memory layout: the field product, element by element."""
    g = env.rng
    shape = g.choice([(1,), (0,), (g.randrange(1, 9),), (2, 3), (g.randrange(1, 4), 1, 2), (2, 2, 2)])
    n = int(np.prod(shape))
    va, vb = [pick(g) for _ in range(n)], [pick(g) for _ in range(n)]
    want = [ref(x, y) for x, y in zip(va, vb)]
    outs = {}
    for native in (True, False):
        kernels.use(F, native)
        A, B = awkward(g, pack(va, shape)), awkward(g, pack(vb, shape))
        keep = A.copy(), B.copy()
        env.run_native = native
        r = F._gf128_mul_impl(A, B)
        outs[native] = r
        env.prove(('native' if native else 'python') + ' kernel: shape', r.shape == A.shape and r.dtype == np.uint64, (r.shape, A.shape))
        env.prove(('native' if native else 'python') + ' kernel: product', unpack(r) == want, [(hex(x), hex(y), hex(z), hex(w)) for x, y, z, w in zip(va, vb, unpack(r), want) if z != w][:2])
        env.prove('operands unchanged', (A == keep[0]).all() and (B == keep[1]).all())
    env.prove('bit for bit alike', (outs[True] == outs[False]).all())


_basis = {}


def h_basis(env):
    """Every pair of powers of x, both kernels (a batch of 16384)."""
    if not _basis:
        va = [1 << i for i in range(128) for j in range(128)]
        vb = [1 << j for i in range(128) for j in range(128)]
        _basis['in'] = pack(va, (128 * 128,)), pack(vb, (128 * 128,))
        _basis['want'] = [ref(x, y) for x, y in zip(va, vb)]
    native = _basis.get('turn', True)
    _basis['turn'] = not native
    kernels.use(F, native)
    got = unpack(F._gf128_mul_impl(*_basis['in']))
    bad = [(divmod(k, 128), hex(got[k])) for k in range(len(got)) if got[k] != _basis['want'][k]]
    env.prove(('native' if native else 'python') + ' kernel: products of powers of x', not bad, bad[:3])


def h_program(env):
    """field.mul in a traced program gives the field product."""
    import mplang.edsl as el
    g = env.rng
    from mplang.dialects import field, tensor
    from mplang.backends.tensor_impl import TensorValue
    native = g.random() < .5
    kernels.use(F, native)
    n = g.randrange(1, 5)
    va, vb = [pick(g) for _ in range(n)], [pick(g) for _ in range(n)]
    r = F._mul_impl(None, None, TensorValue(pack(va, (n,))), TensorValue(pack(vb, (n,))))
    env.prove('field.mul', unpack(r.unwrap()) == [ref(x, y) for x, y in zip(va, vb)])


def harnesses():
    return [H('batch', h_batch, conc=0, functions=['gf128_mul_batch'], what=h_batch.__doc__),
            H('wrapper', h_wrapper, conc=0, functions=['_gf128_mul_impl'], what=h_wrapper.__doc__),
            H('kernels', h_kernels, sym=False, conc=1500, conc_s=12, functions=['gf128_mul', 'gf128_mul_batch', '_gf128_mul_impl'], what=h_kernels.__doc__),
            H('basis', h_basis, sym=False, conc=2, conc_s=30, functions=['gf128_mul', 'gf128_mul_batch'], what=h_basis.__doc__),
            H('program', h_program, sym=False, conc=100, conc_s=5, functions=['field.mul'], what=h_program.__doc__)]
