"""Terms for protocol algebra, in normal form: GF(2) polynomials over bits and opaque atoms, group elements as integer polynomials,
and arrays of terms given by a function of the index (an extent may be symbolic: its index is then a token that stands for any).
Equality of normal forms is identity for every value of the bits and atoms."""
import itertools
import numpy as np
from . import core

BIT = '#bit'


class Refused(Exception):
    """the operation refuses its operands"""


class X:
    """sum over GF(2) of monomials (set of bits) * atom"""
    _vf_ok = True
    __slots__ = ('m', 'h')

    def __init__(self, m=()):
        self.m = frozenset(m)
        self.h = hash(self.m)

    def __hash__(self): return self.h
    def __eq__(self, o):
        return isinstance(o, X) and self.m == o.m if not isinstance(o, (int, np.integer)) else NotImplemented
    def __repr__(self): return ' + '.join('.'.join(map(str, sorted(map(repr, b)))) + (f'[{a!r}]'[:120] if a is not None else '') or '1' for b, a in sorted(self.m, key=repr)) or '0'

    def __xor__(self, o): return X(self.m ^ as_x(o).m)
    __rxor__ = __xor__

    def __mul__(self, o):
        r = {}
        for (b, a), (c, d) in itertools.product(self.m, as_x(o).m):
            if a is not None and d is not None:
                if a != d or True:
                    raise core.Unsupported('product of two atoms')
            k = (b | c, a if a is not None else d)
            r[k] = r.get(k, 0) ^ 1
        return X(k for k, v in r.items() if v)

    def bits(self): return frozenset().union(*[b for b, _ in self.m]) if self.m else frozenset()

    def sub(self, s):
        r = {}
        for b, a in self.m:
            if any(s.get(x) == 0 for x in b):
                continue
            k = (frozenset(x for x in b if x not in s), a)
            r[k] = r.get(k, 0) ^ 1
        return X(k for k, v in r.items() if v)

    def atom(self):
        """the single atom this is"""
        if len(self.m) == 1:
            (b, a), = self.m
            if not b and a is not None:
                return a
        return None


ZERO, ONE = X(), X([(frozenset(), None)])


def atom(*a): return X([(frozenset(), a)])
def bit(*b): return X([(frozenset([b]), None)])


def as_x(v):
    if isinstance(v, X):
        return v
    if isinstance(v, (int, np.integer, bool, np.bool_)) and v in (0, 1):
        return ONE if v else ZERO
    raise core.Unsupported(f'not a GF(2) term: {v!r}'[:100])


class Poly:
    """a scalar, or the discrete logarithm of a point: an integer polynomial over random scalars and bits"""
    _vf_ok = True

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v}

    def __hash__(self): return hash(frozenset(self.m.items()))
    def __eq__(self, o): return isinstance(o, Poly) and self.m == o.m
    def __repr__(self): return f'Poly{self.m}'
    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)
    def __neg__(self): return Poly({k: -v for k, v in self.m.items()})
    def __sub__(self, o): return self + -o
    def __mul__(self, o):
        r = {}
        for (k, v), (l, w) in itertools.product(self.m.items(), o.m.items()):
            s = sorted(k + l, key=repr)
            t = tuple(x for i, x in enumerate(s) if not (x[0] == BIT and i and s[i - 1] == x))     # b*b = b
            r[t] = r.get(t, 0) + v * w
        return Poly(r)
    def bits(self): return frozenset(x[1] for k in self.m for x in k if x[0] == BIT)
    def sub(self, s):
        r = {}
        for k, v in self.m.items():
            if any(x[0] == BIT and s.get(x[1]) == 0 for x in k):
                continue
            t = tuple(x for x in k if not (x[0] == BIT and x[1] in s))
            r[t] = r.get(t, 0) + v
        return Poly(r)


def pvar(*v): return Poly({(v,): 1})
def pint(n): return Poly({(): n})


def pbit(x):
    """the polynomial of a bit"""
    if isinstance(x, (int, np.integer)):
        return pint(int(x))
    r = pint(0)
    for b, a in as_x(x).m:
        if a is not None:
            raise core.Unsupported('an atom used as a number')
        m = Poly({tuple(sorted(((BIT, y) for y in b), key=repr)): 1})
        r = r + m - pint(2) * r * m
    return r


def tbits(a):
    if isinstance(a, (X, Poly)):
        return a.bits()
    if isinstance(a, tuple):
        return frozenset().union(*[tbits(x) for x in a]) if a else frozenset()
    if hasattr(a, 'tbits'):
        return a.tbits()
    return frozenset()


def tsub(a, s):
    if isinstance(a, (X, Poly)):
        return a.sub(s)
    if isinstance(a, tuple):
        return tuple(tsub(x, s) for x in a)
    if hasattr(a, 'tsub'):
        return a.tsub(s)
    return a


def cases(args, limit=6):
    """[(indicator, args under it)] over the bits the arguments depend on"""
    bs = sorted(tbits(args), key=repr)
    if len(bs) > limit:
        raise core.Unsupported('a function of too many bits')
    for v in itertools.product((0, 1), repeat=len(bs)):
        s = dict(zip(bs, v))
        ind = ONE
        for b, x in s.items():
            ind = ind * (bit(*b) if x else bit(*b) ^ ONE)
        yield ind, tsub(args, s)


def fun(name, *args):
    """an uninterpreted function of terms"""
    r = ZERO
    for ind, a in cases(args):
        r = r ^ ind * atom(name, *a)
    return r


class Pack:
    """a byte made of 8 bits, most significant first"""
    _vf_ok = True
    def __init__(self, b): self.b = tuple(b)
    def __hash__(self): return hash(self.b)
    def __eq__(self, o): return isinstance(o, Pack) and self.b == o.b
    def __xor__(self, o):
        if isinstance(o, Pack):
            return Pack(x ^ y for x, y in zip(self.b, o.b))
        raise core.Unsupported('packed with unpacked')
    def __repr__(self): return f'Pack{self.b}'
    def tbits(self): return tbits(self.b)
    def tsub(self, s): return Pack(tsub(self.b, s))


class PB:
    """a byte of the encoding of a point"""
    _vf_ok = True
    def __init__(self, p, b): self.p, self.b = p, b
    def __hash__(self): return hash((self.p, self.b))
    def __eq__(self, o): return isinstance(o, PB) and (self.p, self.b) == (o.p, o.b)


class Arr:
    """an array of terms; extents are ints or names"""
    _vf_ok = True
    __array_priority__ = 1000

    def __init__(self, dims, f, dtype=None):
        self.shape, self._f, self._m, self.dtype = tuple(dims), f, {}, dtype

    @property
    def ndim(self): return len(self.shape)

    def at(self, *i):
        if len(i) != self.ndim:
            raise core.Unsupported(f'{len(i)} indices of an array of {self.ndim} dimensions')
        for k, d in zip(i, self.shape):
            if isinstance(k, int) and isinstance(d, int) and not 0 <= k < d:
                raise core.Unsupported(f'index {k} of {d}')
        if i not in self._m:
            self._m[i] = self._f(*i)
        return self._m[i]

    def row(self, *i): return tuple(self.at(*i, k) for k in range(self.shape[-1]))

    def reshape(self, *dims):
        if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
            dims = tuple(dims[0])
        dims = list(dims)
        if -1 in dims:
            k = dims.index(-1)
            rest = [d for d in dims if d != -1]
            mine = list(self.shape)
            for d in [d for d in rest if not isinstance(d, int)]:
                mine.remove(d)
                rest.remove(d)
            if all(isinstance(d, int) for d in mine):
                a, b = int(np.prod(mine)), int(np.prod(rest)) if rest else 1
                if a % b:
                    raise Refused('cannot reshape')
                dims[k] = a // b
            else:
                left = [d for d in mine if not isinstance(d, int)]
                if len(left) == 1 and int(np.prod([d for d in mine if isinstance(d, int)])) == int(np.prod(rest)):
                    dims[k] = left[0]
                else:
                    raise core.Unsupported(f'reshape {self.shape} {dims}')
        src, me = self.shape, self
        a, b = [d for d in src if d != 1], [d for d in dims if d != 1]
        if a == b:
            def f(*i):
                it = iter([k for k, d in zip(i, dims) if d != 1])
                return me.at(*[next(it) if d != 1 else 0 for d in src])
            return Arr(dims, f, self.dtype)
        lead = 0
        while lead < min(len(src), len(dims)) and src[lead] == dims[lead]:
            lead += 1
        ra, rb = src[lead:], dims[lead:]
        if not all(isinstance(d, int) for d in [*ra, *rb]):
            raise core.Unsupported(f'reshape {src} {dims}')
        if int(np.prod(ra)) != int(np.prod(rb)):
            raise Refused(f'cannot reshape {src} into {dims}')

        def f(*i):
            n = int(np.ravel_multi_index(i[lead:], rb)) if rb else 0
            return me.at(*i[:lead], *(int(k) for k in np.unravel_index(n, ra)))
        return Arr(dims, f, self.dtype)

    def flatten(self): return self.reshape(-1)
    def astype(self, t): return Arr(self.shape, self._cast, t)
    def _cast(self, *i): return self.at(*i)

    def view(self, t):
        t = np.dtype(t)
        w = np.dtype(self.dtype).itemsize
        if t.itemsize == w:
            return Arr(self.shape, self.at, t)
        if t.itemsize == 1:
            def f(*i):
                x = self.at(*i[:-1], i[-1] // w)
                a = x.atom() if isinstance(x, X) else None
                if a is None:
                    raise core.Unsupported('a byte of a compound term')
                return atom('byte', a, i[-1] % w)
            return Arr((*self.shape[:-1], self.shape[-1] * w), f, t)
        raise core.Unsupported('view')

    def __getitem__(self, key):
        if isinstance(key, Arr):
            if self.ndim != 1:
                raise core.Unsupported('gather')
            return Arr(key.shape, lambda *i: self.at(key.at(*i)), self.dtype)
        key = list(key) if isinstance(key, tuple) else [key]
        dims, plan, d = [], [], 0
        key += [slice(None)] * (self.ndim - sum(k is not None for k in key))
        for k in key:
            if k is None:
                dims.append(1)
                plan.append(('new',))
                continue
            n = self.shape[d]
            if isinstance(k, (int, np.integer)):
                k = int(k)
                if isinstance(n, int) and not -n <= k < n:
                    k = min(max(k, -n), n - 1)      # what jax does with an index out of range
                plan.append(('fix', k % n if isinstance(n, int) else k))
            elif isinstance(k, slice) and k.step in (None, 1):
                a, b = k.start or 0, n if k.stop is None else k.stop
                if isinstance(n, int) and isinstance(a, int) and isinstance(b, int):
                    a, b, _ = slice(a, b).indices(n)
                    dims.append(max(b - a, 0))
                elif a == 0 and b == n:
                    dims.append(n)
                else:
                    raise core.Unsupported(f'slice {a}:{b} of {n}')
                plan.append(('off', a))
            else:
                raise core.Unsupported(f'index {k!r}')
            d += 1
        if d != self.ndim:
            raise Refused('too many indices')

        def f(*i):
            it, out = iter(i), []
            for p in plan:
                if p[0] == 'new':
                    next(it)
                elif p[0] == 'fix':
                    out.append(p[1])
                else:
                    x = next(it)
                    out.append(x + p[1] if p[1] else x)
            return self.at(*out)
        return Arr(dims, f, self.dtype)

    def __len__(self): return self.shape[0]
    def __xor__(self, o): return zipw(lambda a, b: a ^ b, self, o)
    __rxor__ = __xor__
    def __and__(self, o): return zipw(tand, self, o)
    __rand__ = __and__
    def __or__(self, o): return zipw(tor, self, o)
    def __mul__(self, o): return zipw(tmul, self, o)
    __rmul__ = __mul__
    def all(self, axis=None): return Jnp().all(self, axis)
    def any(self, axis=None): return Jnp().any(self, axis)
    @property
    def T(self): return Jnp().transpose(self)
    def __add__(self, o): return zipw(lambda a, b: a + b, self, o)
    def __sub__(self, o): return zipw(lambda a, b: a - b, self, o)
    def __eq__(self, o): return zipw(teq, self, o)
    def __ne__(self, o): return zipw(lambda a, b: ONE ^ teq(a, b), self, o)
    __hash__ = object.__hash__


def tand(a, b):
    if isinstance(a, Pack) or isinstance(b, Pack):
        raise core.Unsupported('and of packed bytes')
    return as_x(a) * b


def tor(a, b):
    a, b = as_x(a), as_x(b)
    return a ^ b ^ a * b


def tmul(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a * b
    if all(x is None for v in (a, b) for _, x in as_x(v).m) or any(all(x is None for _, x in as_x(v).m) for v in (a, b)):
        return as_x(a) * b      # a bit times a term
    raise core.Unsupported('product of terms')


class Any:
    """whether some index makes it true"""
    _vf_ok = True
    def __init__(self, f): self.f = f


def teq(a, b):
    if isinstance(b, (int, np.integer)) and int(b) in (0, 1) and isinstance(a, X) and all(c is None for _, c in a.m):
        return a if int(b) == 1 else a ^ ONE
    raise core.Unsupported('comparison of terms')


def lift(a):
    if isinstance(a, Arr):
        return a
    a = np.asarray(a)
    return Arr(a.shape, lambda *i: int(a[i]) if a.dtype != bool else int(bool(a[i])), a.dtype)


def bshape(*shapes):
    n = max(map(len, shapes))
    out = []
    for k in range(n):
        d = {s[k - n + len(s)] for s in shapes if k - n + len(s) >= 0}
        d.discard(1)
        if len(d) > 1:
            raise Refused(f'incompatible shapes for broadcasting: {shapes}')
        out.append(d.pop() if d else 1)
    return tuple(out)


def zipw(g, *arrs):
    arrs = [lift(a) for a in arrs]
    dims = bshape(*[a.shape for a in arrs])

    def pick(a, i):
        i = i[len(dims) - a.ndim:]
        return a.at(*[0 if d == 1 else k for k, d in zip(i, a.shape)])
    return Arr(dims, lambda *i: g(*[pick(a, i) for a in arrs]), arrs[0].dtype)


def twhere(c, a, b):
    c = as_x(c)
    if any(x is not None for _, x in c.m):
        raise core.Unsupported('a condition that is not a bit')
    return c * as_x(a) ^ (c ^ ONE) * as_x(b)


def bitof(x, k):
    """bit k (from the least significant) of a byte"""
    if isinstance(x, Pack):
        return x.b[7 - k]
    a = x.atom() if isinstance(x, X) else None
    if a is None:
        raise core.Unsupported('a bit of a compound term')
    return bit('bit', a, k)


class Jnp:
    """jax.numpy over arrays of terms"""
    _vf_ok = True
    uint8, uint64, int64, int32 = np.uint8, np.uint64, np.int64, np.int32
    ndarray = Arr

    def bitwise_xor(self, a, b): return zipw(lambda x, y: x ^ y, a, b)
    def bitwise_and(self, a, b): return zipw(tand, a, b)
    def bitwise_or(self, a, b): return zipw(tor, a, b)
    logical_and, logical_or = bitwise_and, bitwise_or
    def multiply(self, a, b): return zipw(tmul, a, b)
    def add(self, a, b): return zipw(lambda x, y: x + y, a, b)
    def subtract(self, a, b): return zipw(lambda x, y: x - y, a, b)
    def equal(self, a, b): return zipw(lambda x, y: teq(x, y), a, b)

    def all(self, a, axis=None):
        if a.ndim == 0 or axis not in (-1, a.ndim - 1) or not isinstance(a.shape[-1], int):
            raise core.Unsupported('all')

        def f(*i):
            r = ONE
            for k in range(a.shape[-1]):
                r = r * a.at(*i, k)
            return r
        return Arr(a.shape[:-1], f, bool)

    def any(self, a, axis=None):
        if axis is None:
            raise core.Unsupported('any')
        axis %= a.ndim
        return Arr((*a.shape[:axis], *a.shape[axis + 1:]), lambda *i: Any(lambda k: a.at(*i[:axis], k, *i[axis:])), bool)

    def where(self, c, a, b): return zipw(twhere, c, a, b)
    def zeros_like(self, a): return Arr(a.shape, lambda *i: ZERO, a.dtype)
    def zeros(self, shape, dtype=None): return Arr(shape if isinstance(shape, tuple) else (shape,), lambda *i: ZERO, dtype)

    def transpose(self, a, axes=None):
        axes = axes or tuple(range(a.ndim))[::-1]
        def f(*i):
            j = [None] * a.ndim
            for k, x in enumerate(axes):
                j[x] = i[k]
            return a.at(*j)
        return Arr([a.shape[x] for x in axes], f, a.dtype)

    def expand_dims(self, a, axis):
        a = lift(a)
        axis = axis % (a.ndim + 1)
        return Arr([*a.shape[:axis], 1, *a.shape[axis:]], lambda *i: a.at(*i[:axis], *i[axis + 1:]), a.dtype)

    def tile(self, a, reps):
        if len(reps) < a.ndim:
            reps = (1,) * (a.ndim - len(reps)) + tuple(reps)
        while a.ndim < len(reps):
            a = self.expand_dims(a, 0)
        dims = []
        for d, r in zip(a.shape, reps):
            if d == 1:
                dims.append(r)
            elif r == 1:
                dims.append(d)
            else:
                raise core.Unsupported('tile')
        return Arr(dims, lambda *i: a.at(*[0 if d == 1 else k for k, d in zip(i, a.shape)]), a.dtype)

    def broadcast_to(self, a, shape): return zipw(lambda x, _: x, a, Arr(shape, lambda *i: ZERO))

    def packbits(self, a, axis=None, bitorder='big'):
        if axis not in (-1, a.ndim - 1):
            raise core.Unsupported('packbits of another axis')
        n = a.shape[-1]
        if n % 8:
            raise core.Unsupported('packbits')
        def f(*i):
            b = [a.at(*i[:-1], 8 * i[-1] + k) for k in range(8)]
            return Pack(b if bitorder == 'big' else b[::-1])
        return Arr([*a.shape[:-1], n // 8], f, np.uint8)

    def unpackbits(self, a, axis=None, bitorder='big'):
        if axis is None:
            a = a.reshape(-1) if a.ndim > 1 else a
        elif axis not in (-1, a.ndim - 1):
            raise core.Unsupported('unpackbits of another axis')
        return Arr([*a.shape[:-1], a.shape[-1] * 8],
                   lambda *i: bitof(a.at(*i[:-1], i[-1] // 8), 7 - i[-1] % 8 if bitorder == 'big' else i[-1] % 8), np.uint8)

    def concatenate(self, xs, axis=0):
        xs = [lift(x) for x in xs]
        axis %= xs[0].ndim
        if not all(isinstance(x.shape[axis], int) for x in xs):
            raise core.Unsupported('concatenate')
        def f(*i):
            k = i[axis]
            for x in xs:
                if k < x.shape[axis]:
                    return x.at(*i[:axis], k, *i[axis + 1:])
                k -= x.shape[axis]
            raise IndexError
        dims = list(bshape(*[[d for j, d in enumerate(x.shape) if j != axis] for x in xs]))
        dims.insert(axis, sum(x.shape[axis] for x in xs))
        return Arr(dims, f, xs[0].dtype)

    def stack(self, xs, axis=0): return self.concatenate([self.expand_dims(x, axis) for x in xs], axis)

    def __getattr__(self, n):
        raise core.Unsupported(f'jnp.{n} of terms')
