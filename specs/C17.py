"""C17  Key-value and parity-check encodings decode correctly, in both kernels.

Native kernels: C17_native.py (LLVM IR).  Here: the hash, the decoder, the parity-check encoder and the peeling solver of the Python kernel, and
the wrappers that call either kernel, plus concrete runs of both."""
import warnings
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M, loops

INSTRUMENT = ['mplang.kernels.py_kernels', 'mplang.backends.field_impl']
ASSUMPTIONS = ['the table has at least one slot, the seed has two words, arrays hold unsigned 64-bit words and have the documented shapes',
               'the buffers handed to the native kernel do not overlap (the result is a new array)',
               'the hash is a function of key, table size and seed (its code reads nothing else; distinct positions for tables of three or more slots are proved)',
               'NumPy: xor acts element by element; zeros makes a new array of zeros; ascontiguousarray keeps the values']
TRUSTED = ['clang (C++ to LLVM IR)', 'OpenMP static scheduling runs every iteration once', 'NumPy, ctypes']

import pyvc.nospu  # noqa
import numpy as np
import mplang.kernels.py_kernels as K
import mplang.backends.field_impl as F
from pyvc import kernels

W = z3.BitVecSort(128)


def it(i): return i if isinstance(i, z3.ExprRef) else core.iterm(i)


I = z3.IntSort()


# ---------------------------------------------------------------- the hash
class Mix:
    """a non-negative machine word nobody looks into: arithmetic on it gives another one; its residues are numbers below the modulus"""
    _vf_ok = True

    def _op(self, *a): return Mix()
    __xor__ = __rxor__ = __and__ = __rand__ = __or__ = __mul__ = __rmul__ = __rshift__ = __lshift__ = __add__ = __radd__ = _op

    def __mod__(self, m):
        r = core.fresh_int('residue')
        core.ENG.assume(core.And(r >= 0, r < m))
        return r


def h_hash(env):
    """The three positions of a key lie inside of the table and, where it has three slots or more, differ."""
    m = env.int('m', 1)
    x = env.run(K._hash_key_py, Mix(), m, (Mix(), Mix()))
    env.prove('returns', x[0] == 'ok' and len(x[1]) == 3, x)
    a, b, c = x[1]
    for v in (a, b, c):
        env.prove('inside of the table', env.and_(v >= 0, v < m))
    env.prove('three different positions', env.or_(m < 3, env.and_(env.not_(env.eq(a, b)), env.not_(env.eq(b, c)), env.not_(env.eq(a, c)))))


# ---------------------------------------------------------------- arrays of blocks
class Blk:
    _vf_ok = True

    def __init__(self, t): self.t = t

    def __xor__(self, o):
        if not isinstance(o, Blk):
            raise core.Unsupported('xor of something else')
        return Blk(self.t ^ o.t)


class Blocks:
    """an array of n blocks (n, 2), each known by a term"""
    _vf_ok = True

    def __init__(self, n, at, new=False):
        self.n, self.at, self.new, self.log, self.frozen = n, at, new, None, False

    def vf_len(self): return self.n

    def vf_iter(self): return C.sym_seq(self.n, lambda i: self[i], 'list')

    @property
    def shape(self): return (self.n, 2)

    def inside(self, i):
        if not isinstance(i, (int, core.SInt)) or isinstance(i, bool):
            raise core.Unsupported('an index')
        core.ENG.prove('inside of the array', core.And(i >= 0, i < self.n))

    def __getitem__(self, i):
        self.inside(i)
        if self.log is not None:
            # inside of a loop that fills this array: only what this iteration stored, or the zero it starts from, may be read
            if not self.log:
                self.first = i
                return Blk(self.start(i))
            return Blk(z3.If(core.iterm(i) == core.iterm(self.log[-1][0]), self.log[-1][1], self.at(i)))
        return Blk(self.at(i))

    def start(self, i): return self.at(i)

    def __setitem__(self, i, v):
        self.inside(i)
        if not self.new or not isinstance(v, Blk):
            raise core.Unsupported('a store')
        if self.log is not None:
            self.log.append((i, v.t))
        else:
            f = self.at
            self.at = lambda k: z3.If(it(k) == it(i), v.t, f(k))

    ndim = 2
    dtype = np.dtype('uint64')

    @property
    def ctypes(self): return Buf(self)


class Words:
    """a one-dimensional array of words, each known by a term"""
    _vf_ok = True

    def __init__(self, n, at, what=''):
        self.n, self.at, self.what = n, at, what
    ndim = 1

    def flatten(self): return self      # of one dimension: the same words (a copy that is not written)

    def reshape(self, *sh):
        if sh in ((-1,), ((-1,),)):
            return self
        raise core.Unsupported('reshape')

    ravel = flatten

    def vf_len(self): return self.n

    def vf_iter(self): return C.sym_seq(self.n, lambda i: self[i], 'list')

    @property
    def shape(self): return (self.n,)

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi = core.iterm(i.start), core.iterm(i.stop)
            core.ENG.prove('the slice lies inside', core.mkbool(z3.And(lo >= 0, lo <= hi, hi <= core.iterm(self.n))))
            return C.sym_seq(core.SInt(hi - lo), lambda k: core.SInt(self.at(lo + core.iterm(k))), 'list')
        core.ENG.prove('inside of the array', core.And(i >= 0, i < self.n))
        return core.SInt(self.at(core.iterm(i)))

    @property
    def ctypes(self): return Buf(self)


class Buf:
    _vf_ok = True

    def __init__(self, a): self.a = a

    def data_as(self, t): return Ptr(self.a)


class Ptr:
    _vf_ok = True

    def __init__(self, a): self.a = a


def new_blocks(shape, dtype=None):
    if not (isinstance(shape, tuple) and len(shape) == 2 and shape[1] == 2):
        raise core.Unsupported('the shape of a new array')
    if dtype is None or np.dtype(dtype) != np.dtype('uint64'):
        raise core.Unsupported('a new array of something else')
    return Blocks(shape[0], lambda k: z3.BitVecVal(0, 128), True)


def filling(env, holder):
    """`for i in range(n)` that fills the new array: an arbitrary iteration stores exactly element i (any number of times), having read no other
    element of it; afterwards every element is known."""
    def handler(seq, body, get, set_, info):
        e = core.ENG
        n = C.seq_len(seq)
        entry = get()
        i = core.fresh_int('i')
        if n > 0:
            pass
        else:
            return (True, None)
        e.assume(core.And(i >= 0, i < n))
        out = holder['out']
        out.log, out.first = [], i
        if body(C.seq_get(seq, i)) is not None:
            raise core.Unsupported('the loop is left')
        log, out.log = out.log, None
        env.prove('reads no other element of the result', env.eq(out.first, i))
        for j, t in log:
            env.prove('iteration i stores element i', env.eq(j, i))
        env.prove('as many iterations as elements', env.eq(n, out.n))
        if not log:
            raise core.Unsupported('an iteration that stores nothing')
        holder['term'] = (core.iterm(i), log[-1][1])
        iv, t = holder['term']
        out.at = lambda k: z3.substitute(t, (iv, it(k)))
        now = get()
        set_({k: (loops.Poison(k) if k not in entry or v is not entry[k] else v) for k, v in now.items()})
        return (True, None)
    return handler


POS = [z3.Function(f'position{k}', I, I, I) for k in range(3)]


def hash_contract(m, seed):
    def h(key, mm, s):
        core.ENG.prove('the hash of this table', core.And(core.mkbool(core.iterm(mm) == core.iterm(m)), s is seed))
        p = [core.SInt(f(core.iterm(key), core.iterm(m))) for f in POS]
        for v in p:
            core.ENG.assume(core.And(v >= 0, v < m))
        return tuple(p)
    return h


def at3(blocks, key, m):
    f = blocks.at
    return f(core.SInt(POS[0](key, core.iterm(m)))) ^ f(core.SInt(POS[1](key, core.iterm(m)))) ^ f(core.SInt(POS[2](key, core.iterm(m))))


def blockfn(name):
    f = z3.Function(name, I, W)
    return lambda i: f(it(i))


def wordfn(name):
    f = z3.Function(name, I, I)
    return lambda i: f(it(i))


def h_decode(env):
    """The Python decoder returns, for every key of any number of them, the exclusive-or of the three blocks the key selects."""
    n, m = env.length('n', 0), env.int('m', 1)
    keys, store = Words(n, wordfn('key')), Blocks(m, blockfn('store'))
    seed = (7, 11)
    M.STUBS[K._hash_key_py] = hash_contract(m, seed)
    holder = {}

    def zeros(shape, dtype=None):
        holder['out'] = new_blocks(shape, dtype)
        return holder['out']
    M.STUBS[np.zeros] = zeros
    loops.HANDLERS.append((lambda seq, info: True, filling(env, holder)))
    x = env.run(K.okvs_decode, keys, store, m, seed)
    env.prove('returns', x[0] == 'ok', x)
    r = x[1]
    env.prove('as many values as keys', isinstance(r, Blocks) and r.new and core.sym_eq(r.n, n))
    k = core.fresh_int('k')
    core.ENG.assume(core.And(k >= 0, k < n))
    env.prove('the blocks selected', core.mkbool(r.at(k) == at3(store, keys.at(k), m)))


def h_ldpc(env):
    """The Python parity-check encoder returns, for every row, the exclusive-or of the message blocks that row selects (any matrix)."""
    n, m, nz = env.length('n', 0), env.length('m', 0), env.length('nz', 0)
    msg, idx, ptr = Blocks(n, blockfn('message')), Words(nz, wordfn('index')), Words(m + 1, wordfn('start'))
    e = core.ENG
    a = z3.Int('a')
    e.assume(core.mkbool(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a <= core.iterm(m)), z3.And(ptr.at(a) >= 0, ptr.at(a) <= core.iterm(nz))))))
    e.assume(core.mkbool(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < core.iterm(m)), ptr.at(a) <= ptr.at(a + 1)))))
    e.assume(core.mkbool(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < core.iterm(nz)), z3.And(idx.at(a) >= 0, idx.at(a) < core.iterm(n))))))
    SUM = z3.Function('parity', I, I, W)          # parity(lo, k): the xor of the first k blocks selected from lo on

    def unfold(lo, k):
        e.assume(core.mkbool(SUM(lo, 0) == z3.BitVecVal(0, 128)))
        e.assume(core.mkbool(z3.Implies(k >= 0, SUM(lo, k + 1) == SUM(lo, k) ^ msg.at(core.SInt(idx.at(lo + k))))))
    holder = {}

    def zeros(shape, dtype=None):
        holder['out'] = new_blocks(shape, dtype)
        return holder['out']
    M.STUBS[np.zeros] = zeros
    outer = filling(env, holder)

    def inner(seq, body, get, set_, info):
        """invariant: after k blocks the element holds what it held before, xor parity(start, k)"""
        lo, hi = ptr.at(holder['i']), ptr.at(core.iterm(holder['i']) + 1)
        out = holder['out']
        if out.log:
            raise core.Unsupported('stored before the loop')
        env.prove('as many blocks as the row selects', core.mkbool(core.iterm(C.seq_len(seq)) == hi - lo))
        entry = get()
        k = core.fresh_int('k')
        kv = core.iterm(k)
        e.assume(core.And(k >= 0))
        if core.mkbool(kv < hi - lo):
            unfold(lo, kv)
            base = SUM(lo, kv)
            out.start = lambda i: base
            if body(C.seq_get(seq, k)) is not None:
                raise core.Unsupported('the loop is left')
            if len(out.log) != 1:
                raise core.Unsupported('not one store per block')
            env.prove('adds the block', core.mkbool(z3.Implies(z3.And(kv >= 0, kv < hi - lo), out.log[-1][1] == SUM(lo, kv + 1))))
            env.prove('the element of this row', env.and_(env.eq(out.log[-1][0], out.first), env.eq(out.first, holder['i'])))
            env.cover('end')
            raise core.Kill
        e.assume(core.mkbool(kv == hi - lo))
        unfold(lo, z3.IntVal(0))
        out.log.append((holder['i'], SUM(lo, hi - lo)))
        now = get()
        set_({q: (loops.Poison(q) if q not in entry or v is not entry[q] else v) for q, v in now.items()})
        return (True, None)

    def outer2(seq, body, get, set_, info):
        def b(i):
            holder['i'] = i
            return body(i)
        return outer(seq, b, get, set_, info)
    loops.HANDLERS.append((lambda seq, info: holder['out'].log is not None, inner))
    loops.HANDLERS.append((lambda seq, info: True, outer2))
    x = env.run(K.ldpc_encode, msg, idx, ptr, m)
    env.prove('returns', x[0] == 'ok', x)
    r = x[1]
    env.prove('as many blocks as rows', isinstance(r, Blocks) and r.new and core.sym_eq(r.n, m))
    k = core.fresh_int('k')
    core.ENG.assume(core.And(k >= 0, k < m))
    lo = ptr.at(k)
    env.prove('the parity of the row', core.mkbool(r.at(k) == SUM(lo, ptr.at(core.iterm(k) + 1) - lo)))


# ---------------------------------------------------------------- the wrappers
def numpy_arrays(env):
    def contig(a, dtype=None):
        if dtype is not None and np.dtype(dtype) != np.dtype('uint64'):
            raise core.Unsupported(f'as {dtype}')
        return Blocks(a.n, a.at, False) if isinstance(a, Blocks) else Words(a.n, a.at, a.what)
    M.STUBS[np.ascontiguousarray] = contig
    M.STUBS[np.zeros] = new_blocks


def same_words(env, label, p, a):
    env.prove(label, isinstance(p, Ptr) and type(p.a) is type(a) and core.sym_eq(p.a.n, a.n) and p.a.at is a.at)


def h_solve_call(env):
    """The backend hands keys, values, seed and sizes to a kernel; a failure the native kernel reports is raised, never returned."""
    numpy_arrays(env)
    n, m = env.length('n', 0), env.int('m', 1)
    keys, vals, seed = Words(n, wordfn('key'), 'keys'), Blocks(n, blockfn('value')), Words(2, wordfn('seed'), 'seed')
    OUT = blockfn('solution')
    status = env.int('status')
    native = env.choice('native', [True, False])
    fails = env.bool('fails')
    log = []

    def solve(k, v, o, nn, mm, s):
        log.append(o.a)
        same_words(env, 'the keys', k, keys)
        same_words(env, 'the values', v, vals)
        same_words(env, 'the seed', s, seed)
        env.prove('the sizes', env.and_(env.eq(nn, n), env.eq(mm, m)))
        env.prove('a new array, large enough', isinstance(o.a, Blocks) and o.a.new and core.sym_eq(o.a.n, m))
        o.a.at = OUT
        return status

    class Lib:
        _vf_ok = True
        solve_okvs = staticmethod(solve)

    def py(k, v, mm, seed=None):
        env.prove('the python kernel is given the same', k is keys and v is vals and core.sym_eq(mm, m))
        env.prove('and the seed', env.and_(env.eq(seed[0], core.SInt(globals()['_s'](0))), env.eq(seed[1], core.SInt(globals()['_s'](1)))))
        if fails:
            raise RuntimeError('core')
        log.append(Blocks(m, OUT, True))
        return log[-1]
    globals()['_s'] = seed.at
    M.STUBS[F._get_lib] = lambda: Lib if native else None
    M.STUBS[K.okvs_solve] = py
    x = env.run(F._okvs_solve_impl, keys, vals, m, seed)
    bad = env.not_(env.eq(status, 0)) if native else fails
    env.prove('a failure is raised', env.implies(bad, x[0] == 'exc'), x)
    env.prove('a success is returned', env.implies(env.not_(bad), x[0] == 'ok'), x)
    if x[0] == 'ok':
        env.prove('what the kernel wrote', len(log) == 1 and x[1] is log[0] and x[1].at is OUT)


def h_decode_call(env):
    """The backend hands keys, table, seed and sizes to a kernel, and returns what it wrote."""
    numpy_arrays(env)
    n, m = env.length('n', 0), env.int('m', 1)
    keys, store, seed = Words(n, wordfn('key'), 'keys'), Blocks(m, blockfn('store')), Words(2, wordfn('seed'), 'seed')
    OUT = blockfn('decoded')
    native = env.choice('native', [True, False])
    log = []

    def decode(k, v, o, nn, mm, s):
        log.append(o.a)
        same_words(env, 'the keys', k, keys)
        same_words(env, 'the table', v, store)
        same_words(env, 'the seed', s, seed)
        env.prove('the sizes', env.and_(env.eq(nn, n), env.eq(mm, m)))
        env.prove('a new array, large enough', isinstance(o.a, Blocks) and o.a.new and core.sym_eq(o.a.n, n))
        o.a.at = OUT

    class Lib:
        _vf_ok = True
        decode_okvs = staticmethod(decode)

    def py(k, v, mm, seed=None):
        env.prove('the python kernel is given the same', k is keys and v is store and core.sym_eq(mm, m))
        env.prove('and the seed', env.and_(env.eq(seed[0], core.SInt(globals()['_s'](0))), env.eq(seed[1], core.SInt(globals()['_s'](1)))))
        log.append(Blocks(n, OUT, True))
        return log[-1]
    globals()['_s'] = seed.at
    M.STUBS[F._get_lib] = lambda: Lib if native else None
    M.STUBS[K.okvs_decode] = py
    x = env.run(F._okvs_decode_impl, keys, store, m, seed)
    env.prove('returns', x[0] == 'ok', x)
    env.prove('what the kernel wrote', len(log) == 1 and x[1] is log[0] and x[1].at is OUT)


def h_ldpc_call(env):
    """The backend hands message, matrix and sizes to a kernel, and returns what it wrote."""
    numpy_arrays(env)
    n, m, nz = env.length('n', 0), env.length('m', 0), env.length('nz', 0)
    msg, idx, ptr = Blocks(n, blockfn('message')), Words(nz, wordfn('index'), 'index'), Words(m + 1, wordfn('start'), 'start')
    OUT = blockfn('syndrome')
    native = env.choice('native', [True, False])
    log = []

    def enc(a, b, c, o, mm, nn):
        log.append(o.a)
        same_words(env, 'the message', a, msg)
        same_words(env, 'the columns', b, idx)
        same_words(env, 'the rows', c, ptr)
        env.prove('the sizes', env.and_(env.eq(nn, n), env.eq(mm, m)))
        env.prove('a new array, large enough', isinstance(o.a, Blocks) and o.a.new and core.sym_eq(o.a.n, m))
        o.a.at = OUT

    class Lib:
        _vf_ok = True
        ldpc_encode = staticmethod(enc)

    def py(a, b, c, mm):
        env.prove('the python kernel is given the same', a is msg and b is idx and c is ptr and core.sym_eq(mm, m))
        log.append(Blocks(m, OUT, True))
        return log[-1]
    M.STUBS[F._get_lib] = lambda: Lib if native else None
    M.STUBS[K.ldpc_encode] = py
    x = env.run(F.ldpc_encode_impl, msg, idx, ptr, m)
    env.prove('returns', x[0] == 'ok', x)
    env.prove('what the kernel wrote', len(log) == 1 and x[1] is log[0] and x[1].at is OUT)


# ---------------------------------------------------------------- concrete
def blocks(g, n): return np.array([[g.getrandbits(64), g.getrandbits(64)] for _ in range(n)], dtype=np.uint64).reshape(n, 2)


def distinct(g, n):
    s = set()
    while len(s) < n:
        s.add(g.choice([g.getrandbits(64), g.randrange(4 * n + 1), (1 << 64) - 1 - g.randrange(4 * n + 1)]))
    s = list(s)
    g.shuffle(s)
    return np.array(s, dtype=np.uint64)


def layout(g, x):
    k = g.randrange(4)
    if k == 0 or not len(x):
        return x
    if k == 1:
        return np.ascontiguousarray(x[::-1])[::-1]
    if k == 2:
        y = np.zeros((2 * len(x), *x.shape[1:]), x.dtype)
        y[::2] = x
        return y[::2]
    return np.asfortranarray(x)


_big = {}


def h_tables(env):
    """Both kernels: an encoding either raises or decodes, for every key, in any order and any subset, to the value given."""
    g = env.rng
    n = g.choice([0, 1, 2, 3, g.randrange(1, 12), g.randrange(1, 60), g.randrange(1, 300)])
    m = max(1, g.choice([1, 2, 3, 4, n, n + 1, int(1.1 * n), int(1.23 * n) + 1, int(1.3 * n) + 2, int(1.5 * n) + 4, 2 * n + 5, 12 * n + 8, 25 * n]))
    keys, vals = distinct(g, n), blocks(g, n)
    if g.random() < .1:
        vals[:] = 0
    seed = np.array([g.getrandbits(64), g.getrandbits(64)], dtype=np.uint64).reshape(g.choice([(2,), (1, 2)]))
    opt = g.random() < .2
    for native in (True, False):
        kernels.use(F, native)
        who = 'native' if native else 'python'
        k, v = layout(g, keys), layout(g, vals)
        sv, dc = (F._okvs_solve_opt_impl, F._okvs_decode_opt_impl) if opt else (F._okvs_solve_impl, F._okvs_decode_impl)
        x = env.run(sv, k, v, m, seed)
        if x[0] == 'exc':
            env.prove(who + ': an impossible encoding is reported as such', type(x[1]) is RuntimeError, x)
            easy = n == 0 or (n == 1 and m >= 3)
            env.prove(who + ': a possible encoding is made', not easy, (n, m))
            continue
        t = x[1]
        env.prove(who + ': the table', t.shape == (m, 2) and t.dtype == np.uint64)
        r = dc(k, layout(g, t), m, seed)
        env.prove(who + ': every key decodes', r.shape == (n, 2) and np.array_equal(r, vals), (n, m))
        if n:
            p = [g.randrange(n) for _ in range(g.randrange(1, n + 1))]
            env.prove(who + ': any of the keys decode', np.array_equal(dc(keys[p], t, m, seed), vals[p]), (n, m))


def h_ldpc_run(env):
    """Both kernels on random matrices, repeated columns and empty rows included."""
    g = env.rng
    n, m = g.randrange(1, 30), g.randrange(0, 12)
    msg = blocks(g, n)
    rows = [[g.randrange(n) for _ in range(g.choice([0, 1, 2, 3, 5, 9]))] for _ in range(m)]
    idx = np.array([c for r in rows for c in r], dtype=g.choice([np.uint64, np.int64, np.int32]))
    ptr = np.array([0] + [sum(len(r) for r in rows[:k + 1]) for k in range(m)], dtype=g.choice([np.uint64, np.int64]))
    want = np.zeros((m, 2), np.uint64)
    for i, r in enumerate(rows):
        for c in r:
            want[i] ^= msg[c]
    for native in (True, False):
        kernels.use(F, native)
        keep = msg.copy()
        r = F.ldpc_encode_impl(layout(g, msg), layout(g, idx), layout(g, ptr), m)
        env.prove(('native' if native else 'python') + ': the parities', r.shape == (m, 2) and np.array_equal(r, want), rows)
        env.prove('the message is kept', np.array_equal(keep, msg))


def big(seed, n, m):
    r = np.random.default_rng(seed)
    keys = np.unique(r.integers(0, 2 ** 64 - 1, size=n + 64, dtype=np.uint64))[:n]
    r.shuffle(keys)
    return keys, r.integers(0, 2 ** 64 - 1, size=(n, 2), dtype=np.uint64), r.integers(0, 2 ** 63, size=2).astype(np.uint64)


def h_large(env):
    """The native kernels on large tables: an encoding either raises or decodes to the values given."""
    turn = _big['turn'] = _big.get('turn', -1) + 1
    kernels.use(F, True)
    n, m = [(5000, 6500), (200_000, 270_000), (20_000, 24_600), (250_000, 1_500_000), (5000, 5400)][turn % 5]
    keys, vals, seed = big(env.rng.getrandbits(32), n, m)
    for opt in (False, True):
        x = env.run(F._okvs_solve_opt_impl if opt else F._okvs_solve_impl, keys, vals, m, seed)
        if x[0] == 'exc':
            env.prove('an impossible encoding is reported as such', type(x[1]) is RuntimeError, x)
            continue
        r = (F._okvs_decode_opt_impl if opt else F._okvs_decode_impl)(keys, x[1], m, seed)
        env.prove(f'every key decodes (opt={opt})', np.array_equal(r, vals), (n, m, int((r != vals).any(axis=1).sum())))


def h_subset(env):
    """Decoding a part of the keys of a large opt table (see known_findings.jsonl), and of a large table of the plain kind."""
    kernels.use(F, True)
    n, m = 250_000, 1_500_000
    keys, vals, seed = big(0, n, m)
    t = F._okvs_solve_impl(keys, vals, m, seed)
    env.prove('part of the keys of a large table', np.array_equal(F._okvs_decode_impl(keys[:1000], t, m, seed), vals[:1000]))
    t = F._okvs_solve_opt_impl(keys, vals, m, seed)
    env.prove('220000 of 250000 keys of a large opt table', np.array_equal(F._okvs_decode_opt_impl(keys[:220_000], t, m, seed), vals[:220_000]))
    r = F._okvs_decode_opt_impl(keys[:1000], t, m, seed)
    env.prove('1000 of 250000 keys of a large opt table', np.array_equal(r, vals[:1000]))


def h_program(env):
    """field.solve_okvs / decode_okvs / ldpc_encode as traced operations."""
    from mplang.backends.tensor_impl import TensorValue
    g = env.rng
    kernels.use(F, g.random() < .5)

    class Op:
        def __init__(self, **a): self.attrs = a
    n = g.randrange(1, 20)
    keys, vals, m = distinct(g, n), blocks(g, n), 25 * n
    seed = TensorValue(np.array([3, g.getrandbits(60)], dtype=np.uint64))
    sv, dc = g.choice([(F._solve_okvs_impl, F._decode_okvs_impl), (F._solve_okvs_opt_impl_prim, F._decode_okvs_opt_impl_prim)])
    x = env.run(sv, None, Op(m=m), TensorValue(keys), TensorValue(vals), seed)
    if x[0] == 'ok':
        r = dc(None, Op(), TensorValue(keys), x[1], seed)
        env.prove('round trip', np.array_equal(r.unwrap(), vals))


def harnesses():
    fn = 'mplang/kernels/py_kernels.py '
    return [H('hash', h_hash, conc=0, functions=['_hash_key_py'], what=h_hash.__doc__),
            H('decode', h_decode, conc=0, functions=['okvs_decode'], what=h_decode.__doc__),
            H('ldpc', h_ldpc, conc=0, functions=['py_kernels.ldpc_encode'], what=h_ldpc.__doc__),
            H('solve-call', h_solve_call, conc=0, functions=['_okvs_solve_impl'], what=h_solve_call.__doc__),
            H('decode-call', h_decode_call, conc=0, functions=['_okvs_decode_impl'], what=h_decode_call.__doc__),
            H('ldpc-call', h_ldpc_call, conc=0, functions=['ldpc_encode_impl'], what=h_ldpc_call.__doc__),
            H('tables', h_tables, sym=False, conc=900, conc_s=25, functions=['solve_okvs', 'okvs_solve', 'decode_okvs', 'okvs_decode'], what=h_tables.__doc__),
            H('matrices', h_ldpc_run, sym=False, conc=600, conc_s=10, functions=['ldpc_encode'], what=h_ldpc_run.__doc__),
            H('large', h_large, sym=False, conc=5, conc_s=40, functions=['solve_okvs', 'solve_okvs_opt', 'decode_okvs_opt'], what=h_large.__doc__),
            H('opt-subset', h_subset, sym=False, conc=1, conc_s=40, functions=['solve_okvs_opt', 'decode_okvs_opt'], what=h_subset.__doc__),
            H('program', h_program, sym=False, conc=100, conc_s=5, functions=['field.solve_okvs', 'field.decode_okvs'], what=h_program.__doc__)]
