"""C03  Serialization round-trips every supported value (text, base64 and binary forms).

Deductive part, by structural induction: the encoder/decoder pair is proved for a value whose children are
arbitrary; the recursive calls are replaced by their contract  decode(encode(child)) == child .
"""
import base64, copy, io, json, math, os, struct, types
from pyvc.worker import H
from pyvc import core, containers as C, models as M, rt
from pyvc.core import Sort, SVal, Sym

INSTRUMENT = ['mplang.edsl.serde']
ASSUMPTIONS = ['strings contain Unicode scalar values (no unpaired surrogates), integers fit the interpreter\'s decimal conversion limit',
               'array element types are plain (no record types)', 'registered kinds differ from the encoder\'s own tags (checked for every registered class)',
               'decode(encode(child)) == child for the children of a container (induction hypothesis)']
TRUSTED = ['json.loads(json.dumps(d)) == d for documents of string-keyed dictionaries, lists and atoms', 'base64.b64decode(base64.b64encode(b)) == b',
           'gzip.decompress(gzip.compress(b)) == b', 'numpy: frombuffer(a.tobytes(), a.dtype).reshape(a.shape) == a; flat enumerates all elements']

import numpy as np
import mplang.edsl.serde as S

CH = Sort('Child')
KEY = Sort('HashableChild')
JS = Sort('Json')


# ------------------------------------------------------------------ contracts of what is outside the function
class B64:
    """base64 text of given bytes"""
    _vf_sym = True

    def __init__(self, b): self.b = b
    def decode(self, enc='utf-8', *a): return self


class FakeB64:
    def __init__(self): pass
    def b64encode(self, b): return B64(b)
    standard_b64encode = urlsafe_b64encode = b64encode

    def b64decode(self, t, *a, **k):
        if not isinstance(t, B64):
            raise core.Unsupported('decoding unknown base64 text')
        return t.b
    standard_b64decode = urlsafe_b64decode = b64decode


class DType(Sym):
    """opaque element type of an array"""
    def __init__(self, obj, text): self.obj, self.text = obj, text
    t = property(lambda s: (_ for _ in ()).throw(core.Unsupported('dtype term')))
    def __eq__(self, o): return o is self or (self.obj and (o is np.object_ or o is object)) or (self.obj and o == np.dtype(object) if isinstance(o, np.dtype) else False)
    def __ne__(self, o): return not self == o
    __hash__ = object.__hash__
    def __str__(self): return self.text
    vf_str = __str__
    kind = property(lambda s: 'O' if s.obj else 'f')
    str = property(lambda s: s.text)
    name = property(lambda s: s.text)
    hasobject = property(lambda s: s.obj)
    def vf_isinstance(self, t): return t in (np.dtype, object)


class Arr(Sym):
    """opaque array: element type, shape, content"""
    t = property(lambda s: (_ for _ in ()).throw(core.Unsupported('array term')))

    def __init__(self, dtype, shape, data=None, items=None, n=None, fresh=False):
        self.dtype, self.shape, self.data, self.items, self.n, self.fresh = dtype, shape, data, items, n, fresh

    __hash__ = object.__hash__
    def vf_isinstance(self, t): return t in (np.ndarray, object)
    def vf_type(self): return np.ndarray
    def tobytes(self, *a): return self.data
    @property
    def flat(self): return C.sym_seq(self.n, self.items) if not isinstance(self.n, int) else C.VList([self.items(i) for i in range(self.n)])
    def ravel(self, *a): return self.flat
    flatten = ravel
    def __array__(self): return self

    def reshape(self, *shape):
        s = shape[0] if len(shape) == 1 and not isinstance(shape[0], int) else shape
        return Arr(self.dtype, C.VTuple(parts=C.seq_parts(s)) if not isinstance(s, (tuple, C.VTuple)) else s, self.data, self.items, self.n, self.fresh)

    def copy(self): return Arr(self.dtype, self.shape, self.data, self.items, self.n, True)


class NewArr(Sym):
    """np.empty(n, dtype=object) being filled"""
    t = property(lambda s: (_ for _ in ()).throw(core.Unsupported('array term')))
    def __init__(self, n): self.n, self.d = n, C.VDict()
    __hash__ = object.__hash__
    def __setitem__(self, i, v): self.d[i] = v
    def __getitem__(self, i): return self.d[i]
    def reshape(self, *shape):
        s = shape[0]
        return Arr(DType(True, 'object'), s, items=lambda i: self.d[i], n=self.n, fresh=True)


class FakeNP:
    """numpy as the serializer uses it"""
    def __init__(self, dt): self._dt = dt
    def __getattr__(self, n): return getattr(np, n)
    def dtype(self, x): return self._dt if isinstance(x, DType) or x == self._dt.text else np.dtype(x)
    def asarray(self, x, *a, **k):
        if isinstance(x, Arr): return x
        raise core.Unsupported('np.asarray')
    array = ascontiguousarray = asarray
    def frombuffer(self, b, dtype=None, **k):
        if not isinstance(dtype, DType):
            dtype = self.dtype(dtype)
        return Arr(dtype, None, data=b)
    def empty(self, n, dtype=None):
        if dtype is not object and dtype is not np.object_:
            raise core.Unsupported('np.empty')
        return NewArr(n)
    def prod(self, *a, **k): raise core.Unsupported('np.prod')


ENC, DEC = {}, {}


def _ax(sort):
    import z3
    e = z3.Function(f'enc.{sort.name}', sort.z, JS.z)
    d = z3.Function(f'dec.{sort.name}', JS.z, sort.z)
    ks = z3.Function('child_sort', JS.z, z3.IntSort())
    q = z3.Const(f'q.{sort.name}', sort.z)
    return e, d, z3.ForAll([q], z3.And(d(e(q)) == q), patterns=[e(q)])


def doc(x, env):
    """What json.loads(json.dumps(x)) gives; proves x is a JSON document."""
    if x is None or isinstance(x, (bool, int, float, str, core.SBool, core.SInt, core.SStr, B64)):
        return x
    if isinstance(x, (SVal,)):
        env.prove('only encoded children are embedded', x.sort in (JS, FLT))
        return x
    if isinstance(x, dict):
        if getattr(x, '_sym', None) is not None:
            b = x._sym
            if b.n is None:
                raise core.Unsupported('symbolic document')
            for k in env.each('k', b.n):
                env.prove('dictionary keys are strings', isinstance(b.key(k), (str, core.SStr)))
            d = C.VDict()
            d._sym = C.SymBase(b.has, lambda k: doc(b.val(k), env), b.n, b.key, lambda i: doc(b.at(i), env))
            return d
        out = C.VDict()
        for k, v in dict.items(x):
            env.prove('dictionary keys are strings', isinstance(k, (str, core.SStr)), k)
            out[k] = doc(v, env)
        return out
    if isinstance(x, (list, tuple)) or getattr(x, '_vf_seq', False):
        n = env.len(x)
        if isinstance(n, int):
            return C.VList([doc(env.get(x, i), env) for i in range(n)])
        for k in env.each('k', n):
            doc(env.get(x, k), env)
        return C.sym_seq(n, lambda k: doc_q(env.get(x, k)))
    env.fail('not a JSON document', type(x).__name__)


def doc_q(x):
    if isinstance(x, (list, tuple)) and not getattr(x, '_parts', None):
        return C.VList([doc_q(y) for y in x])
    return x


FLT = Sort('Float', pytype=float, methods={'__float__': lambda x: x})


class Ctx:
    """Segments of the binary form: monotone (see h_context)."""


def setup(env, binary):
    """Install the induction hypothesis for recursive calls."""
    encf = S._to_binary_json if binary else S.to_json
    decf = S._from_binary_json if binary else S.from_json
    dt = DType(False, '<element-type-7>')
    odt = DType(True, 'object')
    env.patch(S, 'np', FakeNP(dt))
    env.patch(S, 'base64', FakeB64())
    ctx = S.BinaryContext() if binary else None
    ax = {s: _ax(s) for s in (CH, KEY)}
    for s in ax:
        core.ENG.assume(ax[s][2])
    st = types.SimpleNamespace(ctx=ctx, segs=None, dt=dt, odt=odt)

    def enc(v, *a):
        if isinstance(v, SVal) and v.sort in ax:
            if binary:
                env.prove('children are encoded into the same message', len(a) == 1 and a[0] is ctx)
            r = JS.const('_')
            r = SVal(ax[v.sort][0](v.t), JS)
            object.__setattr__(r, '_vf_attrs', {'_child': v.sort})
            return r
        return (o_enc[0])(v, *a)

    def dec(j, *a):
        if isinstance(j, SVal) and j.sort is JS:
            if binary:
                env.prove('children are decoded from the same message', len(a) == 1 and a[0] is st.segs)
            import z3
            s = CH if st.key is None or j.t.decl().name() != 'enc.HashableChild' else KEY
            if j.t.decl().name() == 'enc.HashableChild':
                s = KEY
            elif j.t.decl().name() == 'enc.Child':
                s = CH
            else:
                raise core.Unsupported('decoding a document of unknown origin')
            return SVal(ax[s][1](j.t), s)
        return (o_dec[0])(j, *a)
    st.key = None
    o_enc, o_dec = [encf], [decf]
    for nm, f in (('_to_binary_json', enc), ('_from_binary_json', dec)) if binary else (('to_json', enc), ('from_json', dec)):
        env.patch(S, nm, f)

    def trip(v):
        r = env.run(encf, v, ctx) if binary else env.run(encf, v)
        if r[0] != 'ok':
            return r
        d = doc(r[1], env)
        if binary:
            st.segs = ctx.segments
            st.segs.append('a segment added later')       # monotone: decoding must not depend on later segments
            return env.run(decf, d, st.segs)
        return env.run(decf, d)
    return trip, st


def is_(env, label, r, pred):
    env.prove(label + ': decodes', r[0] == 'ok', r[1])
    env.prove(label + ': equal', pred(r[1]))


def h_atoms(env, binary):
    """None, booleans, integers, floats, strings, bytes."""
    trip, st = setup(env, binary)
    k = env.choice('kind', ['none', 'bool', 'int', 'float', 'str', 'bytes'])
    if k == 'none':
        is_(env, 'None', trip(None), lambda x: x is None)
    elif k == 'bool':
        b = env.bool('b')
        is_(env, 'bool', trip(b), lambda x: isinstance(x, (bool, core.SBool)) and env.eq(x, b))
    elif k == 'int':
        b = env.int('i')
        is_(env, 'int', trip(b), lambda x: isinstance(x, (int, core.SInt)) and not isinstance(x, (bool, core.SBool)) and env.eq(x, b))
    elif k == 'float':
        b = FLT.const('f')
        is_(env, 'float', trip(b), lambda x: isinstance(x, SVal) and x.sort is FLT and env.eq(x, b))
    elif k == 'str':
        b = env.str('s')
        is_(env, 'str', trip(b), lambda x: isinstance(x, (str, core.SStr)) and env.eq(x, b))
    else:
        b = env.bytes('y')
        is_(env, 'bytes', trip(b), lambda x: env.eq(x, b))
    env.cover(k)


def h_seq(env, binary):
    """Lists and tuples of any length with arbitrary elements."""
    trip, st = setup(env, binary)
    kind = env.choice('kind', ['list', 'tuple'])
    n = env.length('n')
    v = env.seq('xs', lambda k: CH.const('_') if False else env.fn('x', ['int'], CH)(k), n=n, kind=kind)
    r = trip(v)
    env.prove('decodes', r[0] == 'ok', r[1])
    T = M.m_isinstance(r[1], tuple) if kind == 'tuple' else M.m_isinstance(r[1], list)
    env.prove('same container type', T)
    env.prove_seq('elements', r[1], n, lambda k: env.fn('x', ['int'], CH)(k))
    env.prove_seq('argument unchanged', v, n, lambda k: env.fn('x', ['int'], CH)(k))
    env.cover(kind)


def h_dict(env, binary):
    """Dictionaries of any size: string keys (any text, including the encoder's own tags) or arbitrary hashable keys."""
    trip, st = setup(env, binary)
    kk = env.choice('keys', ['str', 'other'])
    n = env.length('n')
    f = env.fn('x', ['int'], CH)
    if isinstance(n, int):
        g = env.fn('key', ['int'], 'str' if kk == 'str' else KEY)
        ks = [g(i) for i in range(n)]
        for i in range(n):
            for j in range(i):
                env.assume(env.not_(env.eq(ks[i], ks[j])))
        v = C.VDict()
        for i in range(n):
            v[ks[i]] = f(i)
        key = lambda i: ks[i]
    else:
        v = C.sym_dict('d', 'str' if kk == 'str' else KEY, f, n)
        key = v._sym.key
    r = trip(v)
    env.prove('decodes', r[0] == 'ok', r[1])
    env.prove('is a dictionary', isinstance(r[1], dict))
    env.prove('size', env.eq(env.len(r[1]), n))
    for i in env.each('i', n):
        k = key(i)
        env.prove('has the key', env.contains(r[1], k))
        env.prove('value', env.eq(env.get(r[1], k), f(i)))
    env.cover(kk)


def h_array(env, binary):
    """Numeric arrays of any shape, element type and content; object arrays with arbitrary elements."""
    trip, st = setup(env, binary)
    kind = env.choice('kind', ['numeric', 'object'])
    rank = env.length('rank')
    f = env.fn('dim', ['int'], 'int')
    shape = env.seq('shape', f, n=rank, kind='tuple')
    if kind == 'numeric':
        a = Arr(st.dt, shape, data=env.bytes('content'))
    else:
        n = env.length('n')
        g = env.fn('item', ['int'], CH)
        a = Arr(st.odt, shape, items=g, n=n)
    r = trip(a)
    env.prove('decodes', r[0] == 'ok', r[1])
    b = r[1]
    env.prove('an array', isinstance(b, Arr))
    env.prove('shape', env.and_(env.eq(env.len(b.shape), rank)))
    for i in env.each('i', rank):
        env.prove('dimension', env.eq(env.get(b.shape, i), f(i)))
    if kind == 'numeric':
        env.prove('element type', b.dtype is st.dt)
        env.prove('content', env.eq(b.data, a.data))
        env.prove('writable copy', b.fresh)
    else:
        env.prove('element type', b.dtype.obj)
        env.prove('number of elements', env.eq(b.n, n))
        for i in env.each('i', n):
            env.prove('element', env.eq(b.items(i), g(i)))
    env.cover(kind)


def h_registered(env, binary):
    """Objects of registered classes: the class's own decoder receives exactly what its encoder produced."""
    trip, st = setup(env, binary)
    aware = env.choice('binary-aware', [0, 1])
    kind = env.str('kind')
    f = env.fn('x', ['int'], CH)
    got = []

    class Obj:
        _serde_kind = kind

        def to_json(self): return C.VDict({'a': JSV(0), 'v': JSV(1), 'items': C.VList([JSV(2)])})

        @classmethod
        def from_json(cls, d):
            got.append(d)
            return ob
    if aware:
        def tb(self, ctx):
            env.prove('encoder gets the message', ctx is st.ctx)
            return C.VDict({'a': JSV(0), 'bref': ctx.add_segment('payload')})

        def fb(cls, d, segments):
            got.append(d)
            env.prove('decoder gets the message', segments is st.segs)
            env.prove('segment', env.eq(env.get(segments, d['bref']), 'payload'))
            return ob
        Obj.to_binary_json, Obj.from_binary_json = tb, classmethod(fb)
    JSV = lambda i: SVal(__import__('z3').Const(f'json{i}', JS.z), JS)
    env.assume(env.not_(env.run(kind.startswith, '_')[1]))
    reg = C.VDict()
    reg[kind] = Obj
    env.patch(S, '_CLASS_REGISTRY', reg)
    ob = Obj()
    r = trip(ob)
    env.prove('decodes', r[0] == 'ok', r[1])
    env.prove('by its own class', r[1] is ob and len(got) == 1)
    d = got[0]
    env.prove('fields', env.eq(d['a'], JSV(0)))
    if not (aware and binary):
        env.prove('all fields', env.and_(env.eq(d['v'], JSV(1)), env.eq(env.len(d['items']), 1), env.eq(env.get(d['items'], 0), JSV(2))))
    env.prove('no foreign field', env.not_(env.contains(d, '_kind')))
    env.cover('registered')


def h_context(env):
    """Adding a segment returns its index and never changes earlier segments."""
    c = S.BinaryContext()
    env.bind(c, '_segments')
    n = env.length('n')
    f = env.fn('seg', ['int'], core.Sort._all.get('SegT') or Sort('SegT'))
    c._segments = env.seq('old', f, n=n)
    x = env.opaque('x', core.Sort._all['SegT'])
    r = env.run(c.add_segment, x)
    env.prove('index', r[0] == 'ok' and env.eq(r[1], n))
    env.prove('grows by one', env.eq(env.len(c.segments), env.run(lambda: n + 1)[1]))
    env.prove('stored', env.eq(env.get(c.segments, n), x))
    for i in env.each('i', n):
        env.prove('earlier segments', env.eq(env.get(c.segments, i), f(i)))


def h_reject(env, binary):
    """A value of no supported type is refused."""
    trip, st = setup(env, binary)
    X = core.Sort._all.get('Unknown') or Sort('Unknown', pytype=type('Unknown', (), {}))
    v = X.const('v')
    r = trip(v)
    env.prove('refused', r[0] == 'exc' and isinstance(r[1], TypeError))


# ------------------------------------------------------------------ concrete counterpart
TAGS = ['_kind', 'v', 'items', 'pairs', 'data', 'bref', 'dtype', 'shape', '_null', '_bytes_bref', '', 'a', 'é', 'mplang.Graph', '0', '\U0001f600', '\u2028', '"', '\\', '\x00']


def gen(r, d, hashable=False):
    k = r.randrange(8 if d <= 0 else 16)
    if k == 0: return None
    if k == 1: return r.random() < .5
    if k == 2: return r.choice([0, 1, -1, 7, 2**31, -2**31, 2**53 + 1, 2**63, -2**64 - 1, 10**40, r.randrange(-1000, 1000)])
    if k == 3: return r.choice([0.0, -0.0, 1.0, 0.1, 1e308, 5e-324, float('inf'), float('-inf'), float('nan'), r.random() * 10**r.randrange(-9, 9), 2.0**53])
    if k in (4, 5): return r.choice(TAGS) if r.random() < .6 else ''.join(chr(r.choice([0, 10, 34, 92, 97, 255, 0x3bb, 0x1f600, r.randrange(32, 0xd7ff)])) for _ in range(r.randrange(5)))
    if k == 6: return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 17, 64])))
    if k == 7:
        if hashable: return r.choice(TAGS)
        return arr(r, d)
    if hashable:
        return tuple(gen(r, d - 1, True) for _ in range(r.randrange(3)))
    n = r.choice([0, 1, 2, 3])
    if k in (8, 9): return [gen(r, d - 1) for _ in range(n)]
    if k in (10, 11): return tuple(gen(r, d - 1) for _ in range(n))
    if k in (12, 13): return {r.choice(TAGS): gen(r, d - 1) for _ in range(n)}
    if k == 14: return {gen(r, 2, True): gen(r, d - 1) for _ in range(n)}
    return arr(r, d)


def arr(r, d):
    sh = tuple(r.choice([0, 1, 2, 3]) for _ in range(r.choice([0, 1, 1, 2, 3])))
    if r.random() < .3:
        a = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            x = gen(r, min(d - 1, 1))
            a[i] = x if not isinstance(x, np.ndarray) else None
        return a
    dt = r.choice(['bool', 'int8', 'uint8', 'int16', 'int32', 'uint32', 'int64', 'uint64', 'float16', 'float32', 'float64', 'complex64', 'complex128', '>i4', '>f8', '<U3', 'S2', 'M8[s]', 'm8[D]'])
    n = int(np.prod(sh))
    a = np.frombuffer(bytes(r.randrange(256) for _ in range(n * 16)), dtype='u1')[:n].astype('i8')
    a = (a.astype(dt) if dt not in ('<U3', 'S2') else a.astype('U3').astype(dt)) if n else np.zeros(0, dtype=dt)
    a = a.reshape(sh)
    w = r.randrange(4)
    if w == 1: a = np.asfortranarray(a)
    if w == 2 and a.ndim: a = a[::-1]
    if w == 3 and a.ndim: a = a.T
    return a


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return struct.pack('<d', a) == struct.pack('<d', b) or (math.isnan(a) and math.isnan(b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        if len(a) != len(b) or not all(any(same(k, j) for j in b) for k in a):
            return False
        return [1 for k, j in zip(a, b) if not same(k, j)] == [] and all(same(x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.dtype.byteorder != b.dtype.byteorder or a.shape != b.shape:
            return False
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(list(a.flat), list(b.flat)))
        return a.tobytes() == b.tobytes()
    return a == b


FORMS = {'json': (S.to_json, S.from_json), 'text': (lambda v: json.loads(json.dumps(S.to_json(v))), S.from_json),
         'dumps': (S.dumps, S.loads), 'plain': (lambda v: S.dumps(v, compress=False), lambda d: S.loads(d, compressed=False)),
         'b64': (S.dumps_b64, S.loads_b64), 'b64plain': (lambda v: S.dumps_b64(v, compress=False), lambda d: S.loads_b64(d, compressed=False)),
         'binary': (S.dumps_binary, S.loads_binary)}


def h_values(env):
    """Random nested values through every form."""
    r = env.rng
    seed = env.int('seed', 0, 2**40)
    r = __import__('random').Random(seed)
    v = gen(r, r.choice([1, 2, 3, 4]))
    w = copy.deepcopy(v)
    for nm, (e, d) in FORMS.items():
        x = e(v)
        env.prove('argument unchanged', same(v, w), (nm, v))
        y = d(x)
        env.prove('round trip', same(v, y), (nm, v, y))
        env.prove('decoding twice gives the same', same(y, d(x)), nm)
        if isinstance(y, np.ndarray):
            env.prove('writable', y.flags.writeable and (y is not v))


BADV = [set(), {1}, frozenset([1]), object(), 1j, bytearray(b'x'), memoryview(b'x'), range(3), len, int, Ellipsis, (i for i in ()), types.SimpleNamespace(a=1),
        slice(1), NotImplemented, Exception('x'), io.BytesIO(b'x')]


def h_unsupported(env):
    """Unsupported values are refused wherever they are nested."""
    i = env.int('which', 0, len(BADV) - 1)
    v = BADV[i]
    for j in range(env.length('depth', 0, 3)):
        w = env.choice(f'w{j}', ['list', 'tuple', 'dict', 'pairs', 'objarr'])
        if w == 'list': v = [1, v]
        elif w == 'tuple': v = (v, None)
        elif w == 'dict': v = {'a': 1, '_kind': v}
        elif w == 'pairs': v = {1: 2, 'k': v}
        else:
            a = np.empty(2, dtype=object); a[0] = 1; a[1] = v; v = a
    for nm in ('json', 'dumps', 'b64', 'binary'):
        r = env.run(FORMS[nm][0], v)
        env.prove('refused', r[0] == 'exc' and isinstance(r[1], TypeError), (nm, r))


class LazyTable:
    pass


def samples():
    """Instances of the registered classes (name, object, view): view(x) is what must survive."""
    import jax.numpy as jnp, pyarrow as pa, pandas as pd
    from mplang.edsl import typing as T
    from mplang.backends import tensor_impl as TI, table_impl as TB, crypto_impl as CI, tee_impl as TE
    f32 = T.FloatType(bitwidth=32)
    ident = lambda x: x
    out = [(x, ident) for x in [
        T.IntegerType(bitwidth=8, signed=False), T.FloatType(bitwidth=64), T.ComplexType(inner_type=f32), T.TensorType(f32, (2, 3)), T.TensorType(f32, ()),
        T.TensorType(f32, (-1, 3)), T.VectorType(T.IntegerType(), 5), T.TableType({'b': f32, 'a': T.IntegerType()}), T.CustomType('X'),
        T.MPType(T.TensorType(f32, (2,)), (0, 2)), T.MPType(f32, None), T.MPType(f32, ()), T.SSType(f32, 'ss'), T.SSType(T.TensorType(f32, (1,)), 'other')]]
    av = lambda x: (type(x), np.asarray(x.unwrap()))
    for a in [np.arange(6, dtype='i8').reshape(2, 3), np.array(2.5, dtype='f4'), np.zeros((0, 3)), np.array([True, False]), jnp.arange(3), np.asfortranarray(np.arange(6).reshape(2, 3)),
              np.arange(10)[::3], np.array([1, 2], dtype='>i4')]:
        out.append((TI.TensorValue(a), av))
    tv = lambda x: (type(x), [str(x.data.schema), x.data.to_pydict()])
    for t in [pa.table({'b': [1, 2, None], 'a': ['x', '', None]}), pa.table({'x': pa.array([], type=pa.float64())}), pa.table({'z': pa.chunked_array([[1], [], [2, 3]])}),
              pd.DataFrame({'q': [1.5, 2.5], 'p': ['u', 'v']})]:
        out.append((TB.TableValue(t), tv))
    bv = lambda x: (type(x), x.unwrap())
    out += [(CI.BytesValue(x), bv) for x in (b'', b'\x00\xff', bytes(range(256)))]
    kv = lambda x: (type(x), x.suite, x.key_bytes)
    out += [(c('x25519', b'\x00' * 31 + b'\x01'), kv) for c in (CI.PrivateKeyValue, CI.PublicKeyValue, CI.SymmetricKeyValue)]
    out.append((TE.MockQuoteValue('mock', b'\x07' * 32, 'x25519'), lambda x: (type(x), x.platform, x.bound_pk, x.suite)))
    try:
        from mplang.backends.simp_driver.values import DriverVar
        out += [(DriverVar(v), lambda x: (type(x), [av(y) if isinstance(y, TI.TensorValue) else y for y in x.values])) for v in
                ([], ['mem://a', 'mem://b'], [(1, 2), None, b'x'], [np.arange(3), {1: 2}], [TI.TensorValue(np.arange(2)), None])]
    except ImportError:
        pass
    return out


def view_in(v, orig, view):
    return view(v)


def h_classes(env):
    """Registered objects, alone and nested, through every form; registered kinds never collide with the encoder's tags."""
    for k in S.list_registered_kinds():
        env.prove('kind is not one of the encoder\'s tags', not k.startswith('_'), k)
    xs = samples()
    for v, view in xs:
        for w in ('plain', 'list', 'dict', 'pairs', 'objarr'):
            if w == 'plain': x, at = v, lambda y: y
            elif w == 'list': x, at = [v, b'x', v], lambda y: y[2]
            elif w == 'dict': x, at = {'_kind': v, 'v': np.arange(3)}, lambda y: y['_kind']
            elif w == 'pairs': x, at = {1: v, 'a': (v,)}, lambda y: y['a'][0]
            else:
                x = np.empty(1, dtype=object); x[0] = v
                at = lambda y: y[0]
            for nm, (e, d) in FORMS.items():
                before = view(v)
                y = at(d(e(x)))
                env.prove('round trip', same(before, view(y)), (nm, w, v, y))
                env.prove('argument unchanged', same(before, view(v)), (nm, w, v))


def harnesses():
    out = []
    for b, nm in ((False, 'text'), (True, 'binary')):
        F = ['to_json', 'from_json'] if not b else ['_to_binary_json', '_from_binary_json', 'BinaryContext']
        for n, f in (('atoms', h_atoms), ('sequences', h_seq), ('dicts', h_dict), ('arrays', h_array), ('registered', h_registered), ('reject', h_reject)):
            out.append(H(f'{n}-{nm}', (lambda env, f=f, b=b: f(env, b)), conc=0, functions=F, what=f.__doc__))
    out.append(H('context', h_context, conc=50, conc_s=1, functions=['BinaryContext.add_segment']))
    out += [H('values', h_values, sym=False, conc=3000, conc_s=25, functions=list(F) + ['dumps', 'loads', 'dumps_b64', 'loads_b64', 'dumps_binary', 'loads_binary']),
            H('unsupported', h_unsupported, sym=False, conc=600, conc_s=4), H('classes', h_classes, sym=False, conc=2, conc_s=20)]
    return out
