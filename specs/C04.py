"""C04  The binary message container is self-delimiting and rejects damage."""
import io, json, struct, types
import z3
from pyvc.worker import H
from pyvc import core, containers as C, models as M, loops, sbytes as B
from pyvc.core import Sort, SVal, SInt, Sym
from pyvc.sbytes import SBytes

INSTRUMENT = ['mplang.edsl.serde']
ASSUMPTIONS = ['the metadata document and the segments come from the value encoder, whose own contract is C03']
TRUSTED = ['struct.pack/unpack_from("<I") little-endian 32-bit', "b''.join is concatenation; slicing of bytes and memoryview",
           'while-loop rule: the condition holds before every iteration and fails at exit (partial correctness)']

import mplang.edsl.serde as S

U32 = 1 << 32


class Text(Sym):
    """bytes.decode() of some bytes"""
    t = property(lambda s: (_ for _ in ()).throw(core.Unsupported('text term')))
    def __init__(self, b): self.b = b
    __hash__ = object.__hash__
    def encode(self, *a): return self.b
    def vf_isinstance(self, t): return t in (str, object)


class FakeJson:
    """json as a codec: dumps gives the text of META, loads records what it was given"""
    def __init__(self, meta=None, ok=True): self.meta, self.ok, self.got = meta, ok, []
    JSONDecodeError = json.JSONDecodeError
    def dumps(self, d, *a, **k): return Text(self.meta)

    def loads(self, t, *a, **k):
        b = t.b if isinstance(t, Text) else (t.encode() if isinstance(t, str) else t)
        self.got.append(b)
        if not self.ok and core.ENG.choose(2):
            raise json.JSONDecodeError('malformed', '', 0)
        return {'_kind': 'stub'}


def reader(env, data, ok=True):
    """Run loads_binary on `data` with the value decoder replaced by a recorder."""
    rec = types.SimpleNamespace(json=FakeJson(ok=ok), segs=None, meta=None)

    def dec(meta, segs):
        rec.segs, rec.meta = segs, meta
        return 'value'

    def decode(b):
        if not ok and core.ENG.choose(2):
            raise UnicodeDecodeError('utf-8', b'', 0, 1, 'bad')
        return Text(b)
    env.patch(S, 'json', rec.json)
    env.patch(S, '_from_binary_json', dec)
    B.DECODE[:] = [decode]
    loops.SYM_WHILE[:] = [1]
    r = env.run(S.loads_binary, data)
    B.DECODE[:] = []
    return r, rec


def extent(seg, data):
    """(start, end) of a segment that is a slice of data"""
    if isinstance(seg, (bytes, bytearray, memoryview)) and len(seg) == 0:
        return None
    if isinstance(seg, SBytes):
        if not seg.parts:
            return None
        if len(seg.parts) == 1 and seg.parts[0][0] == 'b' and seg.parts[0][1].eq(data.parts[0][1]):
            p = seg.parts[0]
            return p[2], p[2] + p[3]
    raise core.Unsupported('segment is not a slice of the message')


# ------------------------------------------------------------------ writer
def h_write(env):
    """dumps_binary emits u32(len meta) meta [u32(len seg) seg]* for any number of segments of any length."""
    meta = SBytes.blob('meta')
    n = env.length('n')
    sort = B.BLOB

    def seg(k):
        if isinstance(k, int):
            t = z3.Const(f'seg{k}', sort.z)
        else:
            t = z3.Function('segs', z3.IntSort(), sort.z)(core.iterm(k))
        m = core.mkint(B.BLEN(t))
        core.ENG.assume(m >= 0)
        return SBytes([('b', t, 0, m)])

    def enc(v, ctx):
        for_parts = C.seq_parts(env.seq('segs', seg, n=n))
        ctx.segments.set_parts(for_parts) if not isinstance(n, int) else [ctx.add_segment(x) for p in for_parts for x in p[1]]
        return {'_kind': 'stub'}
    env.patch(S, 'json', FakeJson(meta))
    env.patch(S, '_to_binary_json', enc)
    r = env.run(S.dumps_binary, 'value')
    if r[0] == 'exc':
        fits = env.and_(env.len(meta) < U32, env.forall(n, lambda k: env.len(seg(k)) < U32))
        env.prove('a message whose parts fit 32-bit lengths is written', env.not_(fits), r[1])
        return
    out = r[1]
    if isinstance(out, (bytes, SBytes)):
        head, tail = out, []
    else:
        ps = C.seq_parts(out.seq)
        head, tail = SBytes([]), []
        for i, p in enumerate(ps):
            if p[0] == 'c':
                if tail:
                    env.fail('nothing follows the segments', p[1])
                for x in p[1]:
                    head = head + x
            else:
                tail.append(p)
    exp = SBytes([]) + B.pack_int(4, 'little', False, env.len(meta)) + meta
    if isinstance(n, int):
        for k in range(n):
            exp = exp + B.pack_int(4, 'little', False, env.len(seg(k))) + seg(k)
        env.prove('message bytes', env.eq(SBytes([]) + head, exp))
        return
    env.prove('header and metadata', env.eq(SBytes([]) + head, exp))
    env.prove('the segments follow', env.or_(len(tail) == 1, env.eq(n, 0)), tail)
    if not tail:
        return
    _, m, elem, _c = tail[0]
    for c in (1, 2, 3):
        if core.ENG.check(z3.Not(core.bterm(core.sym_eq(m, n * c)))) == z3.unsat:
            break
    else:
        raise core.Unsupported('parts per segment')
    for k in env.each('k', n):
        acc = SBytes([])
        for j in range(c):
            acc = acc + elem(k * c + j)
        env.prove('segment k is its length and its bytes', env.eq(acc, SBytes([]) + B.pack_int(4, 'little', False, env.len(seg(k))) + seg(k)))


# ------------------------------------------------------------------ reader: accepted => well-formed, and these segments
def h_accepts(env):
    """If loads_binary returns, the lengths tile the buffer exactly and segment k is the k-th tile."""
    data = SBytes.blob('data')
    r, rec = reader(env, data, ok=False)
    if r[0] == 'exc':
        env.cover('rejects')
        return
    env.cover('accepts')
    L = env.len(data)
    env.prove('a header is present', L >= 4)
    ml = B.u32_at(data, 0)
    env.prove('metadata is decoded once', len(rec.json.got) == 1)
    env.prove('metadata fits', 4 + ml <= L)
    env.prove('metadata bytes', env.eq(SBytes([]) + rec.json.got[0], data.slice(4, 4 + ml)))
    segs = rec.segs
    env.prove('segments are handed to the value decoder', segs is not None)
    n = env.len(segs)
    env.prove('no trailing bytes without segments', env.implies(env.eq(n, 0), env.eq(4 + ml, L)))
    if not (n > 0):
        return

    def ext(k):
        e = extent(env.get(segs, k), data)
        if e is None:
            raise core.Unsupported('empty segment literal')
        return e
    a0, b0 = ext(0)
    env.unfold(0)
    env.prove('first segment follows the metadata', env.eq(a0, 4 + ml + 4))
    for k in env.each('k', n):
        env.unfold(k)
        a, b = ext(k)
        env.prove('segment length is the declared length', env.and_(a >= 4, b <= L, env.eq(b - a, B.u32_at(data, a - 4))))
        env.prove('the last segment ends the message', env.implies(env.eq(k, n - 1), env.eq(b, L)))
    for k in env.each('k', n - 1):
        env.unfold(k)
        env.unfold(k + 1)
        a, b = ext(k)
        a2, b2 = ext(k + 1)
        env.prove('segments are adjacent', env.eq(a2, b + 4))


def wellformed(env, data):
    """data is tiled: P(0)=4+meta_len, P(k+1)=P(k)+4+len_k, P(N)=len(data).  Returns (N, P, ml)."""
    L = env.len(data)
    e = core.ENG
    e.assume(L >= 4)
    ml = B.u32_at(data, 0)
    P = z3.Function('P', z3.IntSort(), z3.IntSort())
    u32 = z3.Function('blob_int4littleFalse', B.BLOB.z, z3.IntSort(), z3.IntSort())
    d = data.parts[0][1]
    q, k, k2 = z3.Ints('wq wk wk2')
    n = env.int('N', lo=0)
    N = core.iterm(n)
    u = lambda t: u32(d, t)
    rng = z3.ForAll([q], z3.And(u(q) >= 0, u(q) < U32), patterns=[u(q)])
    e.assume(P(0) == 4 + core.iterm(ml))
    e.assume(rng)
    # step, for every k < N
    step = lambda t: P(t + 1) == P(t) + 4 + u(P(t))
    e.assume(z3.ForAll([k], z3.Implies(k >= N, P(k) == core.iterm(L)), patterns=[P(k)]))     # constant after the end
    # lemma by induction on j (downwards from N): for k<=j<=N, P(j) >= P(k) + 4*(j-k)
    s = z3.Solver()
    j, i = z3.Ints('lj li')
    ind = z3.And(rng, i <= j, j < N, i >= 0, P(j) >= P(i) + 4 * (j - i), step(j), z3.Not(P(j + 1) >= P(i) + 4 * (j + 1 - i)))
    s.add(ind)
    env.prove('lemma: positions increase (induction step)', core.mkbool(z3.Not(z3.And(i <= j, j < N, i >= 0, P(j) >= P(i) + 4 * (j - i), step(j), z3.Not(P(j + 1) >= P(i) + 4 * (j + 1 - i))))))
    e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), z3.And(P(k) + 4 + u(P(k)) <= core.iterm(L), P(k) >= 4, step(k))), patterns=[u(P(k))]))
    e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), P(k) < core.iterm(L)), patterns=[P(k)]))
    return n, (lambda x: core.mkint(P(core.iterm(x)))), ml


def h_complete(env):
    """A well-formed message (any number of segments) is accepted and split at the declared positions."""
    data = SBytes.blob('data')
    N, P, ml = wellformed(env, data)
    loops.CLOSED[:] = [P]
    r, rec = reader(env, data)
    env.prove('a well-formed message is accepted', r[0] == 'ok', r[1])
    env.prove('metadata bytes', env.eq(SBytes([]) + rec.json.got[0], data.slice(4, 4 + ml)))
    env.prove('number of segments', env.eq(env.len(rec.segs), N))
    for k in env.each('k', N):
        a, b = extent(env.get(rec.segs, k), data)
        env.prove('segment k starts after its length field', env.eq(a, P(k) + 4))
        env.prove('segment k has its declared length', env.eq(b - a, B.u32_at(data, P(k))))


def h_trip(env):
    """Writer and reader together, segments of symbolic length (up to 3 of them)."""
    meta = SBytes.blob('meta')
    n = env.choice('n', [0, 1, 2, 3])
    segs = [SBytes.blob(f's{i}') for i in range(n)]

    def enc(v, ctx):
        for x in segs:
            ctx.add_segment(x)
        return {'_kind': 'stub'}
    fj = FakeJson(meta)
    env.patch(S, 'json', fj)
    env.patch(S, '_to_binary_json', enc)
    r = env.run(S.dumps_binary, 'value')
    if r[0] == 'exc':
        env.prove('only oversized parts are refused', env.or_(env.len(meta) >= U32, *[env.len(x) >= U32 for x in segs]))
        return
    rec = types.SimpleNamespace(segs=None)

    def dec(m, s):
        rec.segs = s
        return 'value'
    env.patch(S, '_from_binary_json', dec)
    B.DECODE[:] = [lambda b: Text(b)]
    r2 = env.run(S.loads_binary, r[1])
    B.DECODE[:] = []
    env.prove('read back', r2[0] == 'ok' and r2[1] == 'value', r2[1])
    env.prove('metadata', env.eq(SBytes([]) + fj.got[0], meta))
    env.prove('segment count', env.eq(env.len(rec.segs), n))
    for i in range(n):
        env.prove('segment bytes', env.eq(SBytes([]) + env.get(rec.segs, i), segs[i]))


def h_missing(env):
    """A value that refers to a segment the message does not have is an error."""
    n = env.length('n')
    seg = lambda k: SBytes.blob('sg') if not isinstance(k, int) else SBytes.blob(f'sg{k}')
    segs = env.seq('segs', seg, n=n)
    i = env.int('i', lo=0)
    env.assume(i >= n)
    kind = env.choice('kind', ['_bytes_bref', '_ndarray_bref', '_pa_table_bref'])
    doc = {'_kind': kind, 'bref': i, 'dtype': 'uint8', 'shape': [1]}
    r = env.run(S._from_binary_json, C.VDict(doc), segs)
    env.prove('a missing segment is an error', r[0] == 'exc')


# ------------------------------------------------------------------ concrete: real values, damage at every byte
def values(rng):
    import numpy as np
    import vp_without_spu  # noqa: F401
    from mplang.backends.tensor_impl import TensorValue
    from mplang.backends.table_impl import TableValue
    import pyarrow as pa
    def one(d=0):
        c = rng.randrange(9 if d < 2 else 6)
        if c == 0: return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 7])))
        if c == 1: return np.arange(rng.choice([0, 1, 5]), dtype=rng.choice(['u1', '<i8', '<f4', '>i4']))
        if c == 2: return TensorValue(np.arange(rng.choice([0, 2, 4])).reshape(2, -1))
        if c == 3: return TableValue(pa.table({'a': [1, 2][:rng.randrange(3)]}))
        if c == 4: return rng.choice([None, True, 3, 'é', 2.5])
        if c == 5: return np.zeros((rng.choice([0, 2]), 3), dtype='<i2')
        if c == 6: return [one(d + 1) for _ in range(rng.randrange(4))]
        if c == 7: return tuple(one(d + 1) for _ in range(rng.randrange(3)))
        return {f'k{i}': one(d + 1) for i in range(rng.randrange(3))}
    return one()


def same(a, b):
    import numpy as np
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if type(a).__name__ == 'TensorValue':
        return same(np.asarray(a.data), np.asarray(b.data))
    if type(a).__name__ == 'TableValue':
        return a.data.equals(b.data) if hasattr(a.data, 'equals') else a.data == b.data
    return a == b


def h_damage(env):
    """A real message truncated at any byte, or with a length field altered, is never decoded to different content."""
    seed = env.int('seed', 0, 10 ** 6)
    import random
    v = values(random.Random(seed))
    blob = S.dumps_binary(v)
    env.prove('round trip', same(S.loads_binary(blob), v), (v,))
    for cut in range(len(blob)):
        r = env.run(S.loads_binary, blob[:cut])
        env.prove('a truncated message is rejected', r[0] == 'exc', (cut, len(blob), v))
    # positions of the length fields, by the documented format
    pos = [0]
    off = 4 + struct.unpack_from('<I', blob, 0)[0]
    while off < len(blob):
        pos.append(off)
        off += 4 + struct.unpack_from('<I', blob, off)[0]
    env.prove('documented format tiles the message', off == len(blob))
    for p in pos:
        old = struct.unpack_from('<I', blob, p)[0]
        for d in (1, 2, 4, 1000, -1, -4, 1 << 31):
            new = (old + d)
            if not 0 <= new < U32:
                continue
            bad = bytearray(blob)
            struct.pack_into('<I', bad, p, new)
            # lengths that still tile the buffer are out of scope
            o, t = 4 + struct.unpack_from('<I', bad, 0)[0], 0
            while o < len(bad) and o + 4 <= len(bad):
                o += 4 + struct.unpack_from('<I', bad, o)[0]
            if o == len(bad):
                continue
            r = env.run(S.loads_binary, bytes(bad))
            env.prove('a message whose lengths do not fit is rejected', r[0] == 'exc', (p, old, new))


def h_segments(env):
    """Real writer on raw segments: the container is exactly the documented bytes (concrete)."""
    n = env.length('n', 0, 6)
    segs = [env.bytes(f's{i}') for i in range(n)]
    r = S.loads_binary(S.dumps_binary(list(segs)))
    env.prove('segments', r == segs, segs)
    ctx = S.BinaryContext()
    idx = [ctx.add_segment(x) for x in segs]
    env.prove('indices are positions', idx == list(range(n)) and list(ctx.segments) == segs)


def harnesses():
    F = ['mplang.edsl.serde.dumps_binary', 'mplang.edsl.serde.loads_binary']
    return [H('write', h_write, bound=2, conc=0, functions=F[:1], what='writer, any number of segments'),
            H('accepts', h_accepts, bound=None, conc=0, functions=F[1:], what='accepted => lengths tile the buffer and the segments are the tiles'),
            H('complete', h_complete, bound=None, conc=0, functions=F[1:], what='well-formed => accepted'),
            H('trip', h_trip, bound=3, conc=0, unbounded=True, functions=F, what='writer+reader, up to 3 segments of symbolic length'),
            H('missing', h_missing, bound=2, conc=0, functions=['mplang.edsl.serde._from_binary_json'], what='missing segment is an error'),
            H('damage', h_damage, sym=False, conc=60, conc_s=10, what='truncation at every byte, altered lengths (concrete)'),
            H('segments', h_segments, sym=False, conc=100, conc_s=4, what='raw segments (concrete)')]
