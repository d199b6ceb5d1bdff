"""C16: the multiplication kernels, verified function by function with exact GF(2) normal forms (Python, and LLVM IR of the C++)."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pyvc  # noqa: F401,E402  (finds z3)
import vp_without_spu  # noqa: F401,E402
import z3  # noqa: E402
import numpy as np  # noqa: E402
from pyvc import gf2, irz, kernels  # noqa: E402
from pyvc.gf2 import Space, W, word, cut, shr, shl, xor, clmul, mod_gf128, equal, witness, lift, low, Py, IR, Ptr, Unsupported  # noqa: E402
import mplang.kernels.py_kernels as K  # noqa: E402

OUT = sys.argv[1]
M64 = (1 << 64) - 1
res = dict(obligations=0, discharged=0, backends={}, proved=[], bounded=[], violations=[], details=[], solver_s=0.0)


def lo(S, x): return cut(S, x, 64)
def hi(S, x): return cut(S, shr(S, x, 64), 64)
def join(S, *ws):
    out = 0
    for i, w in enumerate(ws):
        out = xor(S, out, shl(S, w, 64 * i))
    return out


# contracts of the helpers, as functions from words to words
def c_clmul64(S): return lambda a, b: (lambda p: (lo(S, p), hi(S, p)))(clmul(S, a, b))
def c_clmul128(S):
    def f(a0, a1, b0, b1):
        p = clmul(S, join(S, a0, a1), join(S, b0, b1))
        return tuple(cut(S, shr(S, p, 64 * i), 64) for i in range(4))
    return f
def c_reduce(S):
    def f(r0, r1, r2, r3):
        p = mod_gf128(S, join(S, r0, r1, r2, r3))
        return lo(S, p), hi(S, p)
    return f


def ref(a, b):
    """the field product of two integers, by the textbook"""
    p = 0
    for i in range(128):
        if b >> i & 1:
            p ^= a << i
    for i in range(254, 127, -1):
        if p >> i & 1:
            p ^= (1 << i) ^ (0x87 << (i - 128))
    return p


def number(point, name, n):
    return sum(1 << i for i in range(n) if f'{name}[{i}]' in point)


def verify(name, what, run, post, ins, replay=None):
    """run() gives the words the function returns, post() those its contract names"""
    t0 = time.time()
    S, got, want = run()
    bits = 0
    wit = None
    for g, w in zip(got, want):
        if not equal(S, g, w) and wit is None:
            wit = witness(S, g, w)
        bits += max(len(lift(S, g).b), len(lift(S, w).b), 1)
    ok = wit is None and len(got) == len(want)
    d = dict(harness=name, status='ok' if ok else 'refuted', what=what, obligations=bits, undischarged=0 if ok else 1, wall_s=round(time.time() - t0, 3),
             notes='every bit of the result: the same algebraic normal form as the specification')
    return ok, wit, bits, d


def done(name, bits, d, backend='GF(2) normal form'):
    res['obligations'] += bits
    res['discharged'] += bits
    res['backends'][backend] = res['backends'].get(backend, 0) + bits
    res['proved'].append(name)
    res['details'].append(d)


def refuted(name, d, point, real, ins):
    doc = dict(property='C16', harness=name, obligation=d['what'], point=sorted(point) if point else None)
    nf = True
    if real is not None and point is not None:
        a, b = number(point, 'a', 128), number(point, 'b', 128)
        try:
            g = real(a, b)
            doc.update(kind='counterexample of the verifier, replayed on the real code', inputs=dict(a=hex(a), b=hex(b)), got=hex(g), expected=hex(ref(a, b)))
            nf = g == ref(a, b)
            doc['why'] = f'{name}: {a:#x} * {b:#x} gives {g:#x}, the field product is {ref(a, b):#x}'
        except Exception as e:
            doc['replay_error'] = repr(e)
    res['violations'].append(dict(name=name, doc=doc, nfif=nf))
    res['details'].append(d)


def undecided(name, why):
    res['bounded'].append((name, 'concrete runs only (basis pairs and random pairs)', 0, why))
    res['details'].append(dict(harness=name, status='unsupported', why=why))


def arr(x): return np.array([x & M64, x >> 64], dtype=np.uint64)
def num(v): return int(v[0]) | int(v[1]) << 64


def python_side():
    def np_array(v, dtype=None):
        return list(v)
    hooks = {np.array: np_array, np.uint64: lambda v: v}
    good = {}
    pieces = [('_gf128_clmul64', 'lo + 2^64 hi is the carry-less product', [('a', 64), ('b', 64)], c_clmul64),
              ('_gf128_clmul128', 'r0..r3 is the 256-bit carry-less product', [('a0', 64), ('a1', 64), ('b0', 64), ('b1', 64)], c_clmul128),
              ('_gf128_reduce', 'the remainder modulo x^128+x^7+x^2+x+1', [('r0', 64), ('r1', 64), ('r2', 64), ('r3', 64)], c_reduce)]
    for fn, what, ins, contract in pieces:
        f = getattr(K, fn, None)
        if f is None:
            continue
        S = Space()
        args = [word(S, n, k) for n, k in ins]
        try:
            t0 = time.time()
            got = Py(S, K, {n: c(S) for n, c in good.items()}, hooks).run(f, *args)
            want = contract(S)(*args)
            # the 256-bit product has degree at most 254
            if fn == '_gf128_reduce':
                pass
            if isinstance(got, tuple) and len(got) == len(want) and all(equal(S, cut(S, g, 64), w) and (fn == '_gf128_reduce' or equal(S, g, w)) for g, w in zip(got, want)):
                if fn != '_gf128_reduce' or all(equal(S, g, w) for g, w in zip(got, want)):
                    good[fn] = contract
                    done('python.' + fn, 64 * len(want), dict(harness='python.' + fn, status='ok', what=what, obligations=64 * len(want), undischarged=0, wall_s=round(time.time() - t0, 3)))
        except (Unsupported, Exception) as e:      # its callers then see the body instead of the contract
            res['details'].append(dict(harness='python.' + fn, status='inlined', why=repr(e)[:200]))
    name = 'python.gf128_mul_single'
    S = Space()
    a, b = word(S, 'a', 128), word(S, 'b', 128)
    want = mod_gf128(S, clmul(S, a, b))
    why = None
    for contracts in ({n: c(S) for n, c in good.items()}, {}):
        try:
            t0 = time.time()
            p = Py(S, K, contracts, hooks)
            got = p.run(K.gf128_mul_single, [lo(S, a), hi(S, a)], [lo(S, b), hi(S, b)])
            if len(got) != 2:
                raise Unsupported('not two words')
            ok = equal(S, got[0], lo(S, want)) and equal(S, got[1], hi(S, want))
            d = dict(harness=name, status='ok' if ok else 'refuted', what='gf128_mul_single returns the field product, for all 2^256 pairs', obligations=128,
                     undischarged=0 if ok else 1, wall_s=round(time.time() - t0, 3), contracts=sorted(p.used))
            if ok:
                return done(name, 128, d)
            w = witness(S, got[0], lo(S, want)) or witness(S, got[1], hi(S, want))
            if contracts:
                continue
            return refuted(name, d, w[1], lambda x, y: num(K.gf128_mul_single(arr(x), arr(y))), None)
        except Unsupported as e:
            why = str(e)
        except Exception as e:
            why = repr(e)
    undecided(name, why)


def native_mul():
    import ctypes
    L = ctypes.CDLL(kernels.library())
    P = ctypes.POINTER(ctypes.c_uint64)

    def f(x, y):
        o = np.zeros(2, np.uint64)
        a, b = arr(x), arr(y)
        L.gf128_mul(a.ctypes.data_as(P), b.ctypes.data_as(P), o.ctypes.data_as(P))
        return num(o)
    return f


def native_side():
    name = 'native.gf128_mul'
    text = kernels.ir('gf128.cpp')
    fns = gf2.parse_ir(text)
    S = Space()
    a, b = word(S, 'a', 128), word(S, 'b', 128)
    want = mod_gf128(S, clmul(S, a, b))
    try:
        t0 = time.time()
        m = IR(S, fns, text)
        m.fill('A', a, 16)
        m.fill('B', b, 16)
        m.mem['O'] = {}
        m.call('gf128_mul', [Ptr('A', 0), Ptr('B', 0), Ptr('O', 0)])
        frame = {x for x in m.stores if not x[0].startswith('stack')} == {('O', i) for i in range(16)}
        got = m.read(Ptr('O', 0), 16) if frame else 0
        ok = frame and equal(S, got, want)
        d = dict(harness=name, status='ok' if ok else 'refuted', what='out[0..2) is the field product of a and b, and nothing else is written, for all 2^256 pairs',
                 obligations=129, undischarged=0 if ok else 1, wall_s=round(time.time() - t0, 3))
        if ok:
            done(name, 129, d)
        else:
            w = witness(S, got, want)
            refuted(name, d, w[1] if w else None, native_mul(), None)
    except Unsupported as e:
        undecided(name, str(e))
    # the batch
    name = 'native.gf128_mul_batch'
    try:
        t0 = time.time()
        vcs = batch(fns)
        bad = [v for v in vcs if v[1] != 'discharged']
        res['solver_s'] += time.time() - t0
        d = dict(harness=name, status='ok' if not bad else bad[0][1], what='for every n: out[2i..2i+2) is written exactly from a[2i..2i+2) and b[2i..2i+2), for each i in [0, n), and nothing else',
                 obligations=len(vcs), undischarged=len(bad), wall_s=round(time.time() - t0, 3), notes=[f'{v[0]}: {v[1]}' for v in vcs])
        if not bad:
            done(name, len(vcs), d, 'z3')
        elif any(v[1] == 'refuted' for v in bad):
            v = [v for v in bad if v[1] == 'refuted'][0]
            res['violations'].append(dict(name=name, nfif=True, doc=dict(property='C16', harness=name, kind='failed obligation', obligation=v[0], verifier_output=v[2])))
            res['details'].append(d)
        else:
            undecided(name, bad[0][0] + ': ' + bad[0][1])
    except Unsupported as e:
        undecided(name, str(e))


def batch(fns):
    """verification conditions of gf128_mul_batch against the contract of gf128_mul; n >= 0 elements, distinct buffers"""
    bv = z3.BitVecVal

    def mul(zx, st, a, b, o):
        st['writes'].append((o.base, z3.simplify(o.off), 16, ('mul', a, b)))
    n = z3.BitVec('n', 64)
    pre = [n >= 0, z3.ULE(n, bv(1 << 58, 64))]
    vcs = []
    z = irz.Z(fns, {'gf128_mul': mul})
    for k, (kind, st, r) in enumerate(z.run('gf128_mul_batch', [irz.Ptr('A', 0), irz.Ptr('B', 0), irz.Ptr('O', 0), n], assume=pre)):
        pc = st['pc']
        lps = [e[1] for e in st['eff']]
        if st['writes']:
            raise Unsupported('writes outside of the loop')
        if not lps:
            vcs.append((f'path {k}: without a loop there is no element', *irz.prove(pc, n == 0)))
            continue
        if len(lps) != 1:
            raise Unsupported('several loops')
        lp = lps[0]
        # iterations 0..T: each writes one element, the elements are 0..n-1 in some affine order
        nm, inv = irz.invariant(lp, [('t < n', lambda t: z3.ULT(t, n)), ('t <= n', lambda t: z3.ULE(t, n))])
        vcs.append((f'path {k}: loop invariant {nm} (at 0 and kept by an iteration)', 'discharged' if nm != 'true' else 'unknown', None))
        vcs.append((f'path {k}: as many iterations as elements', *irz.prove(pc + lp.pc + [inv(lp.T)], z3.Or(lp.T + 1 == n, lp.T == n))))
        full = [w for w in lp.writes]
        for c, ws, eff, what in full:
            if eff:
                raise Unsupported('a loop in the loop')
            run = [c, inv(lp.t)] + lp.pc
            if not ws:
                vcs.append((f'path {k}: an iteration without a write is past the end', *irz.prove(run, z3.And(lp.t == n, z3.BoolVal(what == 'exit')))))
                continue
            if len(ws) != 1 or not isinstance(ws[0][3], tuple):
                raise Unsupported('not one element per iteration')
            b, off, sz, (_, pa, pb) = ws[0]
            # elements in ascending or in descending order
            place = (lambda t: n - 1 - t) if irz.prove(run, off == 16 * (n - 1 - lp.t))[0] == 'discharged' else (lambda t: t)
            vcs.append((f'path {k}: iteration t writes the element of its turn', *irz.prove(run, z3.And(z3.BoolVal(b == 'O'), off == 16 * place(lp.t), z3.ULT(lp.t, n)))))
            vcs.append((f'path {k}: from the same element of both inputs', *irz.prove(run, z3.And(pa.off == off, pb.off == off, z3.BoolVal({pa.base, pb.base} == {'A', 'B'})))))
            if what == 'exit':
                vcs.append((f'path {k}: the last element is the last', *irz.prove(run, lp.t + 1 == n)))
            else:
                vcs.append((f'path {k}: it goes on before the last', *irz.prove(run, z3.ULE(lp.t + 1, n))))
    return vcs


def main():
    for f in (python_side, native_side):
        try:
            f()
        except RuntimeError as e:
            res['violations'].append(dict(name=f.__name__, nfif=True, doc=dict(property='C16', kind='the kernel cannot be built', why=str(e))))
        except Exception as e:
            undecided(f.__name__, repr(e) + traceback.format_exc()[-600:])
    json.dump(res, open(OUT, 'w'), default=repr)


main()
