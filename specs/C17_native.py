"""C17: the C++ kernels ldpc_encode, decode_okvs and hash_key, verified on the LLVM IR of the sources (z3, machine arithmetic, any size)."""
import json
import os
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pyvc  # noqa: F401,E402
import z3  # noqa: E402
from pyvc import gf2, irz, kernels  # noqa: E402
from pyvc.gf2 import Unsupported  # noqa: E402

OUT = sys.argv[1]
res = dict(obligations=0, discharged=0, backends={}, proved=[], bounded=[], violations=[], details=[], solver_s=0.0)
BV = z3.BitVecVal
U64 = z3.BitVecSort(64)


def structs(text):
    return {m.group(1): [x.strip() for x in m.group(2).split(',')] for m in re.finditer(r'^(%[\w.:"]+) = type \{(.*)\}', text, re.M)
            if all(re.match(r'^\s*(i\d+|ptr)\s*$', x) for x in m.group(2).split(','))}


def report(name, what, vcs, t0):
    res['solver_s'] += time.time() - t0
    bad = [v for v in vcs if v[1] != 'discharged']
    d = dict(harness=name, status='ok' if not bad else bad[0][1], what=what, obligations=len(vcs), undischarged=len(bad), wall_s=round(time.time() - t0, 2),
             notes=[f'{v[0]}: {v[1]}' for v in vcs])
    if not bad and vcs:
        res['obligations'] += len(vcs)
        res['discharged'] += len(vcs)
        res['backends']['z3'] = res['backends'].get('z3', 0) + len(vcs)
        res['proved'].append(name)
        res['details'].append(d)
        return
    ref = [v for v in bad if v[1] == 'refuted']
    if ref:
        res['violations'].append(dict(name=name, nfif=True, doc=dict(property='C17', harness=name, kind='failed obligation', obligation=ref[0][0], verifier_output=ref[0][2])))
        res['details'].append(d)
    else:
        undecided(name, bad[0][0] if bad else 'no obligations')


def undecided(name, why):
    res['bounded'].append((name, 'concrete runs only', 0, why))
    res['details'].append(dict(harness=name, status='unsupported', why=why))


def cells(f, off): return z3.Concat(f(off + 8), f(off))


def rows_loop(name, lp, n, out, value, pc, k):
    """the loop writes out[t] = value(t) for t = 0 .. n-1, sixteen bytes each, and nothing else"""
    vcs = []
    nm, inv = irz.invariant(lp, [('t < n', lambda t: z3.ULT(t, n)), ('t <= n', lambda t: z3.ULE(t, n))])
    vcs.append((f'path {k}: loop invariant {nm}', 'discharged' if nm != 'true' else 'unknown', None))
    vcs.append((f'path {k}: as many iterations as elements', *irz.prove(pc + lp.pc + [inv(lp.T)], z3.Or(lp.T + 1 == n, lp.T == n))))
    for c, ws, eff, what in lp.writes:
        run = [c, inv(lp.t)] + lp.pc
        if not ws:
            vcs.append((f'path {k}: an iteration without a write is past the end', *irz.prove(run, z3.And(lp.t == n, z3.BoolVal(what == 'exit')))))
            continue
        if len(ws) != 1 or ws[0][2] != 16:
            raise Unsupported('not one element per iteration')
        b, off, sz, v = ws[0]
        place = (n - 1 - lp.t) if irz.prove(run, off == 16 * (n - 1 - lp.t))[0] == 'discharged' else lp.t
        vcs.append((f'path {k}: iteration t writes the element of its turn', *irz.prove(run, z3.And(z3.BoolVal(b == out), off == 16 * place, z3.ULT(lp.t, n)))))
        vcs += value(run, place, v, eff, f'path {k} ({what})')
        if what == 'exit':
            vcs.append((f'path {k}: the last element is the last', *irz.prove(run, lp.t + 1 == n)))
    return vcs


def drive(fns, text, fn, args, n, out, value, pre, contracts=None):
    z = irz.Z(fns, contracts)
    z.structs = structs(text)
    vcs = []
    for k, (kind, st, r) in enumerate(z.run(fn, args, assume=pre)):
        lps = [e[1] for e in st['eff']]
        if st['writes']:
            raise Unsupported('writes outside of the loop')
        if not lps:
            vcs.append((f'path {k}: without a loop there is no element', *irz.prove(st['pc'], n == 0)))
        elif len(lps) == 1:
            vcs += rows_loop(fn, lps[0], n, out, value, st['pc'], k)
        else:
            raise Unsupported('several loops')
    return vcs


def ldpc():
    """output[i] is the exclusive-or of message[indices[k]] for k in [indptr[i], indptr[i+1])"""
    text = kernels.ir('ldpc.cpp')
    fns = gf2.parse_ir(text)
    t0 = time.time()
    m, n = z3.BitVec('m', 64), z3.BitVec('n', 64)
    P, I, X = (z3.Function('mem.' + x, U64, U64) for x in 'PIX')
    fold = z3.Function('fold', U64, U64, z3.BitVecSort(128))       # fold(s, k): the exclusive-or of message[indices[j]] for s <= j < k

    def term(k): return cells(X, 16 * I(8 * k))

    def value(run, row, v, eff, label):
        s, e = P(8 * row), P(8 * row + 8)
        facts = [fold(s, s) == BV(0, 128)]
        vcs = []
        inner = [x[1] for x in eff]
        if len(inner) > 1:
            raise Unsupported('several inner loops')
        if inner:
            lp = inner[0]
            if any(w[1] for w in lp.writes):
                raise Unsupported('writes in the inner loop')
            for F, i0, nx in lp.facts:
                # the recurrence of the loop is the fold: same start, same step; hence equal for every k, by induction on the iteration
                k = s + lp.t
                base = irz.prove(run + facts + lp.pc, i0 == BV(0, 128))
                nm, inv = irz.invariant(lp, [('k < end', lambda t: z3.ULT(s + t, e)), ('k <= end', lambda t: z3.ULE(s + t, e))])
                step = irz.prove(lp.pc + [inv(lp.t), lp.cont, F(lp.t) == fold(s, k), fold(s, k + 1) == fold(s, k) ^ term(k)], nx == fold(s, k + 1))
                vcs += [(f'{label}: the sum starts at zero', *base), (f'{label}: a step of the inner loop adds the block of index k ({nm})', *step)]
                if base[0] != 'discharged' or step[0] != 'discharged':
                    return vcs
                facts += [F(lp.T) == fold(s, s + lp.T), inv(lp.T), fold(s, s + lp.T + 1) == fold(s, s + lp.T) ^ term(s + lp.T)]
        vcs.append((f'{label}: the row is the exclusive-or of the blocks it selects', *irz.prove(run + facts, z3.Implies(z3.ULE(s, e), v == fold(s, e)))))
        return vcs
    vcs = drive(fns, text, 'ldpc_encode', [irz.Ptr(x, 0) for x in ('X', 'I', 'P', 'O')] + [m, n], m, 'O', value, [z3.ULE(m, BV(1 << 58, 64))])
    report('native.ldpc_encode', ldpc.__doc__, vcs, t0)


def hash_name(fns):
    c = [f for f in fns if 'hash_key' in f]
    return c[0] if len(c) == 1 else None


def decode():
    """output[i] is storage[h1] ^ storage[h2] ^ storage[h3] for the three indices hash_key gives for keys[i], m and the seed"""
    text = kernels.ir('okvs.cpp')
    fns = gf2.parse_ir(text)
    t0 = time.time()
    hk = hash_name(fns)
    if hk is None:
        raise Unsupported('no hash_key')
    hs = [z3.Function(f'h{i}', U64, U64, z3.BitVecSort(128), U64) for i in (1, 2, 3)]
    m, n = z3.BitVec('m', 64), z3.BitVec('n', 64)
    K, S, G = (z3.Function('mem.' + x, U64, U64) for x in 'KSG')

    def hash_key(z, st, ret, key, mm, seed):
        if not isinstance(ret, irz.Ptr):
            raise Unsupported('hash_key does not return by pointer')
        for i, h in enumerate(hs):
            z.write(irz.Ptr(ret.base, ret.off + 8 * i), h(key, mm, seed), 8, st)

    def value(run, i, v, eff, label):
        if eff:
            raise Unsupported('an inner loop')
        key, seed = K(8 * i), cells(G, BV(0, 64))
        want = [cells(S, 16 * h(key, m, seed)) for h in hs]
        return [(f'{label}: the three blocks of the key', *irz.prove(run, v == want[0] ^ want[1] ^ want[2]))]
    vcs = drive(fns, text, 'decode_okvs', [irz.Ptr(x, 0) for x in ('K', 'S', 'O')] + [n, m, irz.Ptr('G', 0)], n, 'O', value, [z3.ULE(n, BV(1 << 58, 64))], {hk: hash_key})
    report('native.decode_okvs', decode.__doc__, vcs, t0)


def hashing():
    """hash_key gives three indices below m, pairwise different when m >= 3"""
    text = kernels.ir('okvs.cpp')
    fns = gf2.parse_ir(text)
    t0 = time.time()
    hk = hash_name(fns)
    if hk is None:
        raise Unsupported('no hash_key')
    z = irz.Z(fns)
    z.structs = structs(text)
    key, m, seed = z3.BitVec('key', 64), z3.BitVec('m', 64), z3.BitVec('seed', 128)
    ret = irz.Ptr(('stack', 'ret'), 0)
    vcs = []
    for k, (kind, st, r) in enumerate(z.run(hk, [ret, key, m, seed], assume=[m != 0])):
        if st['writes'] or st['eff']:
            raise Unsupported('effects')
        h = [z.read(irz.Ptr(ret.base, 8 * i), 8, st) for i in range(3)]
        vcs.append((f'path {k}: below m', *irz.prove(st['pc'], z3.And(*[z3.ULT(x, m) for x in h]))))
        vcs.append((f'path {k}: pairwise different', *irz.prove(st['pc'] + [z3.UGE(m, BV(3, 64))], z3.Distinct(*h))))
    report('native.hash_key', hashing.__doc__, vcs, t0)


for f in (ldpc, decode, hashing):
    try:
        f()
    except RuntimeError as e:
        res['violations'].append(dict(name=f.__name__, nfif=True, doc=dict(property='C17', kind='the kernel cannot be built', why=str(e))))
    except Unsupported as e:
        undecided('native.' + f.__name__, str(e))
    except Exception as e:
        undecided('native.' + f.__name__, repr(e) + traceback.format_exc()[-700:])
json.dump(res, open(OUT, 'w'), default=repr)
