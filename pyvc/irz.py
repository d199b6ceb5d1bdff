"""Loops over arrays in LLVM IR, decided with z3: contracts for callees, a summary with an invariant for every loop.

Integers are z3 bit-vectors of their machine width (no idealisation), pointers a base and a 64-bit byte offset.  Input
regions are uninterpreted memory; every write is logged with its offset and value.  A loop is summarised at its header:
the values carried round it are either affine in the iteration number t (base + step*t, the step found and then proved by
running the body on arbitrary values) or a recurrence F with F(0) = initial value and F(t+1) = body(F(t)).  The body is
then run once more for an arbitrary t, which gives the writes of iteration t and the condition on which it is the last."""
import re
import z3
from .gf2 import Unsupported, _split, width, IR as _IR

B64 = z3.BitVecSort(64)


def bv(x, n=64):
    return z3.BitVecVal(x, n) if isinstance(x, int) else x


class Ptr:
    __slots__ = ('base', 'off')

    def __init__(self, base, off):
        self.base, self.off = base, bv(off)


class Loop:
    def __init__(self, t, T, writes, cont, last, carried, facts):
        self.t, self.T, self.writes, self.cont, self.last, self.carried, self.facts = t, T, writes, cont, last, carried, facts


class Z:
    def __init__(self, fns, contracts=None, n0=[0]):
        self.fns, self.contracts = fns, contracts or {}
        self.k = 0
        self.loopsof = {}

    def fresh(self, name, n=64):
        self.k += 1
        return z3.BitVec(f'{name}!{self.k}', n)

    # memory: eight-byte cells of the input regions
    def cell(self, base, off):
        return z3.Function('mem.' + base, B64, B64)(z3.simplify(off))

    def read(self, p, n, st):
        if isinstance(p.base, tuple):
            out = []
            o = z3.simplify(p.off)
            if not z3.is_bv_value(o):
                raise Unsupported('an unknown place on the stack')
            o = o.as_long()
            if (n, o) in st['stack'].get(p.base, {}):
                return st['stack'][p.base][(n, o)]
            if n % 8:
                raise Unsupported('a part of a stack cell')
            for i in range(0, n, 8):
                if (8, o + i) not in st['stack'].get(p.base, {}):
                    raise Unsupported('an unwritten stack cell')
                out.append(st['stack'][p.base][(8, o + i)])
            return out[0] if len(out) == 1 else z3.Concat(*reversed(out))
        if any(w[0] == p.base for w in st['writes']) or p.base in st['written']:
            raise Unsupported('a read of a region the function writes')
        st['reads'].append((p.base, p.off, n))
        if n % 8:
            raise Unsupported(f'a read of {n} bytes')
        out = [self.cell(p.base, p.off + i) for i in range(0, n, 8)]
        return out[0] if len(out) == 1 else z3.Concat(*reversed(out))

    def write(self, p, v, n, st):
        if isinstance(p.base, tuple):
            o = z3.simplify(p.off)
            if not z3.is_bv_value(o):
                raise Unsupported('an unknown place on the stack')
            o = o.as_long()
            d = st['stack'].setdefault(p.base, {})
            if n > 8 and n % 8 == 0 and not isinstance(v, Ptr):
                for i in range(0, n, 8):
                    d[(8, o + i)] = z3.Extract(8 * i + 63, 8 * i, v)
            else:
                d[(n, o)] = v
            return
        st['writes'].append((p.base, z3.simplify(p.off), n, z3.simplify(v) if not isinstance(v, Ptr) else v))

    # control
    def run(self, name, args, assume=()):
        """[(path condition, effects, return value)]; effects: ('write', base, off, n, value) and ('loop', Loop)"""
        f = self.fns[name]
        self.f = f
        self.succ = {l: [x for x in re.findall(r'label (%[\w.$-]+)', b[-1])] for l, b in f['blocks'].items()}
        self.heads = {}
        self.find_loops(f)
        env = dict(zip([p[1] for p in f['params']], args))
        st = dict(env=env, pc=list(assume), writes=[], eff=[], reads=[], stack={}, written=set())
        outs = []
        self.walk(f['order'][0], None, st, outs, None)
        return outs

    def find_loops(self, f):
        color = {}
        back = []

        def dfs(u):
            color[u] = 1
            for v in self.succ.get(u, []):
                if color.get(v) == 1:
                    back.append((u, v))
                elif v not in color:
                    dfs(v)
            color[u] = 2
        dfs(f['order'][0])
        pred = {}
        for u, vs in self.succ.items():
            for v in vs:
                pred.setdefault(v, []).append(u)
        for u, h in back:
            body = self.heads.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work += pred.get(x, [])

    def phis(self, label, prev, env):
        out = {}
        for line in self.f['blocks'][label]:
            m = re.match(r'^(%[\w.$-]+) = phi (.*)$', line)
            if not m:
                break
            t, rest = self.type(m.group(2))
            for v, l in re.findall(r'\[ *(.*?), *(%[\w.$-]+) *\]', rest):
                if l == prev or (prev == self.f['order'][0] and l not in self.f['blocks']):
                    out[m.group(1)] = self.val(t, v, env)
        return out

    def sat(self, conds):
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*conds)
        return s.check() != z3.unsat

    def fork(self, st):
        return dict(env=dict(st['env']), pc=list(st['pc']), writes=list(st['writes']), eff=list(st['eff']), reads=list(st['reads']),
                    stack={k: dict(v) for k, v in st['stack'].items()}, written=set(st['written']))

    def walk(self, label, prev, st, outs, region, skip_head=False):
        """run to a return, or (in a region) to its header or out of it; outs gets (kind, st, ...)"""
        while True:
            if region is not None and prev is not None:
                h, body = region
                if label == h:
                    outs.append(('back', st, self.phis(label, prev, st['env'])))
                    return
                if label not in body:
                    outs.append(('exit', st, label, prev))
                    return
            if label in self.heads and not skip_head:
                for nst, lab, prv in self.loop(label, prev, st):
                    self.walk(lab, prv, nst, outs, region)
                return
            if not skip_head:
                st['env'].update(self.phis(label, prev, st['env']))
            skip_head = False
            nxt = None
            for line in self.f['blocks'][label]:
                if ' = phi ' in line:
                    continue
                if line.startswith('ret'):
                    r = None
                    if not line.startswith('ret void'):
                        t, rest = self.type(line[4:])
                        r = self.val(t, rest, st['env'])
                    outs.append(('ret', st, r))
                    return
                if line.startswith('unreachable'):
                    if self.sat(st['pc']):
                        raise Unsupported('unreachable reached')
                    return
                if line.startswith('br label'):
                    nxt = [(None, re.match(r'br label (%[\w.$-]+)', line).group(1))]
                    break
                if line.startswith('br i1'):
                    m = re.match(r'br i1 (\S+), label (%[\w.$-]+), label (%[\w.$-]+)', line)
                    c = z3.simplify(self.val('i1', m.group(1), st['env']) == 1)
                    nxt = [(c, m.group(2)), (z3.Not(c), m.group(3))]
                    break
                self.inst(line, st)
            else:
                raise Unsupported('a block without an end')
            live = []
            for c, l in nxt:
                if c is None or self.sat(st['pc'] + [c]):
                    live.append((c, l))
            if len(live) == 1:
                c, l = live[0]
                if c is not None:
                    st['pc'].append(c)
                prev, label = label, l
                continue
            for c, l in live:
                s2 = self.fork(st)
                s2['pc'].append(c)
                self.walk(l, label, s2, outs, region)
            return

    def loop(self, h, prev, st):
        body = self.heads[h]
        init = self.phis(h, prev, st['env'])
        base_writes = len(st['writes'])
        # 1. what the body does to arbitrary carried values
        hav = {}
        for k, v in init.items():
            hav[k] = Ptr(v.base, self.fresh('off')) if isinstance(v, Ptr) else self.fresh('phi', v.size())
        s1 = self.fork(st)
        s1['env'].update(hav)
        s1['pc'] = []
        outs = []
        self.walk(h, None, s1, outs, (h, body), skip_head=True)
        backs = [o for o in outs if o[0] == 'back']
        t = self.fresh('t')
        carried = {}
        names = [v.off if isinstance(v, Ptr) else v for v in hav.values()]
        for k, v in init.items():
            nx = None
            for b in backs:
                w = b[2][k]
                c = z3.And(b[1]['pc']) if b[1]['pc'] else z3.BoolVal(True)
                wt = w.off if isinstance(w, Ptr) else w
                if isinstance(w, Ptr) and w.base != v.base:
                    raise Unsupported('a pointer that changes its region')
                nx = wt if nx is None else z3.If(c, wt, nx)
            hv = hav[k].off if isinstance(v, Ptr) else hav[k]
            i0 = v.off if isinstance(v, Ptr) else v
            d = z3.simplify(nx - hv)
            if not self.mentions(d, names) and not self.inside(d):
                val = i0 + d * (t if d.size() == 64 else (z3.Extract(d.size() - 1, 0, t) if d.size() < 64 else z3.ZeroExt(d.size() - 64, t)))
                carried[k] = ('affine', val, None)
            else:
                F = z3.Function(f'F!{self.k}.{k}', B64, z3.BitVecSort(i0.size()))
                carried[k] = ('recurrence', F(t), F)
        # 2. iteration t of the loop
        s2 = self.fork(st)
        s2['writes'], s2['reads'] = [], []
        s2['written'] = set(st['written']) | {w[0] for w in st['writes']}
        for k, v in init.items():
            s2['env'][k] = Ptr(v.base, carried[k][1]) if isinstance(v, Ptr) else carried[k][1]
        n0 = len(s2['pc'])
        e0 = len(s2['eff'])
        outs2 = []
        self.walk(h, None, s2, outs2, (h, body), skip_head=True)
        for o in outs2:
            if o[0] == 'ret':
                raise Unsupported('a return inside of a loop')
        backs = [o for o in outs2 if o[0] == 'back']
        exits = [o for o in outs2 if o[0] == 'exit']
        facts = []
        for k, (kind, val, F) in carried.items():
            i0 = init[k].off if isinstance(init[k], Ptr) else init[k]
            if kind == 'recurrence':
                nx = None
                for b in backs:
                    c = z3.And(b[1]['pc'][n0:] or [z3.BoolVal(True)])
                    nx = b[2][k] if nx is None else z3.If(c, b[2][k], nx)
                facts.append((F, i0, nx))
        T = self.fresh('last')

        def at(e, x):
            return z3.substitute(e, (t, x))
        num = int(str(t).split('!')[1])

        def own(c):     # what the condition says about this iteration alone, without the names made up inside of it
            work, seen = [c], set()
            while work:
                x = work.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and '!' in x.decl().name():
                    q = re.match(r'.*!(\d+)', x.decl().name())
                    if q and int(q.group(1)) > num:
                        return False
                work += x.children()
            return True
        cont = z3.Or([z3.And([c for c in b[1]['pc'][n0:] if own(c)] or [z3.BoolVal(True)]) for b in backs] or [z3.BoolVal(False)])
        last = z3.Or([z3.And(b[1]['pc'][n0:] or [z3.BoolVal(True)]) for b in exits] or [z3.BoolVal(False)])
        wr = []
        for o in outs2:
            c = z3.And(o[1]['pc'][n0:] or [z3.BoolVal(True)])
            wr.append((c, o[1]['writes'], o[1]['eff'][e0:], o[0]))
        lp = Loop(t, T, wr, cont, last, {k: carried[k][1] for k in carried}, facts)
        lp.init = init
        lp.pc = list(st['pc'])
        for o in exits:
            ns = self.fork(st)
            # iteration T was reached and is the last one
            ns['pc'] += [at(c, T) for c in o[1]['pc'][n0:]]
            ns['pc'].append(z3.Or(T == 0, at(cont, T - 1)))
            ns['pc'].append(z3.Or(T == 0, at(cont, bv(0))))
            ns['env'] = {k: (Ptr(v.base, at(v.off, T)) if isinstance(v, Ptr) else (at(v, T) if z3.is_expr(v) else v)) for k, v in o[1]['env'].items()}
            ns['stack'] = {k: {c: (at(v, T) if z3.is_expr(v) else v) for c, v in d.items()} for k, d in o[1]['stack'].items()}
            ns['written'] |= {w[0] for x in wr for w in x[1]}
            ns['eff'] = st['eff'] + [('loop', lp)]
            ns['reads'] = st['reads']
            yield ns, o[2], o[3]

    def mentions(self, e, names):
        ids = {x.get_id() for x in names}
        seen, work = set(), [e]
        while work:
            x = work.pop()
            if x.get_id() in ids:
                return True
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            work += x.children()
        return False

    def inside(self, e):
        """mentions memory read in the loop or anything else that may change with t: only constants and parameters may"""
        seen, work = set(), [e]
        while work:
            x = work.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() == 0 and not z3.is_bv_value(x) and '!' in x.decl().name():
                return True
            if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return True
            work += x.children()
        return False

    # values
    type = _IR.type

    def val(self, t, s, env):
        s = s.strip()
        if s.startswith('%'):
            if s not in env:
                raise Unsupported('an unknown value ' + s)
            return env[s]
        if s.startswith('@'):
            return Ptr(s, 0)
        if s == 'null':
            return Ptr('null', 0)
        n = width(t)
        if s in ('zeroinitializer', 'false'):
            return bv(0, n)
        if s == 'true':
            return bv(1, n)
        if s in ('poison', 'undef'):
            return self.fresh('poison', n)
        if re.match(r'^-?\d+$', s):
            return bv(int(s), n)
        if s.startswith('<'):
            parts = []
            for e in _split(s[1:-1]):
                et, ev = self.type(e)
                parts.append(self.val(et, ev, env))
            return z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0]
        raise Unsupported('an operand ' + s)

    def typed(self, s, env):
        s = re.sub(r'\b(noundef|nonnull|noalias|nocapture|readonly|writeonly|signext|zeroext|dereferenceable\(\d+\)|align \d+|returned|immarg|captures\(none\)|sret\([^)]*\)|writable|dead_on_unwind)\s*', '', s.strip())
        t, rest = self.type(s)
        return t, self.val(t, rest, env)

    def gep(self, t, p, idx):
        off = p.off
        for k, i in enumerate(idx):
            i64 = i if i.size() == 64 else z3.SignExt(64 - i.size(), i)
            if k > 0:
                mm = re.match(r'^[\[<](\d+) x (.*)[\]>]$', t.strip())
                if mm:
                    t = mm.group(2)
                else:
                    ms = self.struct(t)
                    c = z3.simplify(i64)
                    if ms is None or not z3.is_bv_value(c):
                        raise Unsupported('a struct offset')
                    o = 0
                    for x in ms[:c.as_long()]:
                        o += self.size(x)
                    off = off + o
                    t = ms[c.as_long()]
                    continue
            off = off + i64 * self.size(t)
        return Ptr(p.base, z3.simplify(off))

    structs = {}

    def struct(self, t):
        t = t.strip()
        if t in self.structs:
            return self.structs[t]
        if t.startswith('{'):
            return _split(t[1:-1])
        return None

    def size(self, t):
        s = self.struct(t)
        if s is not None:
            if any(width(x) != 64 for x in s):
                raise Unsupported('a struct with padding')
            return 8 * len(s)
        return width(t) // 8

    def urem(self, x, y, st):
        if z3.is_bv_value(z3.simplify(y)):
            return z3.URem(x, y)
        # by an unknown divisor: what is needed of the remainder, instead of a divider circuit
        f = z3.Function(f'urem{x.size()}', x.sort(), y.sort(), x.sort())
        r = f(z3.simplify(x), y)
        st['pc'] += [z3.Implies(y != 0, z3.ULT(r, y)), z3.Implies(z3.ULT(x, y), r == x), z3.Implies(x == y, r == 0)]
        return r

    def inst(self, line, st):
        env = st['env']
        line = re.sub(r', ![\w.]+ ![\w.]+', '', line)
        line = re.sub(r'(, ![\w.]+ )?!\d+', '', line)
        m = re.match(r'^(%[\w.$-]+) = (.*)$', line)
        dst, body = (m.group(1), m.group(2)) if m else (None, line)
        w = body.split()
        op = w[0]
        if op in ('tail', 'notail', 'musttail'):
            op, body = w[1], ' '.join(w[1:])
        if op == 'call':
            m = re.match(r'call (?:[\w]+\([^)]*\) |fastcc |noundef |signext |zeroext )*(.*?) @"?([\w.$]+)"?\((.*)\)', body)
            name, args = m.group(2), _split(m.group(3))
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias')):
                return
            vals = [self.typed(a, env)[1] for a in args]
            for pat, c in self.contracts.items():
                if re.fullmatch(pat, name):
                    r = c(self, st, *vals)
                    if dst:
                        env[dst] = r
                    return
            if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
                x, y = vals
                env[dst] = {'umin': z3.If(z3.ULT(x, y), x, y), 'umax': z3.If(z3.ULT(x, y), y, x),
                            'smin': z3.If(x < y, x, y), 'smax': z3.If(x < y, y, x)}[name[5:9]]
                return
            if name.startswith('llvm.x86.aesni.aesenc.') or name == 'llvm.x86.aesni.aesenc':
                env[dst] = z3.Function('aesenc', vals[0].sort(), vals[1].sort(), vals[0].sort())(*vals)
                return
            if name in self.fns:
                f0, s0, h0 = self.f, self.succ, self.heads
                sub = Z(self.fns, self.contracts)
                sub.k = self.k + 1000
                sub.structs = self.structs
                f = self.fns[name]
                sub.f = f
                sub.succ = {l: re.findall(r'label (%[\w.$-]+)', b[-1]) for l, b in f['blocks'].items()}
                sub.heads = {}
                sub.find_loops(f)
                s2 = self.fork(st)
                s2['env'] = dict(zip([p[1] for p in f['params']], vals))
                outs = []
                sub.walk(f['order'][0], None, s2, outs, None)
                self.k = sub.k
                if len(outs) != 1 or outs[0][0] != 'ret':
                    raise Unsupported('a callee with several paths: ' + name)
                s3 = outs[0][1]
                for k in ('pc', 'writes', 'eff', 'reads', 'stack', 'written'):
                    st[k] = s3[k]
                if dst:
                    env[dst] = outs[0][2]
                return
            raise Unsupported('a call of ' + name)
        if op == 'alloca':
            self.k += 1
            env[dst] = Ptr(('stack', self.k), 0)
            return
        if op == 'load':
            a = _split(body[len('load'):].replace(' volatile', ''))
            t = a[0].strip()
            p = self.typed(a[1], env)[1]
            env[dst] = self.read(p, width(t) // 8, st)
            return
        if op == 'store':
            a = _split(body[len('store'):].replace(' volatile', ''))
            t, v = self.typed(a[0], env)
            p = self.typed(a[1], env)[1]
            self.write(p, v, width(t) // 8, st)
            return
        if op == 'getelementptr':
            a = _split(re.sub(r'^getelementptr (inbounds )?(nuw )?(nusw )?', '', body))
            p = self.typed(a[1], env)[1]
            env[dst] = self.gep(a[0], p, [self.typed(x, env)[1] for x in a[2:]])
            return
        if op in ('xor', 'and', 'or', 'shl', 'lshr', 'ashr', 'add', 'sub', 'mul', 'icmp', 'udiv', 'urem'):
            rest = re.sub(r'^\w+ ((nuw|nsw|exact|disjoint|samesign) )*', '', body)
            if op == 'icmp':
                pred, rest = rest.split(' ', 1)
            t, rest = self.type(rest)
            xs = _split(rest)
            x, y = self.val(t, xs[0], env), self.val(t, xs[1], env)
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                if op == 'icmp' and pred in ('eq', 'ne') and x.base == y.base:
                    e = x.off == y.off
                    env[dst] = z3.If(e if pred == 'eq' else z3.Not(e), bv(1, 1), bv(0, 1))
                    return
                raise Unsupported('pointers compared')
            if t.startswith('<') and op not in ('xor', 'and', 'or'):
                raise Unsupported('a vector ' + op)
            if op == 'icmp':
                c = {'eq': x == y, 'ne': x != y, 'ult': z3.ULT(x, y), 'ule': z3.ULE(x, y), 'ugt': z3.UGT(x, y), 'uge': z3.UGE(x, y),
                     'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
                env[dst] = z3.If(c, bv(1, 1), bv(0, 1))
                return
            env[dst] = z3.simplify({'xor': x ^ y, 'and': x & y, 'or': x | y, 'shl': x << y, 'lshr': z3.LShR(x, y), 'ashr': x >> y, 'add': x + y, 'sub': x - y,
                                    'mul': x * y, 'udiv': z3.UDiv(x, y), 'urem': self.urem(x, y, st) if op == 'urem' else x}[op])
            return
        if op in ('zext', 'trunc', 'bitcast', 'sext', 'freeze'):
            if op == 'freeze':
                env[dst] = self.typed(body[6:], env)[1]
                return
            m = re.match(r'^\w+ ((?:nneg |nuw |nsw )*)(.*) to (.*)$', body)
            t, v = self.typed(m.group(2), env)
            n, k = width(m.group(3)), width(t)
            if t.startswith('<') and op != 'bitcast':
                raise Unsupported('a vector ' + op)
            env[dst] = v if n == k else (z3.Extract(n - 1, 0, v) if n < k else (z3.SignExt if op == 'sext' else z3.ZeroExt)(n - k, v))
            return
        if op == 'select':
            a = _split(body[len('select'):])
            c = self.typed(a[0], env)[1]
            t, x = self.typed(a[1], env)
            y = self.typed(a[2], env)[1]
            if isinstance(x, Ptr) or c.size() != 1:
                raise Unsupported('a select')
            env[dst] = z3.If(c == 1, x, y)
            return
        if op in ('extractelement', 'insertelement'):
            a = _split(body[len(op):])
            t, x = self.typed(a[0], env)
            mm = re.match(r'^<(\d+) x (.*)>$', t)
            cnt, en = int(mm.group(1)), width(mm.group(2))
            i = z3.simplify(self.typed(a[-1], env)[1])
            if not z3.is_bv_value(i):
                raise Unsupported('an unknown lane')
            i = i.as_long()
            lanes = [z3.Extract(k * en + en - 1, k * en, x) for k in range(cnt)]
            if op == 'extractelement':
                env[dst] = lanes[i]
            else:
                lanes[i] = self.typed(a[1], env)[1]
                env[dst] = z3.simplify(z3.Concat(*reversed(lanes))) if cnt > 1 else lanes[0]
            return
        if op == 'shufflevector':
            a = _split(body[len('shufflevector'):])
            t, x = self.typed(a[0], env)
            y = self.typed(a[1], env)[1]
            mm = re.match(r'^<(\d+) x (.*)>$', t)
            cnt, en = int(mm.group(1)), width(mm.group(2))
            mt, mask = self.type(a[2])
            idx = [0] * int(re.match(r'^<(\d+)', mt).group(1)) if mask == 'zeroinitializer' else [q.split()[1] for q in _split(mask[1:-1])]
            lanes = []
            for i in idx:
                if i in ('poison', 'undef'):
                    lanes.append(self.fresh('poison', en))
                else:
                    i = int(i)
                    src = x if i < cnt else y
                    lanes.append(z3.Extract((i % cnt) * en + en - 1, (i % cnt) * en, src))
            env[dst] = z3.simplify(z3.Concat(*reversed(lanes))) if len(lanes) > 1 else lanes[0]
            return
        raise Unsupported('the instruction ' + op)


def prove(assumptions, goal, ms=20000):
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*assumptions)
    s.add(z3.Not(goal))
    r = s.check()
    return ('discharged' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'), (str(s.model()) if r == z3.sat else None)


def invariant(lp, candidates):
    """the first of the candidate conditions (functions of the iteration number) that holds at 0 and is kept by every iteration"""
    for nm, f in candidates:
        a, _ = prove(lp.pc, f(bv(0)))
        b, _ = prove(lp.pc + [f(lp.t), lp.cont], f(lp.t + 1))
        if a == b == 'discharged':
            return nm, f
    return 'true', lambda t: z3.BoolVal(True)
